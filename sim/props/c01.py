"""C01 write-through."""

from .. import boot, gen, ops
from .. import values as V
from ..seq import SeqWorld
from ..world import MISSING, descr

ID = "C01"
LEVEL = "exploration"
QUICK = (320, 110)
THOROUGH = (3000, 80)
RULE = ("One run = one seeded history of mutators (and some reads, reopenings, retained child "
        "handles, transient I/O faults) on one resource of a random class; non-trivial = at least "
        "one operation executed; distinct = CRC of operations, outcomes and resulting contents.")
REACH = ["dressed_arguments", "ops_via_dropped_object",
         "nested_mutations", "depth2plus", "ops_via_retained_handle",
         "ops_failed_by_fault"]
ASSUME = ["Redis/MongoDB/Zarr stores are in-memory stand-ins", "a missing resource counts as empty",
          "MongoDB runs use integers within 64 bits (BSON limit)"]


def make(rng, tier, mut_bias=0.85):
    c = gen.cfg(rng, boot.ALL_FAMS)
    sw = gen.Swarm(rng, c["fam"])
    faults = rng.random() < 0.4
    pf = rng.choice([0.1, 0.25]) if faults else 0
    steps = []
    for _ in range(rng.choice([3, 6, 10, 16, 24])):
        r = rng.random()
        if r < 0.08:
            steps.append({"s": "hold", "t": rng.randrange(64), "nav": sw.nav() + [0],
                          **({"tmp": 1} if rng.random() < sw.p_tmp * 2 else {})})
        elif r < 0.12:
            steps.append({"s": "newobj", "r": 0})
        elif r < 0.14:
            steps.append({"s": "restart"})
        elif r < 0.17:
            steps.append(sw.outside_step())
        else:
            mut = rng.random() < mut_bias
            d = [x for x in sw.d if ops.D_OPS[x][0] == mut] or (ops.D_MUTS if mut else ops.D_READS)
            l = [x for x in sw.l if ops.L_OPS[x][0] == mut] or (ops.L_MUTS if mut else ops.L_READS)
            s = sw.op_step(d, l)
            if rng.random() < pf:
                s["f"] = gen.gen_fault(rng, c["fam"])
            steps.append(s)
    return {"cfg": c, "init": [sw.init(k) for k in c["kinds"]], "steps": steps}




class W(SeqWorld):
    def judge(self, i, h, path, kind, op, args, mut, fired, before, new, raw, exp, got, where,
              sig, node0):
        if not mut:
            return
        if got[0] == "ok":
            if not self.eq_content(i, raw, new):
                self.violate("content", f"{where} returned, but the resource holds "
                             f"{V.short(raw)} instead of {V.short(new)}")
        elif not fired:
            b = self.empty(i) if before is MISSING else before
            if not (self.eq_content(i, raw, new) or self.eq_content(i, raw, b)):
                self.violate("content-after-error", f"{where} raised {descr(got)}; the resource "
                             f"holds {V.short(raw)}, neither {V.short(b)} nor {V.short(new)}")


def run(prog, known):
    return W(prog, known).run()


