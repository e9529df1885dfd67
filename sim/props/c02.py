"""C02 read-through."""

from .. import boot, ops
from .. import values as V
from ..seq import SeqWorld
from ..world import MISSING, descr
from . import _seqgen

ID = "C02"
LEVEL = "exploration"
QUICK = (320, 140)
THOROUGH = (4000, 120)
RULE = ("One run = one seeded history of reads interleaved with out-of-band rewrites of the "
        "resource (leaf, container, kind change, null, equal value of another type, whole "
        "document), writes through other objects, retained child handles and transient I/O "
        "faults; non-trivial = at least one operation; distinct = CRC of operations, outcomes "
        "and contents.")
REACH = ["outside_write", "reads_after_foreign_write", "ops_via_retained_handle",
         "handle_writes", "ops_failed_by_fault", "peer_argument", "result_retained"]
ASSUME = ["Redis/MongoDB/Zarr stores are in-memory stand-ins",
          "a resource that does not exist yet counts as empty; resources are not deleted",
          "MongoDB runs use integers within 64 bits (BSON limit)"]

D = [x for x in ops.D_OPS]
L = [x for x in ops.L_OPS]


def make(rng, tier):
    return _seqgen.make(rng, mut=rng.choice([0.15, 0.3, 0.5]), outside=rng.choice([0.2, 0.35]),
                        newobj=0.06, restart=0.01, hold=0.15, faulty=0.25, d=D, l=L,
                        lens=(4, 8, 14, 22), objs=[1, 1, 2, 2, 3],
                        objarg=rng.choice([0, 0.1, 0.3]))


class W(SeqWorld):
    def setup(self):
        super().setup()
        self.foreign = {}

    def s_outside(self, s):
        super().s_outside(s)
        for o in self.objs:
            if o.res == s["r"] % len(self.res):
                self.foreign[o.idx] = True

    def judge(self, i, h, path, kind, op, args, mut, fired, before, new, raw, exp, got, where,
              sig, node0):
        if self.foreign.pop(h.obj.idx, None) and not mut:
            self.st.inc("reads_after_foreign_write")
        if mut:
            for o in self.objs:
                if o.res == i and o is not h.obj:
                    self.foreign[o.idx] = True
            if h.path and not fired:
                self.st.inc("handle_writes")
                if got[0] == "ok" and exp[0] == "ok" and not self.eq_content(i, raw, new):
                    self.violate("handle-write", f"{where} through a retained child did not "
                                 f"persist: the resource holds {V.short(raw)} instead of "
                                 f"{V.short(new)}")
                if got[0] == "exc" and exp[0] == "ok":
                    self.violate("handle-write-error", f"{where} through a retained child: "
                                 f"{self.fmt(exp, got)}")
            return
        if fired and got[0] == "exc":
            return
        if exp[0] == "exc" and got[0] == "exc":
            return
        m = self.same_result(kind, op, exp, got)
        if m:
            b = self.empty(i) if before is MISSING else before
            self.violate("read", f"{where}: {m}; the resource holds {V.short(b)}")

    def on_bad_child(self, path, live):
        self.violate("child", f"navigation to {list(path)} gives {V.short(live)} instead of a "
                     "collection")


def run(prog, known):
    return W(prog, known).run()
