"""C17 reading never writes."""

from .. import boot, fs, gen, ops
from .. import values as V
from ..buf import BufWorld
from ..fs import FSX
from ..world import MISSING, Handle
from . import _bufgen

ID = "C17"
LEVEL = "exploration"
QUICK = (200, 100)
THOROUGH = (4000, 120)
RULE = ("One run = one seeded history of read operations (all classes and backends, existing and "
        "missing resources, any depth, retained children, new objects) with buffered contexts, "
        "small capacities and transient read faults; in a part of the runs other resources are "
        "modified in the same contexts.  After every step the read-only resources must be "
        "untouched (bytes, inode, mtime, no write/rename/set issued); distinct = CRC of steps and "
        "outcomes.")
REACH = ["exit_by_exception",
         "checks", "missing_checked", "enter:obj", "enter:cls", "outermost_exit",
         "ops_buffered", "small_capacity", "other_file_modified", "ops_failed_by_fault",
         "outside_write", "attr_reads"]
ASSUME = ["creating a collection object is not a read; it must not write either"]
STUB = ["Redis, MongoDB and the Zarr store (in-memory)", "modification times (simulated clock)",
        "uuid4"]


def make(rng, tier):
    fam = rng.choice(boot.ALL_FAMS)
    nres = rng.choice([1, 1, 2, 3])
    rw = [False] + [rng.random() < 0.4 for _ in range(nres - 1)]
    caps = rng.choice([(None,), (None,), (None, 0, 1, 2, 20)])
    buf = fam in boot.BUF_FAMS
    prog = _bufgen.make(rng, fams=[fam], nres=nres, caps=caps, mut=0.3 if any(rw) else 0,
                        penter=0.15 if buf else 0, pexit=0.1 if buf else 0,
                        faulty=0.15, hold=0.08, restart=0.02, newobj=0.05,
                        objs=[0] * rng.choice([1, 1, 2]) + list(range(1, nres)),
                        ctx=rng.choice([("all", "cls"), ("cls",), ("obj", "cls")]))
    prog["cfg"]["rw"] = rw
    for s in prog["steps"]:
        if "f" in s:
            s["f"] = gen.gen_fault(rng, fam, writes=False)
    sw = gen.Swarm(rng, fam)
    n = len(prog["steps"])
    for _ in range(rng.choice([0, 0, 1, 3])):
        prog["steps"].insert(rng.randint(0, n), sw.outside_step())
    for _ in range(rng.choice([0, 1, 3])):
        prog["steps"].insert(rng.randint(0, n), {
            "s": "attr", "t": rng.randrange(64), "nav": sw.nav(),
            "name": rng.choice(["a", "b", "keys", "_x", "__foo__", "zz", "filename", "items"])})
    # reads for the targets that must not be modified
    for s in prog["steps"]:
        if s["s"] == "op":
            s["rd"] = sw.one("d", ops.D_READS)
            s["rl"] = sw.one("l", ops.L_READS)
    return prog


class W(BufWorld):
    def setup(self):
        super().setup()
        self.rw = self.cfg["rw"]
        self.base = [r.sig() for r in self.res]
        FSX.log_writes = []
        self.verify("creating the objects")

    def verify(self, what):
        self.st.inc("checks")
        for i, r in enumerate(self.res):
            if self.rw[i]:
                continue
            if self.base[i] is None:
                self.st.inc("missing_checked")
            if r.sig() != self.base[i]:
                self.violate("touched", f"{what}: resource {i} was written or created: "
                             f"{V.short(self.base[i])} -> {V.short(r.sig())}")
        allowed = [i for i in range(len(self.res)) if self.rw[i]]
        for kind, path in FSX.log_writes:
            if not any(self.names(i, path) for i in allowed):
                self.violate("write-issued", f"{what}: {kind} on {path.rsplit('/', 1)[-1]!r}")
        FSX.log_writes = []
        if self.is_json:
            known = {r.path.rsplit("/", 1)[-1] for r in self.res}
            extra = [n for n in fs.listing(self.dir) if n not in known and not allowed]
            if extra:
                self.violate("listing", f"{what}: new files {extra}")

    def names(self, i, path):
        r = self.res[i]
        if self.is_json:
            return r.path.rsplit("/", 1)[-1] in path
        if self.fam == "redis":
            return r.key in path
        if self.fam == "mongo":
            return True
        return path.startswith(r.name)

    def s_outside(self, s):
        i = s["r"] % len(self.res)
        if self.res_buffered(i):
            return
        super().s_outside(s)
        FSX.log_writes = []
        self.base[i] = self.res[i].sig()

    def s_newobj(self, s):
        super().s_newobj(s)
        self.verify("creating an object")

    def s_hold(self, s):
        super().s_hold(s)
        self.verify("retaining a child")

    def s_op(self, s):
        h, path, rel = self.pick(s["t"], s["nav"])
        if not self.rw[h.obj.res]:
            s = {**s, "d": s["rd"], "l": s["rl"]}
        else:
            s = {k: v for k, v in s.items() if k != "f"}
        super().s_op(s)

    def s_attr(self, s):
        h, path, rel = self.pick(s["t"], s["nav"])

        def go():
            n = self.live_nav(h, rel)
            return ops.plain(getattr(n, s["name"])) if s["name"] in ("a", "b") \
                else getattr(n, s["name"])

        got = ops.outcome(go)
        self.st.inc("attr_reads")
        self.st.mix("attr", s["name"], got[0])
        self.verify(f"reading attribute {s['name']}")

    def judge(self, i, h, path, kind, op, args, mut, buf, fired, before, new, exp, got, where,
              node0):
        if mut:
            self.st.inc("other_file_modified")
        self.verify(where)

    def after_enter(self, s, c, got):
        super().after_enter(s, c, got)
        if any(self.small):
            self.st.inc("small_capacity")
        self.verify(f"entering a context ({c.kind})")

    def after_exit(self, s, c, leaving, errs, fired):
        if errs and not fired:
            self.violate("exit-error", f"leaving a context raised {type(errs[0]).__name__}: "
                         f"{errs[0]}")
        self.verify(f"leaving a context ({c.kind})")
        for i in leaving:
            self.hist[i] = None
            if self.rw[i]:
                raw = self.raw(i)
                self.set_model(i, raw)


def run(prog, known):
    return W(prog, known).run()
