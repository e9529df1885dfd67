"""C14 readers next to writers."""

import json

from .. import boot
from ..conc import Conc, ConcGen, gen_handles, gen_scheds, shrink  # noqa: F401

ID = "C14"
LEVEL = "exploration"
QUICK = (120, 40)
THOROUGH = (3000, 60)
RULE = ("One run = one scheduled execution: 1-2 reader threads (getitem/get/len/iter/()/==/in and "
        "navigation to a child followed by reads of it) next to 1-2 writer threads, on one object "
        "or on two objects bound to one file, unbuffered, in per-object contexts or in a "
        "backend-wide context of both strategies. Every result and the final file must fit one "
        "order of the operations that respects real time. Nontrivial = at least one preemption; "
        "distinct = program plus sequence of (switch location, thread).")
MEASURE = "sequences of (thread, code location) of all context switches"
REACH = ["runs_with_preemption", "runs_with_lock_wait", "unbuffered", "buf:cls", "buf:all",
         "navigation", "searches", "two_objects", "one_object", "runs_equal_to_first_order"]
ASSUME = ["preemption happens between executed lines of library code, at lock operations and at "
          "file operations; not inside a line",
          "listing a dict is compared without regard to key order",
          "containers returned by a read are compared by kind; their content is read by a later "
          "operation of the thread"]
STUB = ["threading.RLock/Lock of the library (simulated)", "thread scheduling",
        "modification times (simulated clock)", "uuid4"]

DW = ["setitem", "setitem", "setattr", "delattr", "delitem", "pop", "popitem", "update",
      "setdefault", "clear", "reset"]
LW = ["append", "append", "extend", "iadd", "insert", "setitem", "delitem", "delslice",
      "setslice", "pop", "remove", "reverse", "clear", "reset"]
DR = ["getitem", "get", "getattr", "contains", "len", "iter", "keys", "values", "items", "call",
      "call", "eq", "ne", "bool", "repr"]
LR = ["getitem", "getslice", "ge", "contains", "len", "iter", "reversed", "index", "count", "call",
      "call", "eq", "ne", "lt", "repr"]


class ScanGen(ConcGen):
    """Equal values wander through a list while it is searched."""

    POOL = [1, 2, {"a": 1}, {"a": 2}, [1]]

    def __init__(self, rng):
        super().__init__(rng)
        self.pool = rng.choice([self.POOL, self.POOL[2:4], self.POOL[2:4], self.POOL[:2]])

    def value(self, depth=1):
        v = self.rng.choice(self.pool) if depth else self.rng.choice([1, 2])
        return json.loads(json.dumps(v))

    def key(self):
        return "a"

    def init(self, kind):
        return [self.value() for _ in range(self.rng.choice([2, 3, 3, 4]))]

    def lst(self):
        return self.init("l")

    def dmap(self):
        return {"a": self.value(0)}

    def largs(self, op):
        if op in ("remove", "contains", "index", "count"):
            return [self.value()]
        return super().largs(op)


def make(rng, tier):
    scan = rng.random() < .2
    buf = rng.choice([None, None, "cls", "cls", "all"])
    fam = rng.choice(boot.BUF_FAMS if buf else boot.JSON_FAMS)
    g = ScanGen(rng) if scan else ConcGen(rng)
    kinds = ["l" if scan else rng.choice("dl")]
    objs = rng.choice([[0], [0, 0]])
    init = [g.init(kinds[0])]
    handles = gen_handles(rng, init, objs, rng.choice([0, .5, 1]))
    dw, lw = rng.sample(DW, rng.choice([2, len(DW)])), rng.sample(LW, rng.choice([2, len(LW)]))

    lr = LR
    if scan:
        lr = ["contains", "index", "index", "count"]
        lw = ["insert", "setitem", "delitem", "pop", "remove", "reverse", "reset", "append"]

    def reader(n):
        ts = []
        while len(ts) < n:
            h = rng.randrange(len(handles))
            d, l_ = rng.choice(DR), rng.choice(lr)
            if n - len(ts) >= 2 and rng.random() < .35:
                ts.append({"h": h, "nav": [g.key(), g.idx()]})
                ts.append({"h": h, "slot": 1, "d": [d, g.dargs(d)], "l": [l_, g.largs(l_)]})
            else:
                ts.append({"h": h, "d": [d, g.dargs(d)], "l": [l_, g.largs(l_)]})
        return ts

    def writer(n):
        ts = []
        for _ in range(n):
            d, l_ = rng.choice(dw), rng.choice(lw)
            h = rng.randrange(len(handles))
            s = {"h": h, "d": [d, g.dargs(d)], "l": [l_, g.largs(l_)]}
            if rng.random() < .15:
                # the writer works on a child it gets itself
                ts.append({"h": h, "nav": [g.key(), g.idx()]})
                s["slot"] = 1
            ts.append(s)
        return ts
    shape = rng.choice([((1,), (1,)), ((2,), (1,)), ((2,), (2,)), ((1,), (2,)), ((1, 1), (1,)),
                        ((2, 1), (1,)), ((1,), (1, 1)), ((2,), (1, 1)), ((3,), (1,))])
    threads = [reader(n) for n in shape[0]] + [writer(n) for n in shape[1]]
    if rng.random() < .15:
        threads[0] += writer(1)
    rng.shuffle(threads)
    cfg = {"fam": fam, "kinds": kinds, "objs": objs}
    if scan:
        cfg["scan"] = True
    if rng.random() < .2:
        cfg["wc"] = True
    if buf:
        cfg["buf"] = {"k": buf, "warm": rng.choice([[], [], [0], [0, 1]])}
        if buf == "cls":
            if rng.random() < .25:
                for ts in threads:
                    for x in ts:
                        if "nav" not in x and not x.get("slot") and rng.random() < .4:
                            x["ctx"] = 1
            cfg["buf"]["cap"] = rng.choice([None, None, None, 0, 1, 2, 30])
    return {"prop": ID, "cfg": cfg, "init": init, "handles": handles, "threads": threads,
            "scheds": gen_scheds(rng, 8)}


class W(Conc):
    realtime = True

    def run(self):
        b = self.cfg.get("buf")
        self.st.inc("buf:" + b["k"] if b else "unbuffered")
        self.st.inc("two_objects" if len(self.cfg["objs"]) > 1 else "one_object")
        if self.cfg.get("scan"):
            self.st.inc("searches")
        if any("nav" in s for ts in self.prog["threads"] for s in ts):
            self.st.inc("navigation")
        return super().run()


def run(prog, known):
    return W(prog, known).run()
