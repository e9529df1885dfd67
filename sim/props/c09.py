"""C09 concurrent writers are linearizable."""

from .. import boot
from ..conc import Conc, ConcGen, gen_handles, gen_lazy, gen_scheds, shrink  # noqa: F401

ID = "C09"
LEVEL = "exploration"
QUICK = (120, 40)
THOROUGH = (3000, 60)
RULE = ("One run = one scheduled execution of a small program: 2-3 threads with 1-3 mutators each, "
        "through one or several objects of one class on one file (sometimes a second file), roots "
        "or nested handles obtained before the threads start; preemption before every executed "
        "library line, at lock operations and at file operations. Nontrivial = at least one "
        "preemption; distinct = program plus sequence of (switch location, thread).")
MEASURE = "sequences of (thread, code location) of all context switches"
REACH = ["runs_with_preemption", "runs_with_lock_wait", "runs_equal_to_first_order",
         "nested_handles", "same_object", "different_objects", "objects_made_in_threads",
         "many_objects_made"]
ASSUME = ["preemption happens between executed lines of library code, at lock operations and at "
          "file operations; not inside a line",
          "which item popitem removes is free, but it must be one that is there"]
STUB = ["threading.RLock/Lock of the library (simulated)", "thread scheduling",
        "modification times (simulated clock)", "uuid4"]

D = ["setitem", "setitem", "setattr", "delattr", "delitem", "pop", "popitem", "update", "update",
     "setdefault", "clear", "reset"]
L = ["append", "append", "extend", "iadd", "insert", "setitem", "delitem", "delslice", "setslice",
     "pop", "remove", "reverse", "clear", "reset"]
SHAPES = [(1, 1), (1, 1), (1, 2), (2, 2), (2, 2), (1, 1, 1), (2, 1, 1), (3, 2), (2, 2, 1)]


def make(rng, tier):
    fam = rng.choice(boot.JSON_FAMS)
    g = ConcGen(rng)
    nres = 1 if rng.random() < .85 else 2
    kinds = [rng.choice("dl") for _ in range(nres)]
    objs = rng.choice([[0], [0], [0, 0], [0, 0], [0, 0, 0]]) + ([1] if nres == 2 else [])
    init = [g.init(k) for k in kinds]
    handles = gen_handles(rng, init, objs, rng.choice([0, .5, 1]))
    shape = list(rng.choice(SHAPES))
    rng.shuffle(shape)
    dpool = rng.sample(D, rng.choice([2, 4, len(D)]))
    lpool = rng.sample(L, rng.choice([2, 4, len(L)]))
    threads = []
    for n in shape:
        ts = []
        for _ in range(n):
            d, l_ = rng.choice(dpool), rng.choice(lpool)
            ts.append({"h": rng.randrange(len(handles)), "d": [d, g.dargs(d)],
                       "l": [l_, g.largs(l_)]})
        threads.append(ts)
    if rng.random() < .15:
        # no object exists before the threads start
        objs, handles = [], []
        threads = gen_lazy(rng, g, kinds, shape, dpool, lpool)
    if rng.random() < .04:
        # next to the writers, objects on other files are made
        threads.insert(rng.randrange(len(threads) + 1),
                       [{"crowd": rng.choice([20, 70, 140, 280]), "r": 0}])
    cfg = {"fam": fam, "kinds": kinds, "objs": objs}
    if rng.random() < .2:
        cfg["wc"] = True
    return {"prop": ID, "cfg": cfg, "init": init, "handles": handles, "threads": threads,
            "scheds": gen_scheds(rng, 8)}


class W(Conc):
    def run(self):
        hs = [[s["h"] % len(self.handles) for s in ts if "h" in s]
              for ts in self.prog["threads"]]
        used = {h for ts in hs for h in ts}
        if any("mk" in s for ts in self.prog["threads"] for s in ts):
            self.st.inc("objects_made_in_threads")
        if any("crowd" in s for ts in self.prog["threads"] for s in ts):
            self.st.inc("many_objects_made")
        if any(self.handles[h]["path"] for h in used):
            self.st.inc("nested_handles")
        os = [{self.handles[h]["o"] for h in ts} for ts in hs]
        if any(a & b for i, a in enumerate(os) for b in os[i + 1:]):
            self.st.inc("same_object")
        if any(a - b for a in os for b in os):
            self.st.inc("different_objects")
        return super().run()


def run(prog, known):
    return W(prog, known).run()
