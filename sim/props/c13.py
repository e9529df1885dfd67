"""C13 concurrent mutators inside a backend-wide buffered context."""

from .. import boot
from .. import values as V
from ..conc import Conc, ConcGen, gen_handles, gen_lazy, gen_scheds, shrink  # noqa: F401

ID = "C13"
LEVEL = "exploration"
QUICK = (120, 40)
THOROUGH = (3000, 60)
RULE = ("One run = one scheduled execution inside a backend-wide buffered context: 2-3 threads "
        "with 1-3 buffered mutators each over 1-3 files, same or different objects, roots or "
        "nested handles, capacities from 0 to unlimited (also changed by threads), per-object "
        "contexts nested inside, both strategies; after the exit every "
        "file must equal the outcome of some order of the operations applied to it, and the "
        "buffer must be empty. Nontrivial = at least one preemption; distinct = program plus "
        "sequence of (switch location, thread).")
MEASURE = "sequences of (thread, code location) of all context switches"
REACH = ["runs_with_preemption", "runs_with_lock_wait", "small_capacity", "distinct_files",
         "same_file_objects", "flush_during_threads", "unshared_reads",
         "objects_made_in_threads", "capacity_changes", "nested_contexts"]
ASSUME = ["preemption happens between executed lines of library code, at lock operations and at "
          "file operations; not inside a line",
          "reads only on objects no other thread uses"]
STUB = ["threading.RLock/Lock of the library (simulated)", "thread scheduling",
        "modification times (simulated clock)", "uuid4"]

D = ["setitem", "setitem", "setattr", "delattr", "delitem", "pop", "popitem", "update",
     "setdefault", "reset", "clear"]
L = ["append", "append", "extend", "iadd", "insert", "setitem", "setslice", "delitem", "pop",
     "remove", "reverse", "reset", "clear"]
DR = ["getitem", "len", "call", "values"]
LR = ["getitem", "len", "call", "iter"]
SHAPES = [(1, 1), (1, 1), (1, 2), (2, 2), (2, 2), (1, 1, 1), (2, 1, 1), (3, 2), (2, 2, 1)]


def make(rng, tier):
    fam = rng.choice(boot.BUF_FAMS)
    g = ConcGen(rng)
    nres = rng.choice([1, 1, 2, 2, 3])
    k = rng.choice("dl")
    kinds = [k if rng.random() < .8 else rng.choice("dl") for _ in range(nres)]
    objs = list(range(nres)) + [rng.randrange(nres) for _ in range(rng.choice([0, 1, 1, 2]))]
    init = [g.init(k) for k in kinds]
    handles = gen_handles(rng, init, objs, rng.choice([0, .5, 1]))
    shape = list(rng.choice(SHAPES))
    rng.shuffle(shape)
    # one object per thread in a part of the programs: then reads are allowed
    private = rng.random() < .3 and len(objs) >= len(shape)
    pcap, pctx = rng.choice([0, 0, .2]), rng.choice([0, 0, .3])
    threads = []
    for t, n in enumerate(shape):
        ts = []
        hs = [i for i, h in enumerate(handles) if not private or h["o"] == t]
        for _ in range(n):
            if private and rng.random() < .3:
                d, l_ = rng.choice(DR), rng.choice(LR)
            else:
                d, l_ = rng.choice(D), rng.choice(L)
            ts.append({"h": rng.choice(hs), "d": [d, g.dargs(d)], "l": [l_, g.largs(l_)]})
            if rng.random() < pctx:
                ts[-1]["ctx"] = 1
            if rng.random() < pcap:
                ts.append({"cap": rng.choice([0, 0, 1, 2, 20, 1000]), "r": rng.randrange(8)})
        threads.append(ts)
    if rng.random() < .15:
        # no object exists before the threads start
        objs, handles = [], []
        threads = gen_lazy(rng, g, kinds, shape, D, L)
    cfg = {"fam": fam, "kinds": kinds, "objs": objs,
           "buf": {"k": "cls", "cap": rng.choice([None, None, 0, 1, 1, 2, 20, 40, 80]),
                   "warm": rng.choice([[], [], [0], [0, 1, 2]])}}
    if rng.random() < .2:
        cfg["wc"] = True
    return {"prop": ID, "cfg": cfg, "init": init, "handles": handles, "threads": threads,
            "scheds": gen_scheds(rng, 8)}


class W(Conc):
    def run(self):
        st = self.st
        if self.cfg["buf"]["cap"] is not None:
            st.inc("small_capacity")
        used = {self.handles[s["h"] % len(self.handles)]["o"]
                for ts in self.prog["threads"] for s in ts if "h" in s}
        res = [self.cfg["objs"][o] for o in used]
        mk = [s["r"] % len(self.kinds) for ts in self.prog["threads"] for s in ts if "mk" in s]
        if mk:
            st.inc("objects_made_in_threads")
        res += mk
        if len(set(res)) > 1:
            st.inc("distinct_files")
        if len(set(res)) < len(res):
            st.inc("same_file_objects")
        if any(s["d"][0] in DR if "d" in s else False for ts in self.prog["threads"] for s in ts):
            st.inc("unshared_reads")
        for k in ("cap", "ctx"):
            if any(k in s for ts in self.prog["threads"] for s in ts):
                st.inc("capacity_changes" if k == "cap" else "nested_contexts")
        self.by_res = {}
        return super().run()

    def judge(self, env, res, stamps):
        if env.exit_errors:
            self.violate("exit-error", "leaving the context raised "
                         + "; ".join(repr(e)[:200] for e in env.exit_errors))
        for c in {self.cls(i) for i in range(len(self.kinds))}:
            n = c.get_current_buffer_size()
            if n != 0:
                self.violate("size", f"{c.__name__} reports buffer size {n} after the exit")
        fin = env.finals()
        self.seen = self.popped(res)
        for i in range(len(self.kinds)):
            ids = [[x for x in s if self.op_res(x) == i] for s in self.ids]
            self.judge_file(i, ids, fin[i], res, stamps)
        if any(n.endswith("replace") for n in (x for x in self.S.locs if isinstance(x, str))):
            self.st.inc("flush_during_threads")

    def judge_file(self, i, ids, fin, res, stamps):
        ops = [x for s in ids for x in s]
        close = False
        for o in self.orders(stamps, ids):
            r2, f2, x2 = self.serial(o, self.seen)
            if not self.eqc(i, fin, f2[i]):
                continue
            close = True
            # an operation fails only where it fails in that order, too
            if all(r2[x][0] == res[x][0] and (res[x][0] != "exc" or res[x][1] == r2[x][1])
                   for x in ops):
                self.st.inc("files_checked")
                return
        if close:
            self.violate("op-error", "operations fail or succeed as in no order with this final "
                         f"content of file {i}: " + self.describe(res))
        else:
            self.violate("content", f"file {i} holds {V.short(fin)}, which no order of the "
                         "operations applied to it produces: " + self.describe(res))


def run(prog, known):
    return W(prog, known).run()
