"""C10 no operation leaks a lock; no interleaving deadlocks."""

import errno
import json

from .. import boot, fs, sched
from .. import values as V
from ..conc import Conc, ConcGen, freeze, gen_handles, gen_scheds, shrink  # noqa: F401
from ..fs import FSX
from ..gen import gen_fault

ID = "C10"
LEVEL = "exploration"
QUICK = (120, 40)
THOROUGH = (3000, 60)
RULE = ("One run = one scheduled execution of 1-3 threads mixing operations that succeed, that are "
        "rejected, that cannot be saved, that meet an unparsable file or an injected I/O error, "
        "operations between two collections (assignment, update, ==, in), buffered contexts and "
        "capacity changes inside threads, new objects, and objects pointed at another file. "
        "Afterwards no library lock is held and a fresh thread completes operations on every "
        "collection. Nontrivial = a preemption or a failing operation; distinct = program plus "
        "sequence of (switch location, thread).")
MEASURE = "sequences of (thread, code location) of all context switches"
REACH = ["runs_with_preemption", "runs_with_lock_wait", "failed_ops", "corrupt_file", "rejected",
         "unsavable", "cross", "duel", "rebind", "new_object", "context_in_thread", "strict_runs",
         "fault_fired", "recovered_ops", "buf:cls", "buf:all", "class_op"]
ASSUME = ["preemption happens between executed lines of library code, at lock operations and at "
          "file operations; not inside a line",
          "locks are the threading.Lock/RLock objects created by library code"]
STUB = ["threading.RLock/Lock of the library (simulated)", "thread scheduling",
        "modification times (simulated clock)", "uuid4"]

D = ["setitem", "setattr", "getattr", "delitem", "pop", "update", "setdefault", "clear", "reset",
     "getitem", "get", "len", "iter", "call", "eq", "values", "popitem", "contains"]
L = ["append", "extend", "iadd", "insert", "setitem", "delitem", "setslice", "pop", "remove",
     "reverse", "clear", "reset", "getitem", "len", "iter", "call", "eq", "lt", "index", "count",
     "contains", "reversed"]
CROSS = ["assign", "update", "reset", "eq", "ne", "contains", "nested", "index", "count", "lt",
         "le", "gt", "ge", "setdefault", "get", "pop", "remove", "insert", "iadd", "slice"]
CROSS_D = ["assign", "update", "reset", "eq", "contains", "nested", "setdefault", "setdefault",
           "get", "pop"]
CROSS_L = [x for x in CROSS if x not in ("setdefault", "get", "pop")]
BAD = ["set", "key", "obj", "dot", "hugeint", "deep"]
SHAPES = [(1,), (2,), (1, 1), (1, 1), (1, 2), (2, 2), (1, 1, 1), (2, 1, 1), (3, 2)]


def make(rng, tier):
    r = rng.random()
    if r < .2:
        return make_strict(rng)
    if r < .4:
        return make_duel(rng)
    buf = rng.choice([None, None, None, "cls", "all"])
    fam = rng.choice(boot.BUF_FAMS if buf or rng.random() < .4 else boot.JSON_FAMS)
    g = ConcGen(rng)
    nres = rng.choice([1, 2, 2, 3])
    k = rng.choice("dl")
    kinds = [k if rng.random() < .8 else rng.choice("dl") for _ in range(nres)]
    objs = list(range(nres)) + [rng.randrange(nres) for _ in range(rng.choice([0, 0, 1, 2]))]
    init = [g.init(k) for k in kinds]
    handles = gen_handles(rng, init, objs, rng.choice([0, .5, 1]))
    shape = list(rng.choice(SHAPES))
    w = {"op": 4, "bad": rng.choice([0, 1, 3]), "cross": rng.choice([0, 2, 6]),
         "rebind": rng.choice([0, 1]) if not buf else 0, "new": rng.choice([0, 1]),
         "ctx": rng.choice([0, 2]) if fam in boot.BUF_FAMS else 0,
         "cap": rng.choice([0, 1]) if fam in boot.BUF_FAMS else 0,
         "corrupt": rng.choice([0, 0, 1, 2])}
    pf = rng.choice([0, 0, .3, .7])
    names = [a for a, b in w.items() if b]
    threads = []
    for n in shape:
        ts = []
        for _ in range(n):
            c = rng.choices(names, [w[x] for x in names])[0]
            d, l_ = rng.choice(D), rng.choice(L)
            s = {"h": rng.randrange(len(handles)), "d": [d, g.dargs(d)], "l": [l_, g.largs(l_)]}
            if c == "bad":
                s["x"] = ["bad", rng.choice(BAD), rng.randrange(6), rng.randrange(3)]
            elif c == "cross":
                s["x"] = ["cross", rng.choice(CROSS), rng.randrange(len(handles)), g.key()]
            elif c == "rebind":
                s["x"] = ["rebind", rng.randrange(nres + 1)]
            elif c == "new":
                s["x"] = ["new", rng.randrange(nres)]
            elif c == "ctx":
                s["x"] = ["ctx", rng.choice(["obj", "cls"]), rng.choice([None, 0, 1, 50])]
            elif c == "cap":
                s["x"] = ["cap", rng.choice([0, 1, 2, 50, 10**6])]
            elif c == "corrupt":
                s["x"] = ["corrupt", rng.randrange(nres)]
            if rng.random() < pf:
                s["f"] = gen_fault(rng, fam)
            ts.append(s)
        threads.append(ts)
    cfg = {"fam": fam, "kinds": kinds, "objs": objs}
    if rng.random() < .3:
        cfg["wc"] = True
    if rng.random() < .15:
        cfg["bad0"] = [rng.randrange(nres)]
    if buf:
        cfg["buf"] = {"k": buf, "warm": rng.choice([[], [], [0]]),
                      "cap": rng.choice([None, None, 0, 1, 40])}
    return {"prop": ID, "cfg": cfg, "init": init, "handles": handles, "threads": threads,
            "scheds": gen_scheds(rng, 8)}


def make_strict(rng):
    """Only operations that succeed: rebinding one object must not disturb others."""
    fam = rng.choice(boot.JSON_FAMS)
    k = rng.choice("dl")
    nres = 2
    kinds = [k] * nres
    init = [({"k": i} if k == "d" else [f"i{i}"]) if rng.random() < .85 else None
            for i in range(nres)]
    objs = [0, 0, rng.choice([0, 1])]
    handles = [{"o": i, "path": []} for i in range(3)]
    mover = rng.choice([0, 2])
    threads, n = [], 0
    for t in range(rng.choice([2, 2, 3])):
        ts = []
        for _ in range(rng.choice([1, 2, 2])):
            n += 1
            if t == 0 and rng.random() < .7:
                ts.append({"h": mover, "x": ["rebind", rng.randrange(nres + 1)], "safe": 1})
            elif rng.random() < .15:
                ts.append({"h": 1, "x": ["new", rng.randrange(nres)], "safe": 1})
            else:
                h = rng.choice([0, 1, 1, 2])
                if rng.random() < .75:
                    ts.append({"h": h, "d": ["setitem", [f"n{n}", n]], "l": ["append", [f"n{n}"]],
                               "safe": 1})
                else:
                    r = rng.choice(["len", "call", "iter"])
                    ts.append({"h": h, "d": [r, []], "l": [r, []], "safe": 1})
        threads.append(ts)
    cfg = {"fam": fam, "kinds": kinds, "objs": objs, "strict": True}
    if rng.random() < .3:
        cfg["wc"] = True
    return {"prop": ID, "cfg": cfg, "init": init, "handles": handles, "threads": threads,
            "scheds": gen_scheds(rng, 8)}


def make_duel(rng):
    """Operations between two or three collections in opposite directions."""
    buf = rng.choice([None, None, None, None, "cls", "all"])
    fam = rng.choice(boot.BUF_FAMS if buf else boot.JSON_FAMS)
    k = rng.choice("dl")
    n = rng.choice([2, 2, 2, 3])
    g = ConcGen(rng)
    init = [g.init(k) or ({"a": {}} if k == "d" else [[]]) for _ in range(n)]
    objs = list(range(n))
    handles = gen_handles(rng, init, objs, rng.choice([0, 0, .7]))
    by = [[i for i, h in enumerate(handles) if h["o"] == o] for o in objs]
    same = rng.random() < .6
    op = rng.choice(CROSS_D if k == "d" else CROSS_L)
    threads = []
    for t in range(n):
        ts = []
        for _ in range(rng.choice([1, 1, 2])):
            if not same:
                op = rng.choice(CROSS_D if k == "d" else CROSS_L)
            ts.append({"h": rng.choice(by[t]),
                       "x": ["cross", op, rng.choice(by[(t + 1) % n]), g.key()]})
        threads.append(ts)
    cfg = {"fam": fam, "kinds": [k] * n, "objs": objs}
    if buf:
        cfg["buf"] = {"k": buf, "warm": rng.choice([[], [0, 1, 2]]),
                      "cap": rng.choice([None, None, 0, 1, 40])}
    return {"prop": ID, "cfg": cfg, "init": init, "handles": handles, "threads": threads,
            "scheds": gen_scheds(rng, 12), "duel": 1}


class Opaque:
    pass


def bad_value(kind, where):
    v = {"set": lambda: {1}, "key": lambda: {1: 1}, "obj": Opaque, "dot": lambda: {"a.b": 1},
         "hugeint": lambda: 10**5000, "deep": lambda: deep(3000)}[kind]()
    for j in range(where):
        v = {"q": v, "r": 1} if j % 2 else [1, v]
    return v


def deep(n):
    v = []
    for _ in range(n):
        v = [v]
    return v


def cross(a, kind, b, op, key):
    """An operation on a that involves b."""
    if op in ("eq", "ne", "lt", "le", "gt", "ge"):
        return {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b,
                "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[op]()
    if op == "contains":
        return b in a
    if op == "reset":
        return a.reset(b)
    if kind == "d":
        if op == "update":
            return a.update(b)
        if op == "nested":
            return a.update({key: [1, b]})
        if op == "setdefault":
            return a.setdefault(key + "_", b)
        if op == "get":
            return a.get(key + "_", b) is b
        if op == "pop":
            return a.pop(key + "_", b) is b
        a[key] = b
        return None
    if op == "index":
        return a.index(b)
    if op == "count":
        return a.count(b)
    if op == "remove":
        return a.remove(b)
    if op == "update":
        return a.extend(b)
    if op == "iadd":
        a += b
        return None
    if op == "insert":
        return a.insert(0, b)
    if op == "slice":
        a[0:1] = b
        return None
    if op == "nested":
        return a.append({"q": b})
    return a.append(b)


class W(Conc):
    def run(self):
        self.strict = self.cfg.get("strict", False)
        b = self.cfg.get("buf")
        if b:
            self.st.inc("buf:" + b["k"])
        return super().run()

    def serial(self, order, seen=None):
        """No serial oracle: one unscheduled execution fills the library's caches."""
        self.execute({"kind": "none"}, warm=True)

    def apply(self, env, slots, t, s, seen=None):
        f = s.get("f")
        mine = None
        if f and FSX.fault is None:
            mine = FSX.fault = fs.Fault(f[0], f[1], getattr(errno, f[2]), f[3])
        try:
            r = self.apply1(env, slots, t, s)
        finally:
            if mine is not None:
                if mine.fired:
                    self.st.inc("fault_fired")
                if FSX.fault is mine:
                    FSX.fault = None
        if r[0] == "exc":
            self.st.inc("failed_ops")
            self.failed += 1
        return r

    def apply1(self, env, slots, t, s):
        x = s.get("x")
        if x is None:
            return super().apply(env, slots, t, s)
        hi = s["h"] % len(self.handles)
        h, node = self.handles[hi], env.handles[hi]
        st = self.st
        try:
            if x[0] == "bad":
                st.inc("unsavable" if x[1] in ("hugeint", "deep") else "rejected")
                v = bad_value(x[1], x[3])
                if h["kind"] == "d":
                    [lambda: node.__setitem__("a", v), lambda: node.update({"z": 1, "a": v}),
                     lambda: node.setdefault("nn", v), lambda: node.reset({"a": v}),
                     lambda: node.update(q=v),
                     lambda: node.__setitem__(1.5, 1)][x[2]]()
                else:
                    [lambda: node.append(v), lambda: node.insert(0, v),
                     lambda: node.extend([1, v]), lambda: node.reset([v]),
                     lambda: node.__iadd__([v]), lambda: node.__setitem__(slice(0, 1), [v])][x[2]]()
                return ("ok", None)
            if x[0] == "cross":
                st.inc("cross")
                other = env.handles[x[2] % len(env.handles)]
                k = x[1]
                if self.prog.get("duel"):
                    st.inc("duel")
                r = cross(node, h["kind"], other, k, x[3])
                return ("ok", freeze(r))
            if x[0] == "rebind":
                st.inc("rebind")
                o = env.objs[h["o"]]
                r = x[1]
                o.filename = env.dir + "extra.json" if r >= len(env.res) \
                    else env.res[r].path
                return ("ok", None)
            if x[0] == "new":
                st.inc("new_object")
                r = x[1] % len(env.res)
                o = env.res[r].make(self.cls(r))
                return ("ok", freeze(o()))
            if x[0] == "ctx":
                st.inc("context_in_thread")
                o = env.objs[h["o"]]
                if x[1] == "obj":
                    cm = o.buffered
                else:
                    cm = type(o).buffer_backend(x[2]) if x[2] is not None \
                        else type(o).buffer_backend()
                with cm:
                    return super().apply(env, slots, t, s)
            if x[0] == "cap":
                st.inc("class_op")
                type(env.objs[h["o"]]).set_buffer_capacity(x[1])
                return ("ok", None)
            if x[0] == "corrupt":
                st.inc("corrupt_file")
                r = x[1] % len(env.res)
                fs.raw_put(env.res[r].path, b'{"a": [1, ')
                return ("ok", None)
        except RecursionError:
            return ("exc", "RecursionError")
        except Exception as e:
            return ("exc", type(e).__name__)
        raise AssertionError(x)

    def execute(self, spec, warm=False):
        self.failed = 0
        self.caps = [(c, c.get_buffer_capacity()) for c in (self.dcls, self.lcls)
                     if hasattr(c, "get_buffer_capacity")]
        try:
            super().execute(spec)
        finally:
            sched.reset_locks()
            for c, v in self.caps:
                try:
                    c.set_buffer_capacity(v)
                except Exception:
                    pass

    def prepare(self, env):
        for i in self.cfg.get("bad0", []):
            fs.raw_put(env.res[i % len(env.res)].path, b"[{")
            self.st.inc("corrupt_file")

    def held(self):
        return [lk for lk in sched.ALL_LOCKS if lk.owner is not None]

    def check_free(self, when):
        n = len(self.held())
        if n:
            self.violate("leak", f"{n} lock(s) still held {when}")

    def finished(self, env, res):
        self.check_free("after the operations ended: " + self.describe(res))

    def judge(self, env, res, stamps):
        FSX.fault = None
        self.check_free("after the buffered contexts were left")
        if self.failed and not len(self.S.switches) > len(self.S.threads):
            self.st.nontrivial += 1
        if self.strict:
            self.st.inc("strict_runs")
            for x, r in sorted(res.items()):
                if r[0] != "ok":
                    self.violate("disturbed", f"{self.opname(*x)} raised {r[1]} although every "
                                 "operation of the program is valid: " + self.describe(res))
        # What made operations fail is removed; every collection is usable again.
        paths = [r.path for r in env.res] + [env.dir + "extra.json"]
        if not self.strict:
            for p in paths:
                kind = self.kinds[min(paths.index(p), len(self.kinds) - 1)]
                b = fs.raw_bytes(p)
                if b is None:
                    continue
                try:
                    v = json.loads(b)
                    ok = V.kind_of(v) == kind
                except ValueError:
                    ok = False
                if not ok or p.endswith("extra.json"):
                    fs.raw_remove(p)
        FSX.clock += 50_000_000
        done = []

        def fresh():
            for i, o in enumerate(env.objs):
                kind = self.kinds[self.cfg["objs"][i] % len(self.kinds)]
                try:
                    if not self.strict:
                        # forgets values that can be held but not saved
                        o.reset({} if kind == "d" else [])
                    if kind == "d":
                        o[f"fresh{i}"] = i
                        got = o()[f"fresh{i}"]
                    else:
                        o.append(f"fresh{i}")
                        got = o()[-1]
                    done.append((i, None, got))
                except Exception as e:
                    done.append((i, e, None))
        # objects pointed at a file of the other kind are not usable, on purpose
        sane = all(self.kind_of_path(env, o) in (None, self.kinds[self.cfg["objs"][i]])
                   for i, o in enumerate(env.objs))
        if sane:
            S2 = sched.Scheduler([fresh], {"kind": "none"}, self.max_steps)
            why = S2.run()
            if S2.threads[0].exc is not None:
                raise S2.threads[0].exc
            if why:
                self.violate("blocked", f"{why}: a thread started later cannot complete an "
                             f"operation on object {len(done)}: " + self.describe(res))
            for i, e, got in done:
                if e is not None:
                    self.violate("unusable", f"an operation of a thread started later on object "
                                 f"{i} raised {type(e).__name__}: {str(e)[:150]}: "
                                 + self.describe(res))
            self.st.inc("recovered_ops", len(done))
            self.check_free("after the operations of a later thread")
        if self.strict:
            self.strict_contents(env, res)

    def kind_of_path(self, env, o):
        p = o.filename
        for i, r in enumerate(env.res):
            if r.path == p:
                return self.kinds[i]
        return None

    def strict_contents(self, env, res):
        """Writes through objects that were never rebound are in their file."""
        moved = {self.handles[s["h"] % len(self.handles)]["o"] for ts in self.prog["threads"]
                 for s in ts if s.get("x", [""])[0] == "rebind"}
        for t, ts in enumerate(self.prog["threads"]):
            for j, s in enumerate(ts):
                h = self.handles[s["h"] % len(self.handles)]
                if "x" in s or h["o"] in moved or s["d"][0] != "setitem":
                    continue
                raw = env.raw(h["res"])
                ok = isinstance(raw, (dict, list)) and \
                    (raw.get(s["d"][1][0]) == s["d"][1][1] if h["kind"] == "d"
                     else s["l"][1][0] in raw)
                if not ok:
                    self.violate("disturbed", f"the update of {self.opname(t, j)} is missing "
                                 f"in its file: {V.short(raw)}: " + self.describe(res))


def run(prog, known):
    return W(prog, known).run()
