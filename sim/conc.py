"""Threads on simulated storage (C09, C10, C13, C14).

A program fixes files, objects, handles obtained before the threads start,
the operations of every thread, and a list of schedules.  Every schedule is
one simulated execution; its results are compared with executions of the same
operations one at a time (same library, no scheduler) in some order.
"""

import contextlib
import gc
import json
import os
import zlib

from . import boot, fs, ops, sched
from . import values as V
from .fs import FSX
from .ops import is_synced
from .world import MISSING, JSONRes, Stats, Violation

UNORDERED = {"iter", "keys", "values", "items"}


def freeze(v):
    """An operation result without touching nested synced nodes."""
    if is_synced(v):
        return ["<synced>", "d" if hasattr(v, "keys") else "l"]
    if isinstance(v, (list, tuple)):
        return [freeze(x) for x in v]
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    return v


def merge_orders(seqs, before=None):
    """All interleavings of the sequences that respect the relation `before`."""
    n = sum(len(s) for s in seqs)
    pos = [0] * len(seqs)
    out = []

    def rec():
        if len(out) == n:
            yield tuple(out)
            return
        for i, s in enumerate(seqs):
            if pos[i] < len(s):
                x = s[pos[i]]
                if before is not None and any(before(y, x) for j, t in enumerate(seqs)
                                              for y in t[pos[j]:] if y != x):
                    continue
                pos[i] += 1
                out.append(x)
                yield from rec()
                out.pop()
                pos[i] -= 1
    return rec()


class Env:
    """One fresh instance of the files, objects, handles and contexts."""

    def __init__(self, conc):
        self.c = conc
        cfg = conc.cfg
        self.dir = fs.new_run_dir()
        self.cfg = cfg
        FSX.begin(self.dir)
        boot.reseed_uuid(1)
        sched.reset_locks()
        self.res = [JSONRes(self, i) for i in range(len(conc.kinds))]
        for r, v in zip(self.res, conc.prog["init"]):
            if v is not None:
                r.put(v)
        FSX.clock += 50_000_000
        self.objs = []
        for i in cfg["objs"]:
            i %= len(self.res)
            self.objs.append(self.res[i].make(conc.cls(i)))
        self.handles = []
        for h in conc.handles:
            n = self.objs[h["o"]]
            for k in h["path"]:
                n = n[k]
            self.handles.append(n)
        self.extra = []
        self.cms = []
        self.caps = []
        self.exit_errors = []
        b = cfg.get("buf")
        if b:
            if b["k"] == "cls":
                used = []
                for i in cfg["objs"] or range(len(self.res)):
                    c = conc.cls(i % len(self.res))
                    if c not in used:
                        used.append(c)
                for c in used:
                    self.caps.append((c, c.get_buffer_capacity()))
                    cap = b.get("cap")
                    self.cms.append(c.buffer_backend(cap) if cap is not None
                                    else c.buffer_backend())
            else:
                for o in self.objs:
                    self.cms.append(o.buffered)
            for cm in self.cms:
                cm.__enter__()
            for j in b.get("warm", []) if self.objs else []:
                # some of the objects are used before the threads start
                self.objs[j % len(self.objs)]()

    def leave(self):
        for cm in reversed(self.cms):
            try:
                cm.__exit__(None, None, None)
            except Exception as e:
                self.exit_errors.append(e)
        self.cms = []

    def close(self):
        self.leave()
        for c, v in self.caps:
            try:
                c.set_buffer_capacity(v)
            except Exception:
                pass
        FSX.end()
        fs.drop_run_dir(self.dir)

    def raw(self, i):
        try:
            v = self.res[i].raw()
        except ValueError:
            return "<unparsable>"
        return None if v is MISSING else v

    def finals(self):
        return [self.raw(i) for i in range(len(self.res))]


class Conc:
    """prog: cfg{fam,objs,buf?,wc?}, kinds, init, handles, threads, scheds."""

    realtime = False
    max_steps = 1000000

    def __init__(self, prog, known):
        self.prog = prog
        self.known = set(known)
        self.st = Stats()
        self.st.fps = set()
        self.cfg = prog["cfg"]
        self.kinds = prog["cfg"]["kinds"]
        self.fams = boot.families()
        self.dcls, self.lcls = self.fams[self.cfg["fam"]]
        self.handles = []
        n = len(self.cfg["objs"])
        for h in prog["handles"]:
            o = h["o"] % n
            i = self.cfg["objs"][o] % len(self.kinds)
            v = prog["init"][i]
            path = []
            node = v if v is not None else ({} if self.kinds[i] == "d" else [])
            for k in h["path"]:
                try:
                    nxt = node[k]
                except (KeyError, IndexError, TypeError):
                    break
                if not isinstance(nxt, (dict, list)):
                    break
                node = nxt
                path.append(k)
            self.handles.append({"o": o, "path": path, "res": i, "kind": V.kind_of(node)})
        self.ids = []  # operation ids (thread, index)
        for t, ts in enumerate(prog["threads"]):
            self.ids.append([(t, j) for j in range(len(ts))])
        self.serial_cache = {}

    def cls(self, i):
        return self.dcls if self.kinds[i] == "d" else self.lcls

    def op_res(self, x):
        """The file an operation works on."""
        s = self.prog["threads"][x[0]][x[1]]
        if "r" in s:
            return s["r"] % len(self.kinds)
        return self.handles[s["h"] % len(self.handles)]["res"]

    # -- one operation -------------------------------------------------------
    def apply(self, env, slots, t, s, seen=None):
        """seen: the popped key where a serial execution repeats a popitem."""
        if "mk" in s:
            # the thread binds an object of its own
            r = s["r"] % len(self.kinds)
            slots[t] = (env.res[r].make(self.cls(r)), self.kinds[r])
            if not s.get("loose"):
                env.extra.append(slots[t][0])
            return ("ok", None)
        if "crowd" in s:
            # the thread makes objects on files nobody else uses
            th = sched.cur_thread()
            if th is not None:
                th.hushed = True
            try:
                for k in range(s["crowd"]):
                    env.extra.append(self.cls(s["r"] % len(self.kinds))(
                        filename=os.path.join(env.dir, f"crowd{t}_{k}.json")))
            except Exception as e:
                return ("exc", type(e).__name__)
            finally:
                if th is not None:
                    th.hushed = False
            return ("ok", None)
        if "cap" in s:
            # the thread changes the capacity of the buffer
            try:
                self.cls(s["r"] % len(self.kinds)).set_buffer_capacity(s["cap"])
            except Exception as e:
                return ("exc", type(e).__name__)
            return ("ok", None)
        if s.get("slot"):
            if t not in slots:
                return ("skip",)
            node, kind = slots[t]
        else:
            h = s["h"] % len(self.handles)
            node, kind = env.handles[h], self.handles[h]["kind"]
        if "nav" in s:
            slots.pop(t, None)
            try:
                ks = s["nav"][0] if kind == "d" else s["nav"][1]
                v = node[ks]
            except Exception as e:
                return ("exc", type(e).__name__)
            if is_synced(v):
                slots[t] = (v, "d" if hasattr(v, "keys") else "l")
            return ("ok", freeze(v))
        op, args = s[kind]
        args = V.dc(args)
        try:
            # Which item popitem removes is not specified.
            if seen is not None and op == "popitem" and seen in node:
                v = [seen, freeze(node.pop(seen))]
            else:
                with node.buffered if s.get("ctx") else contextlib.nullcontext():
                    v = freeze(ops.apply(node, kind, op, args, True))
        except Exception as e:
            return ("exc", type(e).__name__)
        if kind == "d" and op in UNORDERED:
            v = sorted(v, key=repr)
        return ("ok", v)

    # -- executions ----------------------------------------------------------
    def execute(self, spec):
        env = Env(self)
        res, stamps, log = {}, {}, []
        slots = {}
        try:
            self.prepare(env)

            def body(t):
                def fn():
                    for j, s in enumerate(self.prog["threads"][t]):
                        a = S.stamp()
                        log.append((S.steps, t, j, None))
                        r = self.apply(env, slots, t, s)
                        res[(t, j)] = r
                        stamps[(t, j)] = (a, S.stamp())
                        log.append((S.steps, t, j, r))
                    if self.prog["threads"][t] and self.prog["threads"][t][0].get("loose"):
                        # nobody refers to the object of this thread any more
                        slots.pop(t, None)
                        gc.collect(1)
                return fn
            S = sched.Scheduler([body(t) for t in range(len(self.prog["threads"]))], spec,
                                self.max_steps)

            def onp(kind, path):
                S.yield_point(kind)
            FSX.on_point = onp
            why = S.run()
            FSX.on_point = None
            for th in S.threads:
                if th.exc is not None:
                    raise th.exc
            self.S, self.log = S, log
            self.st.inc("sim_ns", FSX.clock - 10**18)
            self.account(S)
            if why:
                self.violate("deadlock" if why == "deadlock" else "stuck",
                             f"{why}: the threads cannot finish")
            self.finished(env, res)
            env.leave()
            self.judge(env, res, stamps)
        finally:
            FSX.on_point = None
            env.close()

    def prepare(self, env):
        """Called before the threads start."""

    def finished(self, env, res):
        """Called when all threads ended, before contexts are left."""

    def account(self, S):
        st = self.st
        st.inc("runs")
        st.inc("steps", S.steps)
        st.inc("thread_switches", len(S.switches))
        st.inc("lock_waits", S.blocked_count)
        if S.blocked_count:
            st.inc("runs_with_lock_wait")
        if len(S.switches) > len(S.threads):
            st.inc("runs_with_preemption")
            st.nontrivial += 1
            st.fps.add(zlib.crc32(repr(S.trace_hash).encode(), self.pfp))
        st.states.add(S.trace_hash)
        st.mix(S.trace_hash)

    def popped(self, res):
        """The keys removed by popitem operations in an execution."""
        out = {}
        for x, r in res.items():
            s = self.prog["threads"][x[0]][x[1]]
            if s.get("d", [""])[0] == "popitem" and r[0] == "ok" and isinstance(r[1], list) \
                    and len(r[1]) == 2 and isinstance(r[1][0], str):
                out[x] = r[1][0]
        return out

    def serial(self, order, seen=None):
        seen = seen or {}
        key = (order, tuple(sorted(seen.items()))) if seen else order
        r = self.serial_cache.get(key)
        if r is None:
            env = Env(self)
            res, slots = {}, {}
            try:
                for (t, j) in order:
                    res[(t, j)] = self.apply(env, slots, t, self.prog["threads"][t][j],
                                             seen.get((t, j)))
                env.leave()
                r = (res, env.finals(), [type(e).__name__ for e in env.exit_errors])
            finally:
                env.close()
            self.serial_cache[key] = r
            self.st.inc("serial_executions")
        return r

    def orders(self, stamps, ids=None):
        """Candidate serial orders, the likeliest first."""
        ids = ids or self.ids
        flat = [x for s in ids for x in s]
        # program order always; real-time order only where the property asks
        before = None
        if self.realtime:
            def before(y, x):
                return stamps[y][1] < stamps[x][0]
        first = tuple(sorted(flat, key=lambda x: stamps[x][1]))
        yield first
        for o in merge_orders(ids, before):
            if o != first:
                yield o

    def eqc(self, i, a, b):
        e = {} if self.kinds[i] == "d" else []
        return V.jeq(e if a is None else a, e if b is None else b)

    def judge(self, env, res, stamps):
        fin = env.finals()
        seen = self.popped(res)
        for o in self.orders(stamps):
            r2, f2, x2 = self.serial(o, seen)
            if all(same_result(res[x], r2[x]) for x in res) \
                    and all(self.eqc(i, a, b) for i, (a, b) in enumerate(zip(fin, f2))) \
                    and [type(e).__name__ for e in env.exit_errors] == x2:
                self.st.inc("runs_equal_to_first_order" if o == next(self.orders(stamps))
                            else "runs_equal_to_other_order")
                return
        self.violate("not-serializable", "no order of executing the operations one at a time "
                     f"gives these results and final contents {V.short(fin)}: "
                     + self.describe(res))

    def describe(self, res):
        return "; ".join(f"{self.opname(*x)} -> {V.short(res[x], 120)}" for x in sorted(res))

    def opname(self, t, j):
        s = self.prog["threads"][t][j]
        if "mk" in s:
            return f"T{t}.{j} new object on file {s['r'] % len(self.kinds)}"
        if "crowd" in s:
            return f"T{t}.{j} makes {s['crowd']} objects on other files"
        if "cap" in s:
            return f"T{t}.{j} capacity {s['cap']}"
        if s.get("slot"):
            if "nav" in s:
                return f"T{t}.{j} child {s['nav']} of its node"
            return f"T{t}.{j} on its node: {V.short(s.get('d'), 80)}|{V.short(s.get('l'), 80)}"
        h = self.handles[s["h"] % len(self.handles)]
        where = f"obj{h['o']}" + "".join(f"[{k!r}]" for k in h["path"])
        if "nav" in s:
            return f"T{t}.{j} {where}[{s['nav'][0] if h['kind'] == 'd' else s['nav'][1]!r}]"
        if "x" in s:
            return f"T{t}.{j} {where} {V.short(s['x'], 100)}"
        op, args = s[h["kind"]]
        return f"T{t}.{j} {where}.{op}{V.short(tuple(args), 100)}" \
            + (" in its own context" if s.get("ctx") else "")

    def violate(self, key, msg):
        if key in self.known:
            self.st.known[key] = self.st.known.get(key, 0) + 1
            return
        v = Violation(key, msg)
        p = json.loads(json.dumps(self.prog))
        if any(x["kind"] != "explicit" for x in p["scheds"]) or p.get("search"):
            p["search"] = p.get("search") or p["scheds"]
        p["scheds"] = [{"kind": "explicit", "switches": [list(x) for x in self.S.switches]}]
        v.prog = p
        names = [f"step {a} (at {c[0]}:{c[1]}): run T{b}" if isinstance(c, tuple)
                 else f"step {a} (at {c}): run T{b}"
                 for (a, b), c in zip(self.S.switches, self.S.locs)]
        v.trace = [x[2] for x in sorted(
            [(a, 0, n) for (a, _), n in zip(self.S.switches, names)]
            + [(a, 1, f"  T{t} starts {self.opname(t, j)}" if r is None else
                f"  T{t} {self.opname(t, j)} -> {V.short(r, 100)}")
               for a, t, j, r in self.log], key=lambda z: (z[0], z[1]))]
        raise v

    def run(self):
        self.pfp = zlib.crc32(json.dumps([self.prog["cfg"], self.prog["init"],
                                          self.prog["handles"], self.prog["threads"]],
                                         sort_keys=True).encode())
        FSX.fired, FSX.counts = {}, {}
        # Fills per-type caches of the library, whatever ran before in this process.
        self.serial(tuple(x for s in self.ids for x in s))
        est = None
        for spec in self.prog["scheds"] + self.prog.get("search", []):
            spec = dict(spec)
            if spec["kind"] in ("pct", "burst") and "est" not in spec:
                if est is None:
                    self.execute({"kind": "none"})
                    est = self.S.steps
                spec["est"] = est
            self.execute(spec)
        st = self.st
        for k, v in FSX.fired.items():
            st.inc("fault:" + k, v)
        for k, v in FSX.counts.items():
            st.inc("io:" + k, v)
        st.mix(self.pfp)
        return st


def same_result(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "exc":
        return a[1] == b[1]
    return a[0] == "skip" or V.jeq(a[1], b[1])


# ---------------------------------------------------------------------------
# generation
def gen_scheds(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        seed = rng.getrandbits(32)
        if r < 0.5:
            out.append({"kind": "pct", "d": rng.choice([1, 1, 2, 2, 3, 4]), "seed": seed})
        elif r < 0.75:
            out.append({"kind": "burst", "d": rng.choice([1, 2, 3, 5]), "seed": seed})
        else:
            out.append({"kind": "rw", "p": rng.choice([0.01, 0.03, 0.1, 0.3, 0.6]),
                        "seed": seed})
    return out


class ConcGen:
    """Operations over a small shared key space, with distinguishable values."""

    KEYS = ["a", "b", "l", "n0", "n1"]

    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def value(self, depth=1):
        self.n += 1
        r = self.rng.random()
        if r < 0.6 or depth == 0:
            return f"v{self.n}"
        if r < 0.8:
            return {"x": f"v{self.n}"}
        return [f"v{self.n}", 0]

    def key(self):
        return self.rng.choice(self.KEYS + ["x", "y"])

    def idx(self):
        return self.rng.choice([0, 0, 1, -1, 2])

    def dmap(self):
        return {self.key(): self.value() for _ in range(self.rng.choice([1, 1, 2]))}

    def lst(self):
        return [self.value() for _ in range(self.rng.choice([0, 1, 1, 2]))]

    def dargs(self, op):
        rng = self.rng
        if op in ("setitem", "setdefault", "setattr"):
            return [self.key(), self.value()]
        if op in ("delitem", "getitem", "contains", "getattr", "delattr"):
            return [self.key()]
        if op == "get":
            return [self.key(), 0] if rng.random() < .5 else [self.key()]
        if op == "pop":
            return [self.key()] if rng.random() < .5 else [self.key(), self.value(0)]
        if op == "update":
            r = rng.random()
            if r < .4:
                return ["map", self.dmap(), {}]
            if r < .7:
                return ["kw", None, self.dmap()]
            return ["pairs", [[self.key(), self.value()] for _ in range(2)], {}]
        if op == "reset":
            return [self.dmap() if rng.random() < .8 else {}]
        if op in ("eq", "ne"):
            return [self.dmap()]
        return []

    def largs(self, op):
        rng = self.rng
        if op in ("append",):
            return [self.value()]
        if op in ("extend", "iadd"):
            return [self.lst()]
        if op in ("insert", "setitem"):
            return [self.idx(), self.value()]
        if op in ("delitem", "getitem"):
            return [self.idx()]
        if op == "setslice":
            return [rng.choice([[0, 1, None], [1, None, None], [None, None, None],
                                [0, 0, None]]), self.lst()]
        if op in ("delslice", "getslice"):
            return [rng.choice([[0, 1, None], [1, None, None], [None, None, None],
                                [None, None, 2]])]
        if op == "pop":
            return [] if rng.random() < .5 else [self.idx()]
        if op in ("remove", "contains", "index", "count"):
            return [rng.choice([1, 2, 3, "v1", "v2"])]
        if op == "reset":
            return [self.lst()]
        if op in ("eq", "ne", "lt", "le", "gt", "ge"):
            return [self.lst()]
        return []

    def init(self, kind):
        rng = self.rng
        r = rng.random()
        if r < 0.06:
            return None
        if r < 0.12:
            return {} if kind == "d" else []
        if kind == "d":
            v = {"a": 1, "b": {"x": 1, "y": 2}, "l": [1, 2, 3]}
            if rng.random() < .4:
                v["b"]["l"] = [1, {"z": 1}]
            if rng.random() < .3:
                v["l"][1] = {"a": 1, "x": [1]}
            for k in list(v):
                if rng.random() < .15:
                    del v[k]
            return v
        v = [1, 2, {"a": 1, "x": 2}, [1, 2, 3]]
        if rng.random() < .4:
            v[2]["l"] = [1, {"z": 1}]
        if rng.random() < .3:
            v[3].append({"x": 1})
        if rng.random() < .4:
            rng.shuffle(v)
        if rng.random() < .2:
            v.pop()
        return v


def gen_handles(rng, init, objs, nested):
    """Handles on the objects: roots, or nested containers of the initial content."""
    hs = []
    for o, i in enumerate(objs):
        hs.append({"o": o, "path": []})
        if init[i] is None:
            continue
        ps = [list(p) for p, _ in V.walk(init[i]) if p]
        if ps and rng.random() < nested:
            hs.append({"o": o, "path": rng.choice(ps)})
            if rng.random() < .3:
                hs.append({"o": o, "path": rng.choice(ps)})
    return hs


def gen_lazy(rng, g, kinds, shape, dpool, lpool, pnav=.2):
    """Every thread binds an object of its own and works through it."""
    threads = []
    for n in shape:
        r = rng.randrange(len(kinds))
        ts = [{"mk": 1, "r": r, **({"loose": 1} if rng.random() < .3 else {})}]
        for _ in range(n):
            if rng.random() < pnav:
                ts.append({"slot": 1, "r": r, "nav": [g.key(), g.idx()]})
            d, l_ = rng.choice(dpool), rng.choice(lpool)
            ts.append({"slot": 1, "r": r, "d": [d, g.dargs(d)], "l": [l_, g.largs(l_)]})
        threads.append(ts)
    return threads


def shrink(prog):
    from .runner import _list_at, simpler

    def clone():
        return json.loads(json.dumps(prog))
    if prog.get("search"):
        for t in range(len(prog["threads"])):
            if len(prog["threads"]) > 2 or not prog["threads"][t]:
                q = clone()
                del q["threads"][t]
                q["scheds"] = []
                yield "prog", q
        for t, ts in enumerate(prog["threads"]):
            for j in range(len(ts)):
                q = clone()
                del q["threads"][t][j]
                q["scheds"] = []
                yield "prog", q
        b = prog["cfg"].get("buf")
        if b and b.get("warm"):
            q = clone()
            q["cfg"]["buf"]["warm"] = []
            yield "prog", q
        for i, v in enumerate(prog["init"]):
            if v is not None:
                for w in simpler(v):
                    q = clone()
                    q["init"][i] = w
                    yield "prog", q
        q = clone()
        del q["search"]
        yield "prog", q
        return
    if prog["scheds"] and prog["scheds"][0]["kind"] == "explicit":
        yield "list", _list_at(["scheds", 0, "switches"])
