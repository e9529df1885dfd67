"""Sequential histories on simulated storage, checked against plain data.

A *program* is JSON data: {"prop", "cfg", "init", "steps"}.  Selectors inside
the steps are integers resolved modulo what exists at that moment, so that any
sub-sequence of the steps is again a valid program (needed for minimisation).
"""

import gc
import json
import random
import zlib

import zarr

from . import boot, fs, ops, sched
from . import values as V
from .fs import FSX
from .stores import FakeMongo, FakeRedis, SimZarrStore

MISSING = ("<missing>",)
DRESSABLE = ("setitem", "setattr", "setdefault", "update", "append", "insert", "extend", "iadd",
             "setslice")
KEEPABLE = {"d": ("getitem", "getattr", "get", "setdefault"),
            "l": ("getitem", "iter", "reversed", "getslice")}


class Violation(Exception):
    def __init__(self, key, msg, step=None):
        super().__init__(msg)
        self.key = key
        self.msg = msg
        self.step = step


class Stats:
    def __init__(self):
        self.c = {}
        self.fp = 0  # fingerprint of the run
        self.nontrivial = 0
        self.known = {}
        self.states = set()

    def inc(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def mix(self, *a):
        self.fp = zlib.crc32(repr(a).encode("utf-8", "surrogatepass"), self.fp)


# ---------------------------------------------------------------------------
class Res:
    """A backing resource."""

    def __init__(self, world, idx):
        self.w = world
        self.idx = idx


def encode(v, fmt=0):
    """JSON text of v as different writers would format it."""
    kw = [{}, {"indent": 2}, {"ensure_ascii": False}, {"separators": (",", ":")},
          {"ensure_ascii": False, "indent": 1, "sort_keys": True}][fmt % 5]
    try:
        b = json.dumps(v, **kw).encode()
    except UnicodeEncodeError:  # lone surrogates need the escapes
        b = json.dumps(v).encode()
    return b + b"\n" if fmt % 2 else b


class JSONRes(Res):
    def __init__(self, world, idx):
        super().__init__(world, idx)
        self.path = world.dir + f"f{idx}.json"

    def make(self, cls, **kw):
        if self.w.cfg.get("wc"):
            kw["write_concern"] = True
        return cls(filename=self.path, **kw)

    def raw(self):
        b = fs.raw_bytes(self.path)
        if b is None:
            return MISSING
        return json.loads(b)

    def put(self, v, style="replace", fmt=0):
        fs.raw_put(self.path, encode(v, fmt), style)

    def remove(self):
        fs.raw_remove(self.path)

    def sig(self):
        return fs.raw_sig(self.path)

    def bytes(self):
        return fs.raw_bytes(self.path)


class RedisRes(Res):
    def __init__(self, world, idx):
        super().__init__(world, idx)
        self.key = f"k{idx}"
        if not hasattr(world, "redis"):
            world.redis = FakeRedis()

    def make(self, cls, **kw):
        return cls(client=self.w.redis, key=self.key, **kw)

    def bytes(self):
        return self.w.redis.kv.get(self.key.encode())

    def raw(self):
        b = self.bytes()
        return MISSING if b is None else json.loads(b)

    def put(self, v, style=None, fmt=0):
        self.w.redis.kv[self.key.encode()] = encode(v, fmt)

    def remove(self):
        self.w.redis.kv.pop(self.key.encode(), None)

    sig = bytes


class MongoRes(Res):
    def __init__(self, world, idx):
        super().__init__(world, idx)
        self.uid = {"uid": f"u{idx}"}
        if not hasattr(world, "mongo"):
            world.mongo = FakeMongo()

    def make(self, cls, **kw):
        return cls(collection=self.w.mongo, uid=dict(self.uid), **kw)

    def bytes(self):
        i, d = self.w.mongo._find(self.uid)
        return None if i is None else self.w.mongo.docs[i]

    sig = bytes

    def raw(self):
        i, d = self.w.mongo._find(self.uid)
        return MISSING if i is None else d["data"]

    def put(self, v, style=None, fmt=0):
        import bson

        m = self.w.mongo
        i, d = m._find(self.uid)
        if i is None:
            m._insert({**self.uid, "data": v})
        else:
            m.docs[i] = bson.encode({"_id": d["_id"], **self.uid, "data": v})

    def remove(self):
        i, d = self.w.mongo._find(self.uid)
        if i is not None:
            del self.w.mongo.docs[i]


class ZarrRes(Res):
    def __init__(self, world, idx):
        super().__init__(world, idx)
        self.name = f"z{idx}"
        if not hasattr(world, "zstore"):
            world.zstore = SimZarrStore()
            world.zgroup = zarr.group(store=world.zstore)

    def make(self, cls, **kw):
        return cls(group=self.w.zgroup, name=self.name, **kw)

    def bytes(self):
        return {k: v for k, v in self.w.zstore.d.items() if k.startswith(self.name + "/")} or None

    sig = bytes

    def raw(self):
        hold, fault, FSX.fault = FSX.on_point, FSX.fault, None
        FSX.on_point = None
        try:
            g = zarr.open_group(store=self.w.zstore, mode="r")
            try:
                v = g[self.name][0]
            except KeyError:
                return MISSING
            return V.dc(v)
        finally:
            FSX.on_point, FSX.fault = hold, fault

    def put(self, v, style=None, fmt=0):
        import numcodecs

        g = zarr.open_group(store=self.w.zstore, mode="a")
        ds = g.require_dataset(self.name, shape=1, dtype="object", overwrite=True,
                               object_codec=numcodecs.JSON())
        ds[0] = v

    def remove(self):
        for k in list(self.w.zstore.d):
            if k.startswith(self.name + "/"):
                del self.w.zstore.d[k]


RES = {"redis": RedisRes, "mongo": MongoRes, "zarr": ZarrRes}


class LiveRef:
    """An argument that is a synced collection for the library, plain for the model."""

    def __init__(self, plain, live):
        self.plain = plain
        self.live = live

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<synced {V.short(self.plain, 80)}>"


def strip(x, live):
    """Replace references by the synced or by the plain side (copied)."""
    if isinstance(x, LiveRef):
        return x.live if live else V.dc(x.plain)
    if isinstance(x, dict):
        return {k: strip(v, live) for k, v in x.items()}
    if isinstance(x, list):
        return [strip(v, live) for v in x]
    return x


class Handle:
    __slots__ = ("obj", "path", "live", "kind", "loose")

    def __init__(self, obj, path, live, kind, loose=False):
        self.loose = loose  # the root object belongs to nobody else
        self.obj = obj
        self.path = path
        self.live = live
        self.kind = kind


class Obj:
    __slots__ = ("res", "live", "idx")

    def __init__(self, res, live, idx):
        self.res = res
        self.live = live
        self.idx = idx


class World:
    """Executes programs; subclasses/flags decide what is checked."""

    max_objs = 4
    max_handles = 6
    dress = None
    tmp = False

    def __init__(self, prog, known=()):
        self.prog = prog
        self.cfg = prog["cfg"]
        self.known = set(known)
        self.st = Stats()
        self.fams = boot.families()
        self.fam = self.cfg["fam"]
        self.dcls, self.lcls = self.fams[self.fam]
        self.kinds = self.cfg["kinds"]  # root kind per resource
        self.is_json = self.fam in boot.JSON_FAMS
        self.is_buf = self.fam in boot.BUF_FAMS
        self.stepno = -1

    # -- life cycle --------------------------------------------------------
    def run(self):
        self.dir = fs.new_run_dir()
        FSX.begin(self.dir)
        FSX.fired = {}
        FSX.counts = {}
        boot.reseed_uuid(self.cfg.get("uuid", 1))
        classes = {self.dcls, self.lcls}
        # The simulated locks have no memory of former runs in this process.
        try:
            if self.is_json and not self.cfg.get("thr", True):
                for c in classes:
                    c.disable_multithreading()
            self.setup()
            for self.stepno, step in enumerate(self.prog["steps"]):
                self.step(step)
            self.stepno = len(self.prog["steps"])
            self.finish()
        finally:
            try:
                self.cleanup()
            finally:
                if self.is_json and not self.cfg.get("thr", True):
                    for c in classes:
                        c.enable_multithreading()
                FSX.end()
                fs.drop_run_dir(self.dir)
        for k, v in FSX.fired.items():
            self.st.inc("fault:" + k, v)
        for k, v in FSX.counts.items():
            self.st.inc("io:" + k, v)
        self.st.inc("sim_ns", FSX.clock - 10**18)
        return self.st

    def setup(self):
        R = JSONRes if self.is_json else RES[self.fam]
        self.res = [R(self, i) for i in range(len(self.kinds))]
        self.model = []
        for r, v in zip(self.res, self.prog["init"]):
            if v is None:
                self.model.append(MISSING)
            else:
                r.put(v)
                self.model.append(V.dc(v))
        self.objs = []
        self.handles = []
        for i in self.cfg.get("objs", range(len(self.res))):
            self.new_obj(i)

    def cleanup(self):
        pass

    def finish(self):
        pass

    def violate(self, key, msg):
        if key in self.known:
            self.st.known[key] = self.st.known.get(key, 0) + 1
            return
        raise Violation(key, msg, self.stepno)

    # -- helpers -------------------------------------------------------------
    def empty(self, i):
        return {} if self.kinds[i] == "d" else []

    def content(self, i):
        m = self.model[i]
        return self.empty(i) if m is MISSING else m

    def root_cls(self, i):
        return self.dcls if self.kinds[i] == "d" else self.lcls

    def new_obj(self, i):
        o = Obj(i, self.res[i].make(self.root_cls(i)), len(self.objs))
        self.objs.append(o)
        return o

    def targets(self):
        return [Handle(o, (), o.live, self.kinds[o.res]) for o in self.objs] + self.handles

    def nav_path(self, content, path, nav):
        """Extend `path` using the selectors in nav; returns path."""
        node = V.get_path(content, path)
        for s in nav:
            if isinstance(node, dict):
                ks = sorted(k for k, v in node.items() if isinstance(v, (dict, list)))
            else:
                ks = [i for i, v in enumerate(node) if isinstance(v, (dict, list))]
            if not ks:
                break
            j = s % len(ks)
            path = path + (ks[j],)
            node = node[ks[j]]
        return path

    def pick(self, t, nav):
        """Choose a target; returns (obj, base handle or None, path, relative path)."""
        ts = self.targets()
        h = ts[t % len(ts)]
        c = self.content(h.obj.res)
        path = self.nav_path(c, h.path, nav)
        return h, path, path[len(h.path):]

    @staticmethod
    def live_nav(h, rel):
        n = h.live
        for k in rel:
            n = n[k]
        return n

    def resolve(self, a, node):
        """Resolve symbolic arguments against the current model node."""
        if isinstance(a, dict) and len(a) == 1:
            (k, v), = a.items()
            if k == "$elem":
                xs = list(node.values()) if isinstance(node, dict) else node
                return V.dc(xs[v % len(xs)]) if xs else v
            if k == "$key":
                ks = sorted(node) if isinstance(node, dict) else list(range(len(node)))
                return ks[v % len(ks)] if ks else ("a" if isinstance(node, dict) else 0)
            if k == "$self":
                c = V.dc(node)
                if isinstance(c, list) and c and v:
                    i = v % len(c)
                    if v % 3 == 0:
                        c[i] = v
                    elif v % 3 == 1:
                        del c[i]
                    else:
                        c.append(0)
                elif isinstance(c, dict) and v % 2:
                    c["zz"] = v
                return c
            if k == "$obj":
                return self.live_ref(v)
            if k == "$peer":
                return self.peer(v, node)
        if isinstance(a, list):
            return [self.resolve(x, node) if isinstance(x, (dict, list)) else x for x in a]
        if isinstance(a, dict):
            return {q: self.resolve(x, node) if isinstance(x, (dict, list)) else x
                    for q, x in a.items()}
        return a

    def live_ref(self, sel):
        """A synced node reachable in this world, as an argument."""
        h, path, rel = self.pick(sel[0], sel[1])
        live = self.live_nav(h, rel)
        return LiveRef(V.dc(V.get_path(self.content(h.obj.res), path)), live)

    def peer(self, v, node):
        """Another live object for the node operated on, possibly out of date."""
        h0, path = self.cur
        ps = [h for h in self.targets()
              if h.obj.res == h0.obj.res and h.path == path and h.live is not h0.live]
        if not ps:
            return self.resolve({"$self": v}, node)
        self.st.inc("peer_argument")
        return LiveRef(V.dc(node), ps[v % len(ps)].live)

    def keep_result(self, s, h, path, kind, op, args, res):
        """Retain a child returned by an operation."""
        if not s.get("keep") or op not in KEEPABLE[kind]:
            return
        node = V.get_path(self.content(h.obj.res), path)
        n = len(node)
        if kind == "d":
            ks = [k for k in args[:1] if isinstance(k, str) and k in node]
            xs = [res]
        else:
            ks, xs = [], res
            if op == "getitem" and type(args[0]) is int and -n <= args[0] < n:
                ks, xs = [args[0] % n], [res]
            elif op == "iter":
                ks = list(range(n))
            elif op == "reversed":
                ks = list(range(n - 1, -1, -1))
            elif op == "getslice":
                ks = list(range(n)[slice(*args[0])])
            if ks and len(xs) != n and op in ("iter", "reversed"):
                return
        c = [(k, x) for k, x in zip(ks, xs) if V.kind_of(node[k])]
        if not c:
            return
        k, x = c[s["keep"] % len(c)]
        self.st.inc("result_retained")
        if len(self.handles) >= self.max_handles:
            self.handles.pop(0)
        self.handles.append(Handle(h.obj, path + (k,), x, V.kind_of(node[k]),
                                   self.tmp or h.loose))
        if self.tmp:
            self.st.inc("children_of_dropped_objects")

    def kill_handles(self, obj, path, kind, op, args, node_before):
        """Drop handles whose position was reassigned/removed through `obj`."""
        n = len(path)

        def dead(h):
            if h.obj is not obj or len(h.path) <= n or h.path[:n] != path:
                return False
            k = h.path[n]
            if kind == "d":
                if op in ("setitem", "delitem", "pop", "setattr", "delattr", "iadd_item"):
                    return k == args[0]
                if op == "setdefault":
                    return False
                if op == "update":
                    form, x, kw = args
                    if k in kw:
                        return True
                    if form == "map" and isinstance(x, dict):
                        return k in x
                    if form == "pairs":
                        return any(p[0] == k for p in x)
                    return form == "raw"
                return True  # popitem, clear, reset
            if op in ("append", "extend", "iadd"):
                return False
            if op == "setitem" or op == "iadd_item":
                i = args[0]
                if isinstance(i, int):
                    L = len(node_before)
                    return (i if i >= 0 else i + L) == k
                return False
            return True

        self.handles = [h for h in self.handles if not dead(h)]

    def recheck_handles(self, res, old, new):
        """Drop handles whose position no longer holds the same container kind."""
        keep = []
        for h in self.handles:
            if h.obj.res == res:
                ok = True
                a, b = old, new
                if V.kind_of(a) != V.kind_of(b):
                    ok = False
                else:
                    for k in h.path:
                        try:
                            a, b = a[k], b[k]
                        except (KeyError, IndexError, TypeError):
                            ok = False
                            break
                        if V.kind_of(a) != V.kind_of(b) or V.kind_of(b) is None:
                            ok = False
                            break
                if not ok:
                    continue
            keep.append(h)
        self.handles = keep

    def set_model(self, i, new):
        old = self.content(i)
        self.model[i] = new
        self.recheck_handles(i, old, self.content(i))

    # -- faults ---------------------------------------------------------------
    def arm(self, spec):
        import errno as E

        kinds, nth, err, partial = spec
        kinds = set(kinds)
        FSX.fault = fs.Fault(kinds, nth, getattr(E, err), partial)

    def disarm(self):
        f, FSX.fault = FSX.fault, None
        return f is not None and f.fired

    # -- default steps ----------------------------------------------------------
    def step(self, s):
        getattr(self, "s_" + s["s"])(s)

    def s_newobj(self, s):
        if len(self.objs) < self.max_objs:
            self.new_obj(s["r"] % len(self.res))

    def s_restart(self, s):
        """All objects of the process are gone; new ones are opened."""
        self.handles = []
        old = self.objs
        self.objs = []
        for o in old:
            self.new_obj(o.res)

    def s_hold(self, s):
        """Retain a handle to a nested child."""
        h, path, rel = self.pick(s["t"], s["nav"])
        if not rel:
            return
        i = h.obj.res
        loose = bool(s.get("tmp")) and self.may_open(i)
        if loose:
            self.st.inc("children_of_dropped_objects")
            live = self.live_nav(Handle(h.obj, (), self.res[i].make(self.root_cls(i)), None), path)
            gc.collect(1)
        else:
            live = self.live_nav(h, rel)
        node = V.get_path(self.content(i), path)
        if not ops.is_synced(live):
            self.on_bad_child(path, live)
            return
        if len(self.handles) >= self.max_handles:
            self.handles.pop(0)
        self.handles.append(Handle(h.obj, path, live, V.kind_of(node),
                                   loose or h.loose))

    def on_bad_child(self, path, live):
        pass

    def mutate_plain(self, content, sel, kind_keep=True):
        """An outside edit of plain data; returns the new content."""
        c = V.dc(content)
        mode, a, b, val = sel
        spots = list(V.walk(c))
        path, node = spots[a % len(spots)]
        if mode == "set":
            if isinstance(node, dict):
                ks = sorted(node) + ["n" + str(b % 3)]
                node[ks[b % len(ks)]] = val
            elif node:
                node[b % len(node)] = val
            else:
                node.append(val)
        elif mode == "del":
            if isinstance(node, dict):
                ks = sorted(node)
                if ks:
                    del node[ks[b % len(ks)]]
            elif node:
                del node[b % len(node)]
        elif mode == "ins":
            if isinstance(node, dict):
                node["n" + str(b % 3)] = val
            else:
                node.insert(b % (len(node) + 1), val)
        elif mode == "retype":
            # change one leaf to an equal value of another JSON type
            for k in (sorted(node) if isinstance(node, dict) else range(len(node))):
                x = node[k]
                if isinstance(x, bool):
                    node[k] = int(x)
                    break
                if isinstance(x, int) and abs(x) < 2**53:
                    node[k] = float(x)
                    break
                if isinstance(x, float) and x in (0.0, 1.0):
                    node[k] = bool(x)
                    break
        elif mode == "root":
            if V.kind_of(val) == V.kind_of(c):
                c = val
        return c

    def s_outside(self, s):
        """Another party rewrites the resource."""
        i = s["r"] % len(self.res)
        new = self.mutate_plain(self.content(i), s["m"])
        self.res[i].put(new, s.get("style", "replace"), s.get("fmt", 0))
        self.st.inc("outside_write")
        self.set_model(i, new)

    def s_op(self, s):
        h, path, rel = self.pick(s["t"], s["nav"])
        i = h.obj.res
        before = self.content(i)
        node = V.get_path(before, path)
        kind = V.kind_of(node)
        op, args = s["d"] if kind == "d" else s["l"]
        self.cur = (h, path)
        self.dress = s.get("dress")
        self.tmp = bool(s.get("tmp")) and self.may_open(i)
        args = [self.resolve(a, node) for a in args]
        if op in ("extend", "iadd") and isinstance(args[0], LiveRef) \
                and isinstance(args[0].plain, dict):
            args[0] = sorted(args[0].plain)  # iteration order is unspecified
        self.exec_op(s, h, path, rel, kind, op, args, node)

    def model_op(self, i, path, kind, op, args):
        """Run the operation on a copy of the model; returns (outcome, new content)."""
        new = V.dc(self.content(i))
        node = V.get_path(new, path)
        out = ops.outcome(lambda: ops.apply(node, kind, op, strip(args, False), False))
        if out[0] == "ok":
            out = ("ok", V.dc(ops.plain(out[1])))
        return out, new

    def live_op(self, h, rel, kind, op, args, conv=True):
        args = strip(args, True)
        if self.dress and op in DRESSABLE:
            # the same data in tuples and other mappings
            self.st.inc("dressed_arguments")
            rng = random.Random(self.dress)
            if op == "update" and args[0] == "raw":
                pass
            elif op == "update":
                args = [args[0], V.dress(args[1], rng) if args[0] == "map" else
                        [[p[0], V.dress(p[1], rng)] for p in args[1] or []],
                        {k: V.dress(v, rng) for k, v in args[2].items()}]
            else:
                args = args[:-1] + [V.dress(args[-1], rng)]

        def go():
            node = self.live_nav(h, rel)
            return ops.apply(node, kind, op, args, True)

        def go_tmp():
            # through an object that exists for this operation only
            i = h.obj.res
            node = self.res[i].make(self.root_cls(i))
            for k in h.path + rel:
                node = node[k]
            return ops.apply(node, kind, op, args, True)

        if not self.tmp:
            return ops.outcome(go)
        self.st.inc("ops_via_dropped_object")
        got = ops.outcome(go_tmp)
        if got[0] == "exc":
            got[1].__traceback__ = None
        gc.collect(1)
        return got

    def may_open(self, i):
        """May an operation on resource i go through an object of its own?"""
        return True

    def same_result(self, kind, op, exp, got, model_node_before=None):
        """Compare outcomes; returns None or a message."""
        if exp[0] != got[0]:
            return f"expected {descr(exp)}, got {descr(got)}"
        if exp[0] == "exc":
            if isinstance(got[1], type(exp[1])) or type(got[1]) is type(exp[1]):
                return None
            return f"expected {descr(exp)}, got {descr(got)}"
        a, b = exp[1], got[1]
        if kind == "d" and op in ("iter", "keys", "values", "items"):
            if op == "items":
                ok = len(a) == len(b) and V.jeq(dict((k, v) for k, v in a),
                                                dict((k, v) for k, v in b))
            elif op == "values":
                ok = len(a) == len(b) and multiset_eq(a, b)
            else:
                ok = sorted(a) == sorted(b)
        else:
            ok = V.jeq(a, b)
        return None if ok else f"expected {descr(exp)}, got {descr(got)}"


def multiset_eq(a, b):
    b = list(b)
    for x in a:
        for j, y in enumerate(b):
            if V.jeq(x, y):
                del b[j]
                break
        else:
            return False
    return not b


def descr(o):
    if o[0] == "ok":
        return "value " + V.short(o[1], 160)
    return f"{type(o[1]).__name__}({V.short(str(o[1]), 120)})"
