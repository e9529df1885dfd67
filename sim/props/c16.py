"""C16 values are copied in and out: no aliasing with user-held objects."""

import collections
import random

import numpy

from .. import boot, ops
from .. import values as V
from ..free import FreeWorld, gen_common, gen_ctx
from ..world import MISSING, RES, JSONRes

ID = "C16"
LEVEL = "exploration"
QUICK = (160, 120)
THOROUGH = (4000, 150)
RULE = ("One run = one seeded history over two resources of one family and one of another: nested "
        "arguments of many container types stored through every entry point, results taken by "
        "call/values/items, values removed by pop/popitem/del and synced nodes assigned anywhere; "
        "every container reachable from a held argument, result or removed value is mutated at "
        "once or later, and all objects and raw resources are compared with plain models after "
        "every step; distinct = CRC of operations and contents.")
D_IN = ["setitem", "setitem", "setdefault", "update:map", "update:pairs", "update:kw", "reset",
        "setattr", "ctor"]
L_IN = ["append", "insert", "extend", "iadd", "setitem", "setslice", "reset", "ctor"]
REACH = [f"arg:d:{e}" for e in sorted(set(D_IN))] + [f"arg:l:{e}" for e in L_IN] + \
        [f"assign:d:{e}" for e in sorted(set(D_IN))] + [f"assign:l:{e}" for e in L_IN] + \
        ["result:call", "result:values", "result:items", "removed:pop", "removed:popitem",
         "removed:del", "removed:delslice", "poked", "mutated_later", "assign_self",
         "assign_same_object", "assign_other_resource", "assign_other_family", "assign_nested",
         "source_changed_after", "in_context", "deep_target", "held_result_kept"] + \
        [f"dress:{t}" for t in ("OrderedDict", "UserDict", "defaultdict", "tuple", "deque",
                                "UserList", "ndarray")]
ASSUME = ["mutating a removed value may raise; it must only not change anything",
          "values replaced by assignment, clear or reset do not count as removed"]
PLAIN = (str, int, float, bool, type(None))


def make(rng, tier):
    fam = rng.choice(boot.ALL_FAMS)
    cfg, init = gen_common(rng, fam, 2, rng.choice([[0, 1], [0, 0, 1]]), odd=0)
    # values must be representable in every family
    init = [None if v is None else V.gen_kind(rng, k, depth=3, huge=False, odd=.05, pcont=.8)
            for k, v in zip(cfg["kinds"], init)]
    cfg["foreign"] = rng.choice([f for f in boot.ALL_FAMS if f != fam])
    cfg["kinds"].append(rng.choice("dl"))
    init.append(V.gen_kind(rng, cfg["kinds"][2], depth=3, huge=False, odd=0, pcont=.8))
    g = ops.Gen(rng, huge=False, odd=.05, depth=2, wrong=0)
    depth = rng.choice([1, 2, 3])
    maxnav = rng.choice([0, 1, 2, 3])

    def val():
        return V.gen_value(rng, depth, False, .05, .9)

    def nav():
        return [rng.randrange(5) for _ in range(rng.randint(0, maxnav))]

    def op(t=None):
        return {"s": "mop", "t": rng.randrange(4) if t is None else t, "nav": nav(),
                "d": g.op("d", ["setitem", "setitem", "update", "delitem", "clear", "setdefault"]),
                "l": g.op("l", ["append", "setitem", "insert", "delitem", "clear", "extend"])}
    w = {k: rng.choice([1, 1, 3]) for k in ("arg", "result", "remove", "assign", "mop", "later")}
    steps = []
    for _ in range(rng.choice([4, 7, 11])):
        if fam in boot.BUF_FAMS and rng.random() < .15:
            steps.append(gen_ctx(rng) if rng.random() < .6 else {"s": "exit"})
        k = rng.choices(list(w), list(w.values()))[0]
        base = {"s": k, "t": rng.randrange(4), "nav": nav()}
        if k == "arg":
            base.update(d=rng.choice(D_IN), l=rng.choice(L_IN), v=val(),
                        many=[V.gen_dict(rng, depth, False, .05, .9),
                              V.gen_list(rng, depth, False, .05, .9)],
                        k=V.gen_key(rng, .05), i=rng.randrange(-3, 4),
                        dress=rng.randrange(10**6), late=rng.random() < .4)
        elif k == "result":
            base.update(how=rng.choice(["call", "values", "items"]), late=rng.random() < .4,
                        keep=rng.random() < .3)
        elif k == "remove":
            base.update(d=rng.choice(["pop", "popitem", "del", "del"]),
                        l=rng.choice(["pop", "popidx", "del", "delslice"]),
                        i=rng.randrange(6), late=rng.random() < .4, poke=rng.randrange(10**6))
        elif k == "assign":
            base.update(d=rng.choice(D_IN), l=rng.choice(L_IN), src=[rng.randrange(4), nav()],
                        wrap=rng.choice([0, 0, 0, 1, 2]), k=V.gen_key(rng, .05),
                        i=rng.randrange(-3, 4), after=op())
        elif k == "mop":
            base = op()
        steps.append(base)
    return {"prop": ID, "cfg": cfg, "init": init, "steps": steps}


def dress(v, rng, st):
    """The same JSON data in other container types."""
    if isinstance(v, dict):
        d = {k: dress(x, rng, st) for k, x in v.items()}
        t = rng.choice([dict, dict, dict, collections.OrderedDict, collections.UserDict, None])
        if t is None:
            r = collections.defaultdict(list)
            r.update(d)
        else:
            r = d if t is dict else t(d)
    elif isinstance(v, list):
        if v and rng.random() < .5 and (all(type(x) is int for x in v)
                                        or all(type(x) is float for x in v)):
            r = numpy.array(v)
        else:
            xs = [dress(x, rng, st) for x in v]
            t = rng.choice([list, list, list, tuple, collections.deque, collections.UserList])
            r = xs if t is list else t(xs)
    else:
        return v
    if type(r) not in (dict, list):
        st.inc("dress:" + type(r).__name__)
    return r


def spoil(v, seen=None):
    """Mutate every container reachable from a user-held object."""
    if isinstance(v, (collections.UserDict, dict)):
        for x in list(v.values()):
            spoil(x)
        for k in list(v):
            v[k] = "SPOILED"
        v["spoiled"] = [1]
    elif isinstance(v, (list, collections.deque, collections.UserList)):
        for x in list(v):
            spoil(x)
        for i in range(len(v)):
            v[i] = "SPOILED"
        v.append("spoiled")
    elif isinstance(v, tuple):
        for x in v:
            spoil(x)
    elif isinstance(v, numpy.ndarray):
        v.fill(99)


class W(FreeWorld):
    def setup(self):
        self.foreign = len(self.kinds) - 1
        R = JSONRes if self.is_json else RES[self.fam]
        F = self.cfg["foreign"]
        RF = JSONRes if F in boot.JSON_FAMS else RES[F]
        self.res = [R(self, i) for i in range(self.foreign)] + [RF(self, self.foreign)]
        self.m = []
        for i, (r, v) in enumerate(zip(self.res, self.prog["init"])):
            if v is None:
                self.m.append(self.empty(i))
            else:
                r.put(v)
                self.m.append(V.dc(v))
        self.objs, self.handles, self.cms = [], [], []
        for i in self.cfg["objs"] + [self.foreign]:
            self.new_obj(i)
        self.late = []  # user-held objects to be mutated later
        self.results = []  # (result, snapshot)
        self.removed = []  # removed synced values

    def root_cls(self, i):
        c = self.fams[self.cfg["foreign"]] if i == self.foreign else (self.dcls, self.lcls)
        return c[0] if self.kinds[i] == "d" else c[1]

    def s_enter(self, s):
        if self.objs[s["t"] % len(self.objs)].res != self.foreign:
            super().s_enter(s)

    def famof(self, i):
        return self.cfg["foreign"] if i == self.foreign else self.fam

    # -- positions -------------------------------------------------------------
    def at(self, t, nav):
        """-> object, path, live node, kind, model node"""
        o = self.objs[t % len(self.objs)]
        path = self.nav_path(self.m[o.res], (), nav)
        live = o.live
        for k in path:
            live = live[k]
        node = V.get_path(self.m[o.res], path)
        if len(path) > 1:
            self.st.inc("deep_target")
        return o, path, live, V.kind_of(node), node

    def reachable(self, i, node):
        return any(n is node for _, n in V.walk(self.m[i]))

    def small(self):
        return sum(1 for m in self.m for _ in V.walk(m)) < 150

    # -- the oracle --------------------------------------------------------------
    def check(self, what):
        for o in self.objs:
            got = o.live()
            if not V.jeq(got, self.m[o.res]):
                self.violate("content", f"{self.fam}: after {what}, object {o.idx} "
                             f"({self.famof(o.res)}) reads {V.short(got)}, expected "
                             f"{V.short(self.m[o.res])}")
        if self.cms:
            self.st.inc("in_context")
        else:
            for i, r in enumerate(self.res):
                raw = r.raw()
                raw = self.empty(i) if raw is MISSING else raw
                if not V.jeq(raw, self.m[i]):
                    self.violate("resource", f"{self.fam}: after {what}, resource {i} "
                                 f"({self.famof(i)}) holds {V.short(raw)}, expected "
                                 f"{V.short(self.m[i])}")
        self.st.nontrivial += 1
        self.st.mix(what, V.short(self.m, 3000))

    def after_exit(self):
        self.check("leaving a context")

    def step(self, s):
        super().step(s)

    # -- storing ------------------------------------------------------------------
    def store(self, o, path, live, kind, node, e, s, single, smany, plain, pmany):
        """Run entry point `e`; returns a label or None if it does not apply."""
        k, i = s["k"], s["i"]
        if e == "ctor":
            if path or self.cms or not isinstance(pmany, (dict, list)) \
                    or V.kind_of(pmany) != kind:
                return None
            self.ctor(o, smany, pmany)
            return e
        if kind == "d":
            if e == "setattr" and (not self.famof(o.res).endswith("_attr") or not k.isidentifier()
                                   or hasattr(type(live), k)
                                   or k in type(live)._PROTECTED_KEYS):
                e = "setitem"
            if e in ("setitem", "setattr"):
                live.__setitem__(k, single) if e == "setitem" else setattr(live, k, single)
                node[k] = plain
            elif e == "setdefault":
                live.setdefault(k, single)
                node.setdefault(k, plain)
            else:
                if V.kind_of(pmany) != "d":
                    return None
                if e == "update:map":
                    live.update(smany)
                elif e == "update:pairs":
                    live.update([(a, smany[a]) for a in pmany])
                elif e == "update:kw":
                    if any(not isinstance(a, str) for a in pmany):
                        return None
                    live.update(**smany)
                else:
                    live.reset(smany)
                if e == "reset":
                    node.clear()
                node.update(pmany)
        else:
            if e in ("append", "insert", "setitem"):
                if e == "setitem" and not node:
                    e = "append"
                if e == "append":
                    live.append(single)
                    node.append(plain)
                elif e == "insert":
                    live.insert(i, single)
                    node.insert(i, plain)
                else:
                    live[i % len(node)] = single
                    node[i % len(node)] = plain
            else:
                if V.kind_of(pmany) != "l":
                    return None
                if e == "extend":
                    live.extend(smany)
                    node.extend(pmany)
                elif e == "iadd":
                    live += smany
                    node += pmany
                elif e == "setslice":
                    live[i:] = smany
                    node[i:] = pmany
                else:
                    live.reset(smany)
                    node[:] = pmany
        return e

    def ctor(self, o, data, plain):
        i = o.res
        # other sources in this resource go away with it
        if self.uses(data, i):
            return
        self.res[i].remove()
        new = self.res[i].make(self.root_cls(i), data=data)
        o.live = new
        self.m[i] = plain
        got = new()
        if not V.jeq(got, plain):
            self.violate("content", f"{self.fam}: constructed from {V.short(plain)}, reads "
                         f"{V.short(got)}")
        self.pending = (o, i)

    def uses(self, data, i):
        return any(x.live is data or getattr(data, "_root", None) is x.live
                   for x in self.objs if x.res == i) if ops.is_synced(data) else False

    def persist(self):
        """Store the data of a constructed object through its first mutation."""
        if getattr(self, "pending", None) is None:
            return
        o, i = self.pending
        self.pending = None
        self.removed = []  # parts of objects given up here
        if self.kinds[i] == "d":
            o.live["ctor"] = 1
            self.m[i]["ctor"] = 1
        else:
            o.live.append(1)
            self.m[i].append(1)
        for x in self.objs:
            if x.res == i and x is not o:
                x.live = self.res[i].make(self.root_cls(i))

    def s_arg(self, s):
        o, path, live, kind, node = self.at(s["t"], s["nav"])
        rng = random.Random(s["dress"])
        e = s[kind]
        plain, pmany = V.dc(s["v"]), V.dc(s["many"][kind == "l"])
        single = dress(s["v"], rng, self.st)
        smany = dress(pmany, rng, self.st)
        if e in ("update:kw", "update:map") and not isinstance(smany, dict):
            smany = dict(smany)
        if e == "ctor":
            smany = {k: smany[k] for k in pmany} if kind == "d" else list(smany)
        if isinstance(smany, numpy.ndarray) and e in ("extend", "iadd", "setslice"):
            smany = list(smany.tolist())
        e = self.store(o, path, live, kind, node, e, s, single, smany, plain, pmany)
        if e is None:
            return
        self.st.inc(f"arg:{kind}:{e}")
        what = f"storing an argument by {e} at {list(path)}"
        if s["late"]:
            self.late += [single, smany]
        else:
            spoil(single)
            spoil(smany)
            what += " and mutating it"
            if getattr(self, "pending", None):
                got = o.live()
                if not V.jeq(got, self.m[o.res]):
                    self.violate("content", f"{self.fam}: mutating the data passed to the "
                                 f"constructor changed the object to {V.short(got)}")
        self.persist()
        self.check(what)

    # -- results ---------------------------------------------------------------------
    def s_result(self, s):
        o, path, live, kind, node = self.at(s["t"], s["nav"])
        how = s["how"] if kind == "d" else "call"
        what = f"{how} at {list(path)}"
        if how == "call":
            r = live()
            self.plain_only(r, what)
            exp = node
            held = r
        elif how == "values":
            r = live.values()
            held = list(r)
            for x in held:
                self.plain_only(x, what)
            exp = held if len(held) == len(node) else None
        else:
            r = live.items()
            held = list(r)
            for p in held:
                if type(p) is not tuple or len(p) != 2:
                    self.violate("type", f"{self.fam}: {what} yields {V.short(p)}")
                self.plain_only(p[1], what)
            exp = held if len(held) == len(node) else None
        if how == "call" and not V.jeq(r, exp):
            self.violate("result", f"{self.fam}: {what} gives {V.short(r)}, expected "
                         f"{V.short(exp)}")
        self.st.inc("result:" + how)
        if s["keep"]:
            self.results.append((held, V.dc(held), what))
            if how != "call":
                self.results.append((r, V.dc(held), what))
        elif s["late"]:
            self.late.append(held)
        else:
            spoil(held)
            if isinstance(r, (dict, list)):
                spoil(r)
            self.check(what + " and mutating the result")

    def plain_only(self, v, what):
        if type(v) is dict:
            for k, x in v.items():
                if type(k) is not str:
                    self.violate("type", f"{self.fam}: {what} has a key of type {type(k)}")
                self.plain_only(x, what)
        elif type(v) is list:
            for x in v:
                self.plain_only(x, what)
        elif type(v) not in PLAIN:
            self.violate("type", f"{self.fam}: {what} contains {V.short(v, 80)} of type "
                         f"{type(v).__name__}")

    # -- removed values ------------------------------------------------------------------
    def s_remove(self, s):
        o, path, live, kind, node = self.at(s["t"], s["nav"])
        if not node:
            return
        op, got = s[kind], []
        rng = random.Random(s["poke"])

        def grab(k):
            """The child at k and some of its descendants."""
            x = live[k]
            p = node[k]
            if V.kind_of(p):
                got.append(x)
                sub = [q for q, _ in V.walk(p) if q]
                if sub:
                    for key in rng.choice(sub):
                        x = x[key]
                    got.append(x)
        if kind == "d":
            ks = sorted(node)
            k = ks[s["i"] % len(ks)]
            if op == "popitem":
                for q in ks:
                    grab(q)
                k, v = live.popitem()
                if k not in node:
                    self.violate("result", f"{self.fam}: popitem gives {V.short(k)}")
                    return
                keep = node.pop(k)
                got = [v] if V.kind_of(keep) else []
            else:
                grab(k)
                if op == "pop":
                    v = live.pop(k)
                    if V.kind_of(node[k]):
                        got.append(v)
                else:
                    del live[k]
                del node[k]
        else:
            i = s["i"] % len(node)
            if op == "delslice":
                for j in range(i, len(node)):
                    grab(j)
                del live[i:]
                del node[i:]
            else:
                i = len(node) - 1 if op == "pop" else i
                grab(i)
                if op in ("pop", "popidx"):
                    v = live.pop() if op == "pop" else live.pop(i)
                    if V.kind_of(node[i]):
                        got.append(v)
                else:
                    del live[i]
                del node[i]
        self.st.inc("removed:" + {"popidx": "pop"}.get(op, op))
        what = f"{op} at {list(path)}"
        self.removed += got
        self.removed = self.removed[-6:]
        if not s["late"]:
            self.check(what)
            self.poke(rng, what)

    def poke(self, rng, what):
        for x in self.removed:
            if isinstance(x, (dict, list)):
                spoil(x)
            elif hasattr(x, "append"):
                f = rng.choice([lambda: x.append("SPOILED"), lambda: x.extend([1, {"s": 1}]),
                                lambda: x.reset(["SPOILED"]), lambda: x.clear(),
                                lambda: x.insert(0, {"a": 1}), lambda: x.pop(), x.reverse,
                                lambda: x.__setitem__(0, "SPOILED"),
                                lambda: x.__setitem__(slice(None), ["SPOILED"])])
                ops.outcome(f)
            else:
                f = rng.choice([lambda: x.__setitem__("a", "SPOILED"),
                                lambda: x.update({"a": ["SPOILED"]}), lambda: x.clear(),
                                lambda: x.reset({"s": 1}), lambda: x.setdefault("zz", []),
                                lambda: x.popitem(), lambda: x.pop("a")])
                ops.outcome(f)
            self.st.inc("poked")
            self.check(f"mutating a value removed by {what}")

    def s_later(self, s):
        for v in self.late:
            spoil(v)
            self.st.inc("mutated_later")
        self.late = []
        self.check("mutating user-held objects")
        self.poke(random.Random(s["t"]), "an earlier step")

    # -- assignments ------------------------------------------------------------------------
    def s_assign(self, s):
        if not self.small():
            return
        o, path, live, kind, node = self.at(s["t"], s["nav"])
        so, spath, slive, skind, snode = self.at(*s["src"])
        e = s[kind]
        if e == "ctor" and so.res == o.res:
            return
        src, plain = slive, V.dc(snode)
        if s["wrap"] == 1:
            src, plain = [1, src], [1, plain]
        elif s["wrap"] == 2:
            src, plain = {"q": src}, {"q": plain}
        e = self.store(o, path, live, kind, node, e, s, src, src, plain, V.dc(plain))
        if e is None:
            return
        self.persist()
        what = f"assigning a node of object {so.idx} by {e}"
        self.st.inc(f"assign:{kind}:{e}")
        if so is o:
            self.st.inc("assign_self" if path == spath else "assign_same_object")
        elif so.res == o.res:
            self.st.inc("assign_same_object")
        else:
            self.st.inc("assign_other_resource")
            if self.foreign in (so.res, o.res):
                self.st.inc("assign_other_family")
        if s["wrap"]:
            self.st.inc("assign_nested")
        self.check(what)
        # the source is changed through the very node that was assigned
        if (so is o or so.res != o.res) and self.reachable(so.res, snode):
            a = s["after"][skind]
            exp = ops.outcome(lambda: ops.apply(snode, skind, a[0], V.dc(a[1]), False))
            got = ops.outcome(lambda: ops.apply(slive, skind, a[0], V.dc(a[1]), True))
            self.st.inc("source_changed_after")
            self.check(f"{what}, then {a[0]} on the source ({exp[0]}, {got[0]})")

    def s_mop(self, s):
        o, path, live, kind, node = self.at(s["t"], s["nav"])
        op, args = s[kind]
        exp = ops.outcome(lambda: ops.apply(node, kind, op, V.dc(args), False))
        got = ops.outcome(lambda: ops.apply(live, kind, op, V.dc(args), True))
        self.st.inc("ops")
        self.check(f"{op} at {list(path)} ({exp[0]}, {got[0]})")

    def finish(self):
        super().finish()
        self.s_later({"t": 0})
        for r, snap, what in self.results:
            now = list(r) if not isinstance(r, (dict, list)) else r
            if now != snap:
                self.violate("result", f"{self.fam}: a result of {what} changed later from "
                             f"{V.short(snap)} to {V.short(now)}")
            self.st.inc("held_result_kept")


def run(prog, known):
    return W(prog, known).run()
