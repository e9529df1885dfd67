"""C18 nested containers keep the root's family; attribute access equals item access."""

import inspect
import random

from .. import boot, ops
from .. import values as V
from ..free import FreeWorld, gen_common, gen_ctx
from ..world import MISSING

ID = "C18"
LEVEL = "exploration"
QUICK = (160, 60)
THOROUGH = (4000, 150)
RULE = ("One run = one seeded history of operations, outside edits (also of the kind of a value), "
        "restarts and buffered contexts on 1-2 objects of any class; after every step the class of "
        "up to 4 random nodes per object is checked along changing access routes and a node found "
        "that way is mutated; on attribute-access dicts at any depth {get,set,del,has,default} x "
        "{attribute,item} run for names from all categories against a plain model; distinct = CRC "
        "of operations and contents.")
ORDINARY = ["a", "b", "c", "foo", "x1", "append", "insert", "extend", "buffered_", "name", "value",
            "class", "def", "None", "self", "root", "parent", "_x", "_private", "_a", "_", "x_",
            "_Data", "size", "lock", "index", "count", "sort", "reverse", "remove", "copy",
            "fromkeys", "_parent", "_buffer", "_cache", "_lock", "_id", "_timestamp",
            "_load_context", "Filename", "_file", "_backend_", "_validator"]
ODD = ["", " ", "x y", "0", "é", "中", "\U0001f600", "a-b", "a\nb", "1a", "$x", "a/b"]
DUNDER = ["__class__", "__dict__", "__len__", "__foo__", "__x", "__init__", "__getitem__",
          "__slots__", "__module__", "__doc__"]
ACTIONS = ["get", "get", "set", "set", "set", "del", "has", "default", "item_set", "item_del"]
ROUTES_D = ["getitem", "get", "setdefault", "attr", "getattr_default"]
ROUTES_L = ["getitem", "iter", "reversed", "slice", "negative"]
REACH = [f"route:{r}" for r in ROUTES_D + ROUTES_L] + \
    [f"attr:{c}:{a}" for c in ("plain", "odd") for a in ("get", "set", "del", "has", "default")] + \
    ["attr:protected", "attr:protected_set", "attr:protected_del", "attr:method", "attr:dunder",
     "attr:internal", "attr:missing_get", "attr:missing_del", "attr:bad_value", "attr:dot",
     "attr_nested", "outside_write", "kind_changed", "in_context", "deep_mutation", "restarted",
     "list_root", "chain", "setdefault_result"]
ASSUME = ["internal names: _PROTECTED_KEYS of the class and the instance attributes of its objects",
          "assigning through attribute syntax to names that are class attributes is unspecified"]


def make(rng, tier):
    attr = rng.random() < .65
    fam = rng.choice([f for f in boot.ALL_FAMS if f.endswith("_attr")] if attr else boot.ALL_FAMS)
    attr = fam.endswith("_attr")
    cfg, init = gen_common(rng, fam, 1, rng.choice([[0], [0, 0]]), odd=.05)
    g = ops.Gen(rng, huge=False, odd=.05, depth=rng.choice([1, 2, 3]), wrong=0, pcont=.8)
    maxnav = rng.choice([0, 1, 2, 3])
    steps = []

    def nav():
        return [rng.randrange(5) for _ in range(rng.randint(0, maxnav))]
    cats = rng.choice([["plain"], ["plain", "odd"], ["plain", "protected", "method", "internal"],
                       ["plain", "odd", "protected", "method", "dunder", "internal", "dot"]])
    for _ in range(rng.choice([4, 8, 12])):
        r = rng.random()
        if fam in boot.BUF_FAMS and r < .15:
            steps.append(gen_ctx(rng) if rng.random() < .6 else {"s": "exit"})
        elif r < .35:
            steps.append({"s": "mop", "t": rng.randrange(2), "nav": nav(),
                          "d": g.op("d", ["setitem", "setitem", "update", "delitem", "clear",
                                          "setdefault", "reset", "pop"]),
                          "l": g.op("l", ["append", "setitem", "insert", "delitem", "extend",
                                          "setslice", "reset", "pop", "iadd", "reverse"])})
        elif r < .45:
            steps.append({"s": "edit", "m": [rng.choice(["set", "ins", "del", "root", "kind",
                                                         "kind"]),
                                             rng.randrange(9), rng.randrange(9),
                                             V.gen_value(rng, 2, False, .05, .9)],
                          "style": rng.choice(["replace", "inplace"]),
                          "fmt": rng.randrange(5)})
        elif r < .48:
            steps.append({"s": "reopen"})
        elif attr and r < .92:
            cat = rng.choice(cats)
            v = V.gen_value(rng, 2, False, .05, .5)
            steps.append({"s": "attr", "t": rng.randrange(2), "nav": nav(), "cat": cat,
                          "n": rng.randrange(10**6), "a": rng.choice(ACTIONS), "v": v,
                          "bad": rng.random() < .05})
        else:
            steps.append({"s": "touch", "t": rng.randrange(2), "w": rng.randrange(10**6)})
    return {"prop": ID, "cfg": cfg, "init": init, "steps": steps, "walk": rng.randrange(10**6)}


def near_names(cls, rng):
    """Names resembling the special ones, and random identifiers."""
    base = sorted(cls._PROTECTED_KEYS) + public_names(cls)
    out = []
    for _ in range(6):
        x = rng.choice(base)
        out.append(rng.choice([x.upper(), x.capitalize(), x.lstrip("_"), "_" + x.lstrip("_"),
                               x + "_", x[:-1], x + "s", x.strip("_").replace("_", "")]))
        out.append("".join(rng.choice("abXYZ_019é") for _ in range(rng.randrange(1, 7))))
        out.append(rng.choice(["A", "FOO", "Bar", "_T", "_x_", "_1", "x__", "a__b", "_" * 1, "ID",
                               "_name", "_Key", "type", "id", "len", "print", "True"]))
    return out


def public_names(cls):
    return sorted(n for n in dir(cls) if not n.startswith("__"))


class W(FreeWorld):
    def setup(self):
        super().setup()
        m = self.prog["init"][0]
        self.m = self.empty(0) if m is None else V.dc(m)
        self.attr = self.fam.endswith("_attr")
        self.rng = random.Random(self.prog["walk"])
        if self.kinds[0] == "l":
            self.st.inc("list_root")
        # few names, so that the same ones are stored, read and deleted
        pool = [x for x in ORDINARY + near_names(self.dcls, self.rng) if self.ordinary(x)] \
            if self.attr else ["a"]
        self.names = self.rng.sample(pool, min(len(pool), self.rng.choice([2, 4, 12])))

    # -- the oracle ----------------------------------------------------------
    def child(self, live, kind, node, k):
        """The child at k along a random route."""
        if kind == "d":
            r = self.rng.choice(ROUTES_D)
            if r in ("attr", "getattr_default") and not (self.attr and self.ordinary(k)):
                r = "getitem"
            self.st.inc("route:" + r)
            if r == "getitem":
                return live[k], r
            if r == "get":
                return live.get(k), r
            if r == "setdefault":
                return live.setdefault(k, 0), r
            if r == "attr":
                return getattr(live, k), r
            return getattr(live, k, None), r
        r = self.rng.choice(ROUTES_L)
        self.st.inc("route:" + r)
        n = len(node)
        if r == "getitem":
            return live[k], r
        if r == "negative":
            return live[k - n], r
        if r == "iter":
            return list(live)[k], r
        if r == "reversed":
            return list(reversed(live))[n - 1 - k], r
        return live[k:][0], r

    def family(self, live, node, path, what):
        kind = V.kind_of(node)
        want = self.dcls if kind == "d" else self.lcls
        if type(live) is not want:
            self.violate("family", f"{self.fam}: after {what}, the node at {V.short(list(path))} "
                         f"holding {V.short(node, 80)} is a {type(live).__name__}, expected "
                         f"{want.__name__}")
            return
        if len(live) != len(node):
            self.violate("content", f"{self.fam}: after {what}, the node at "
                         f"{V.short(list(path))} has {len(live)} entries, expected {len(node)}")
        ks = [k for k in (sorted(node) if kind == "d" else range(len(node)))
              if V.kind_of(node[k])]
        self.rng.shuffle(ks)
        for k in ks:
            if self.budget > 0:
                self.budget -= 1
                x, r = self.child(live, kind, node, k)
                self.family(x, node[k], path + (k,), f"{what} by {r}")

    def check(self, what):
        for o in self.objs:
            got = o.live()
            if not V.jeq(got, self.m):
                self.violate("content", f"{self.fam}: after {what}, object {o.idx} reads "
                             f"{V.short(got)}, expected {V.short(self.m)}")
            self.budget = 4  # nodes visited per object and step
            self.family(o.live, self.m, (), what)
        if self.cms:
            self.st.inc("in_context")
        else:
            self.persisted(what)
        self.st.nontrivial += 1
        self.st.mix(what, V.short(self.m, 3000))

    def persisted(self, what):
        raw = self.res[0].raw()
        raw = self.empty(0) if raw is MISSING else raw
        if not V.jeq(raw, self.m):
            self.violate("persist", f"{self.fam}: after {what}, the resource holds "
                         f"{V.short(raw)}, expected {V.short(self.m)}")

    def after_exit(self):
        self.check("leaving a context")

    def at(self, t, nav, want=None):
        o = self.objs[t % len(self.objs)]
        path = self.nav_path(self.m, (), nav)
        if want:
            spots = [p for p, n in V.walk(self.m) if V.kind_of(n) == want]
            if not spots:
                return None
            best = [p for p in spots if p[:len(path)] == path] or spots
            path = best[0]
        live, node = o.live, self.m
        for k in path:
            live, _ = self.child(live, V.kind_of(node), node, k)
            node = node[k]
        return o, path, live, V.kind_of(node), node

    # -- ordinary steps -----------------------------------------------------------
    def s_mop(self, s):
        o, path, live, kind, node = self.at(s["t"], s["nav"])
        op, args = s[kind]
        exp = ops.outcome(lambda: ops.apply(node, kind, op, V.dc(args), False))
        got = ops.outcome(lambda: ops.apply(live, kind, op, V.dc(args), True))
        self.st.inc("ops")
        if op == "setdefault" and exp[0] == got[0] == "ok" and V.kind_of(exp[1]):
            self.st.inc("setdefault_result")
            self.budget = 2
            self.family(got[1], exp[1], tuple(path) + (args[0],), "setdefault as its result")
        self.check(f"{op} at {V.short(list(path))} ({exp[0]}, {got[0]})")

    def s_edit(self, s):
        if self.cms:
            return
        m = s["m"]
        if m[0] == "kind":
            new = V.dc(self.m)
            spots = [(p, n) for p, n in V.walk(new) if p]
            if not spots:
                return
            p, n = spots[m[1] % len(spots)]
            other = [[1], {"q": [2]}][m[2] % 2] if isinstance(n, dict) else \
                [{"a": 1}, {"b": {"c": [1]}}][m[2] % 2]
            V.get_path(new, p[:-1])[p[-1]] = other if isinstance(n, dict) == \
                isinstance(other, list) else {"k": [n]}
            self.st.inc("kind_changed")
        else:
            new = self.mutate_plain(self.m, m)
        self.res[0].put(new, s["style"], s.get("fmt", 0))
        self.m = new
        self.st.inc("outside_write")
        self.check(f"an outside edit ({m[0]})")

    def s_reopen(self, s):
        if self.cms:
            return
        for o in self.objs:
            o.live = self.res[0].make(self.root_cls(0))
        self.st.inc("restarted")
        self.check("opening fresh objects")

    def s_touch(self, s):
        """Mutate a node at any depth, reached along a random route."""
        rng = random.Random(s["w"])
        o = self.objs[s["t"] % len(self.objs)]
        spots = [p for p, _ in V.walk(self.m)]
        path = rng.choice(spots)
        live, node = o.live, self.m
        for k in path:
            live, _ = self.child(live, V.kind_of(node), node, k)
            node = node[k]
        if isinstance(node, dict):
            live["touched"] = {"t": []}
            node["touched"] = {"t": []}
        else:
            live.append([{}])
            node.append([{}])
        if len(path) > 1:
            self.st.inc("deep_mutation")
        self.check(f"mutating the node at {V.short(list(path))}")

    # -- attribute access ---------------------------------------------------------
    def ordinary(self, k):
        cls = self.dcls
        return k not in cls._PROTECTED_KEYS and not k.startswith("__") and not hasattr(cls, k) \
            and "." not in k

    def name(self, cat, n, live):
        if cat == "plain":
            pool = self.names
        elif cat == "odd":
            pool = [x for x in ODD if self.ordinary(x)]
        elif cat == "protected":
            pool = sorted(self.dcls._PROTECTED_KEYS)
        elif cat == "method":
            pool = [x for x in public_names(self.dcls) if x not in self.dcls._PROTECTED_KEYS]
        elif cat == "dunder":
            pool = DUNDER
        elif cat == "internal":
            pool = sorted(vars(live))
        else:
            pool = ["a.b", ".", "x.", ".y"]
        return pool[n % len(pool)]

    def s_attr(self, s):
        at = self.at(s["t"], s["nav"], "d")
        if at is None:
            return
        o, path, live, kind, node = at
        cat = s["cat"]
        k = self.name(cat, s["n"], live)
        if cat == "plain" and s["a"] in ("del", "get", "has") and s["n"] % 3:
            # mostly names that exist
            ks = [x for x in node if self.ordinary(x)]
            k = ks[s["n"] % len(ks)] if ks else k
        where = f"the {self.dcls.__name__} at {V.short(list(path))}, name {k!r}"
        if path:
            self.st.inc("attr_nested")
        if cat in ("plain", "odd"):
            self.plain_name(s, live, node, k, where)
        elif cat == "dot":
            self.dot_name(s, live, node, k, where)
        else:
            self.special_name(s, o, path, live, node, k, where)
        self.check(f"{s['a']} on {where}")

    def plain_name(self, s, live, node, k, where):
        a, v, cat = s["a"], s["v"], s["cat"]
        if s["bad"] and a in ("set", "item_set"):
            bad = {1}
            x = ops.outcome(lambda: setattr(live, k, bad))
            y = ops.outcome(lambda: live.__setitem__(k, bad))
            self.st.inc("attr:bad_value")
            if x[0] != y[0] or type(x[1]) is not type(y[1]):
                self.violate("attr", f"{where}: storing a set by attribute gives {x}, by item {y}")
            return
        if a == "item_set":
            live[k] = V.dc(v)
            node[k] = V.dc(v)
        elif a == "item_del":
            got = ops.outcome(lambda: live.__delitem__(k))
            if (got[0] == "ok") != (k in node):
                self.violate("attr", f"{where}: del by item gives {got}")
            node.pop(k, None)
        elif a == "set":
            setattr(live, k, V.dc(v))
            node[k] = V.dc(v)
        elif a == "del":
            got = ops.outcome(lambda: delattr(live, k))
            if k in node:
                if got[0] != "ok":
                    self.violate("attr", f"{where}: del by attribute raised {got[1]!r}")
                del node[k]
            else:
                self.st.inc("attr:missing_del")
                if got[0] == "ok" or not isinstance(got[1], AttributeError):
                    self.violate("attr", f"{where}: del of a missing attribute gives {got}")
        elif a == "has":
            if hasattr(live, k) is not (k in node):
                self.violate("attr", f"{where}: hasattr is {hasattr(live, k)}, key present: "
                             f"{k in node}")
        elif a == "default":
            mark = object()
            got = getattr(live, k, mark)
            if (got is mark) is (k in node):
                self.violate("attr", f"{where}: getattr with a default gives {V.short(got)}, key "
                             f"present: {k in node}")
        self.st.inc(f"attr:{cat}:{a}")
        # whatever happened, both syntaxes agree now
        got = ops.outcome(lambda: getattr(live, k))
        if k in node:
            item = live[k]
            if got[0] != "ok":
                self.violate("attr", f"{where}: reading the attribute raised {got[1]!r}, the item "
                             f"is {V.short(item)}")
            elif V.kind_of(node[k]):
                if got[1] is not item and type(got[1]) is not type(item) or \
                        not V.jeq(ops.plain(got[1]), node[k]):
                    self.violate("attr", f"{where}: attribute {V.short(got[1])}, item "
                                 f"{V.short(item)}")
                if isinstance(node[k], dict) and s["n"] % 2:
                    # obj.k.sub = v
                    setattr(getattr(live, k), "sub", 1)
                    node[k]["sub"] = 1
                    self.st.inc("chain")
            elif not V.jeq(got[1], node[k]) or type(got[1]) is not type(item):
                self.violate("attr", f"{where}: attribute {V.short(got[1])}, item {V.short(item)}")
        else:
            self.st.inc("attr:missing_get")
            if got[0] == "ok" or not isinstance(got[1], AttributeError):
                self.violate("attr", f"{where}: reading a missing attribute gives {got}")

    def dot_name(self, s, live, node, k, where):
        self.st.inc("attr:dot")
        got = ops.outcome(lambda: setattr(live, k, s["v"]))
        if got[0] == "ok":
            self.violate("attr", f"{where}: a name with a dot was accepted")
        got = ops.outcome(lambda: getattr(live, k))
        if got[0] == "ok" or not isinstance(got[1], AttributeError):
            self.violate("attr", f"{where}: reading a missing attribute gives {got}")

    def special_name(self, s, o, path, live, node, k, where):
        """Protected and internal names, methods, dunders: attributes mean the object."""
        cat, a = s["cat"], s["a"]
        self.st.inc("attr:" + cat)
        before = self.view(live, k)
        internals = dict(vars(live))
        if a in ("item_set", "set", "get", "has", "default"):
            live[k] = V.dc(s["v"])
            node[k] = V.dc(s["v"])
            got = live[k]
            if not V.jeq(ops.plain(got), node[k]):
                self.violate("attr", f"{where}: the item reads {V.short(got)} after storing "
                             f"{V.short(node[k])}")
        else:
            if k in node:
                del live[k]
                del node[k]
        after = self.view(live, k)
        if cat != "dunder" or k in ("__class__", "__dict__"):
            shared = inspect.getattr_static(type(live), k, MISSING)
            if not same_view(before, after, node.get(k)) and after[-1] is not shared:
                self.violate("internals", f"{where}: item access changed the attribute from "
                             f"{before} to {after}")
        now = dict(vars(live))
        if set(now) != set(internals):
            self.violate("internals", f"{where}: item access changed the attributes of the object "
                         f"by {set(now) ^ set(internals)}")
        if cat in ("protected", "internal") and a == "set":
            # writing the attribute addresses the object, not the data
            cur = vars(live).get(k, MISSING)
            if cur is not MISSING:
                setattr(live, k, cur)
                self.st.inc("attr:protected_set")
                if vars(live).get(k) is not cur:
                    self.violate("internals", f"{where}: the attribute was not stored in the object")
            elif hasattr(type(live), k) and cat == "protected":
                # e.g. a read-only property
                ops.outcome(lambda: setattr(live, k, getattr(live, k)))
                vars(live).pop(k, None)
        if cat in ("protected", "internal") and a == "del" and not self.cms:
            # on an object that is not used any more
            live[k] = V.dc(s["v"])
            node[k] = V.dc(s["v"])
            x = self.res[0].make(self.root_cls(0))
            y = x
            for q in path:
                y = y[q]
            ops.outcome(lambda: delattr(y, k))
            self.st.inc("attr:protected_del")
            self.check(f"deleting the attribute {k!r} of an object")

    @staticmethod
    def view(live, k):
        try:
            v = getattr(live, k)
        except AttributeError:
            return ("missing",)
        if callable(v) and not isinstance(v, type):
            return ("callable", getattr(v, "__func__", v))
        return ("value", v)


def same_view(a, b, stored):
    """Does the attribute still mean the same thing, not the stored item?"""
    if a[0] != b[0]:
        return False
    if len(a) == 1 or a[1] is b[1]:
        return True
    if type(a[1]) is not type(b[1]) or ops.is_synced(b[1]):
        return False
    if type(b[1]) in (dict, list):
        return not V.jeq(ops.plain(b[1]), stored)
    # helper objects may be created anew by every access
    return a[1] == b[1] or not isinstance(b[1], (str, int, float, bool, type(None)))


def run(prog, known):
    return W(prog, known).run()
