"""C12 every JSON value is accepted and round-trips exactly."""

import math

from .. import boot, ops, runner
from .. import values as V
from ..free import FreeWorld, gen_common, gen_ctx

ID = "C12"
LEVEL = "exploration"
QUICK = (160, 120)
THOROUGH = (4000, 150)
RULE = ("One run = one seeded history storing generated JSON values (boundary scalars, escape-heavy "
        "and astral strings and keys, empty containers, big integers, deep nesting, wide lists) "
        "through every entry point at random positions, unbuffered and in buffered contexts, for "
        "every class; after each store a fresh object on the same resource must return equal "
        "content with equal JSON types at every leaf; distinct = CRC of operations and contents.")
SCALARS = [
    None, True, False, 0, 1, -1, 2, 10, 255, 2**31 - 1, 2**31, -2**31 - 1, 2**53, 2**53 + 1,
    -2**53 - 1, 2**63 - 1, -2**63, 0.0, -0.0, 1.0, -1.0, 0.1, 0.30000000000000004, 1e-7, 1e16,
    1e17, 1e22, 1e23, 123456789012345680.0, 5e-324, 2.2250738585072014e-308,
    1.7976931348623157e308, -1.7976931348623157e308, 3.141592653589793, 2.5e-310, 9007199254740993.0,
    "", " ", "a", "0", "1.0", "true", "null", "NaN", "-Infinity", "é", "ß", "中文", "  ",
    "﻿", "‏‮", "é", "\U0001f600", "\U0010ffff", "\x00", "\x01\x1f\x7f",
    "\"\\/\b\f\n\r\t", "\\u0041", "\\", "'", "</script>", "a.b", "$set", "x" * 5000, "\U0001f600" * 300,
    "{\"a\": 1}", "[1]", "None", "퟿",
]
BIG = [2**63, 2**64, -2**63 - 1, 2**64 + 1, 10**19, 2**70, -2**127, 10**100, 10**1000, -(10**4000)]
LONE = ["\ud800", "a\udc00b", "\udfff\ud800", "\ud83d \ude00"]  # valid JSON, not valid UTF-8
KEYS = ["", " ", "a", "b", "0", "-1", "é", "中文", "\U0001f600", "\x00", "\n\t\"\\", "null", "true",
        "_data", "_root", "data", "keys", "update", "__class__", "__init__", "$a", "_id", "uid",
        "x y", "x" * 300, " ", "self", "other", "key", "default", "_validate", "parent",
        "filename", "a-b", "None", "1e5"]
DOT_KEYS = ["a.b", ".", "..", "a."]
REACH = ["d:" + e for e in ("setitem", "setdefault", "update:map", "update:pairs", "update:kw",
                            "reset", "ctor", "setattr")] + \
        ["l:" + e for e in ("append", "insert", "extend", "iadd", "setitem", "setslice", "reset",
                            "ctor")] + \
        ["big_int", "deep_value", "wide_value", "negative_zero", "empty_key", "dot_key",
         "in_context", "nested_target", "mongo_limits", "lone_surrogate", "twin", "twin_changed"]
ASSUME = ["integers of at most 4000 digits (CPython limits conversion at 4300)",
          "nesting depth of at most 60"]


def value(rng, fam, depth, big):
    r = rng.random()
    if depth <= 0 or r < .45:
        if big and rng.random() < .15:
            return rng.choice(BIG)
        if big and rng.random() < .04:
            return rng.choice(LONE)
        if rng.random() < .1:
            return rng.choice([rng.uniform(-1e6, 1e6), rng.getrandbits(60), -rng.getrandbits(50),
                               "".join(chr(rng.choice([rng.randrange(1, 128),
                                                       rng.randrange(0xa0, 0xd800),
                                                       rng.randrange(0x10000, 0x110000)]))
                                       for _ in range(rng.randrange(1, 12)))])
        return rng.choice(SCALARS)
    n = rng.choice([0, 1, 1, 2, 3, 4])
    if rng.random() < .03:
        n = rng.choice([40, 120])
    if r < .72:
        return {key(rng, fam): value(rng, fam, depth - 1 if n < 10 else 0, big)
                for _ in range(n)}
    return [value(rng, fam, depth - 1 if n < 10 else 0, big) for _ in range(n)]


def key(rng, fam):
    pool = KEYS if fam.endswith("_attr") else KEYS + DOT_KEYS
    if rng.random() < .4:
        return rng.choice("abcd")
    k = rng.choice(pool)
    return "k" if fam == "mongo" and "\x00" in k else k


def twin(v, n):
    """The same value with other types at its leaves: 1 == 1.0 == True."""
    if isinstance(v, dict):
        return {k: twin(x, n + i) for i, (k, x) in enumerate(v.items())}
    if isinstance(v, list):
        return [twin(x, n + i) for i, x in enumerate(v)]
    if isinstance(v, (bool, int, float)) and v in (0, 1):
        c = [bool(v), int(v), float(v)]
        return [x for x in c if type(x) is not type(v)][n % 2]
    if isinstance(v, int) and abs(v) < 2**53:
        return float(v)
    if isinstance(v, float) and v.is_integer() and abs(v) < 2**53:
        return int(v)
    return v


def nest(rng, v, n):
    for _ in range(n):
        v = {"n": v} if rng.random() < .5 else [v]
    return v


def make(rng, tier):
    fam = rng.choice(boot.ALL_FAMS)
    cfg, init = gen_common(rng, fam, 1, [0])
    big = fam != "mongo" and rng.random() < .5
    depth = rng.choice([0, 1, 2, 3, 4])
    limits = fam == "mongo" and rng.random() < .1
    steps = []

    def val():
        v = value(rng, fam, depth, big)
        if rng.random() < .06:
            v = nest(rng, v, rng.choice([6, 20, 60]))
        return v

    def dic():
        return {key(rng, fam): val() for _ in range(rng.choice([0, 1, 2, 3]))}

    def lst():
        return [val() for _ in range(rng.choice([0, 1, 2, 3]))]
    maxnav = rng.choice([0, 1, 2, 4])
    for _ in range(rng.choice([2, 4, 7])):
        if fam in boot.BUF_FAMS and rng.random() < .2:
            steps.append(gen_ctx(rng) if rng.random() < .6 else {"s": "exit"})
        d = rng.choice(["setitem", "setitem", "setdefault", "update:map", "update:pairs",
                        "update:kw", "reset", "ctor", "setattr"])
        l_ = rng.choice(["append", "insert", "extend", "iadd", "setitem", "setslice", "reset",
                         "ctor"])
        s = {"s": "store", "t": 0, "nav": [rng.randrange(5) for _ in range(rng.randint(0, maxnav))],
             "d": [d, key(rng, fam), val(), dic()], "l": [l_, rng.randrange(-3, 4), val(), lst()]}
        if limits and rng.random() < .3:
            s = {"s": "limit", "k": rng.choice(["int", "int", "nul", "lone"]),
                 "v": rng.choice(BIG), "nav": s["nav"], "t": 0}
        elif rng.random() < .2:
            s = {"s": "twin", "nav": s["nav"], "e": rng.randrange(4), "n": rng.randrange(50),
                 "t": 0}
        steps.append(s)
    return {"prop": ID, "cfg": cfg, "init": init, "steps": steps}


class W(FreeWorld):
    def setup(self):
        super().setup()
        m = self.prog["init"][0]
        self.m = self.empty(0) if m is None else V.dc(m)

    def s_store(self, s):
        o = self.objs[-1]
        path = self.nav_path(self.m, (), s["nav"])
        node = V.get_path(self.m, path)
        kind = V.kind_of(node)
        e, k, v, many = s[kind]
        if e == "ctor":
            if path or self.cms or V.kind_of(many) != self.kinds[0]:
                return
            # data passed to the constructor is taken as the current content
            # and is stored with the next mutation
            self.res[0].remove()
            self.m = V.dc(many)
            f = self.ctor(many)
            path = ()
        else:
            if e == "setattr" and (not self.fam.endswith("_attr") or k.startswith("__")
                                   or hasattr(self.dcls, k)
                                   or k in self.dcls._PROTECTED_KEYS):
                e = "setitem"
            n = len(node)
            live = o.live
            for q in path:
                live = live[q]
            if kind == "d":
                f = {"setitem": lambda: live.__setitem__(k, V.dc(v)),
                     "setattr": lambda: setattr(live, k, V.dc(v)),
                     "setdefault": lambda: live.setdefault(k, V.dc(v)),
                     "update:map": lambda: live.update(V.dc(many)),
                     "update:pairs": lambda: live.update([(a, V.dc(b)) for a, b in many.items()]),
                     "update:kw": lambda: live.update(**V.dc(many)),
                     "reset": lambda: live.reset(V.dc(many))}[e]
                if e in ("setitem", "setattr"):
                    node[k] = V.dc(v)
                elif e == "setdefault":
                    node.setdefault(k, V.dc(v))
                elif e == "reset":
                    node.clear()
                    node.update(V.dc(many))
                else:
                    node.update(V.dc(many))
            else:
                if e == "setitem" and not n:
                    e = "append"
                i = k % n if e == "setitem" else k
                f = {"append": lambda: live.append(V.dc(v)),
                     "insert": lambda: live.insert(k, V.dc(v)),
                     "extend": lambda: live.extend(V.dc(many)),
                     "iadd": lambda: live.__iadd__(V.dc(many)),
                     "setitem": lambda: live.__setitem__(i, V.dc(v)),
                     "setslice": lambda: live.__setitem__(slice(k, None), V.dc(many)),
                     "reset": lambda: live.reset(V.dc(many))}[e]
                if e == "append":
                    node.append(V.dc(v))
                elif e == "insert":
                    node.insert(k, V.dc(v))
                elif e in ("extend", "iadd"):
                    node.extend(V.dc(many))
                elif e == "setitem":
                    node[i] = V.dc(v)
                elif e == "setslice":
                    node[k:] = V.dc(many)
                else:
                    node[:] = V.dc(many)
        got = ops.outcome(f)
        self.st.inc(f"{kind}:{e}")
        self.st.nontrivial += 1
        where = f"{self.fam} {kind} at {V.short(list(path), 80)} {e}"
        self.st.mix(self.fam, kind, e, len(path), got[0])
        if path:
            self.st.inc("nested_target")
        self.count(v if e not in ("extend", "iadd", "setslice", "reset", "ctor") and
                   not e.startswith("update") else many)
        if got[0] == "exc":
            self.violate("refused", f"{where}: raised {type(got[1]).__name__}: "
                         f"{str(got[1])[:150]} for {V.short(v if 'set' in e else many)}")
        if self.cms:
            self.st.inc("in_context")
            self.compare(self.objs[-1].live(), where + ", read in the context")
        else:
            self.fresh(where)

    def s_twin(self, s):
        """Replace content by values that are equal in Python and differ in type."""
        path = self.nav_path(self.m, (), s["nav"])
        node = V.get_path(self.m, path)
        keys = list(node) if isinstance(node, dict) else list(range(len(node)))
        new = twin(node, s["n"])
        live = self.objs[-1].live
        for q in path:
            live = live[q]
        self.st.inc("twin")
        if not V.jeq(new, node):
            self.st.inc("twin_changed")
        k = keys[s["n"] % len(keys)] if keys else None
        if s["e"] == 0 and keys:
            f, new = (lambda x=new[k]: live.__setitem__(k, V.dc(x))), new[k]
            node[k] = V.dc(new)
        elif s["e"] == 1 and isinstance(node, dict):
            f = lambda: live.update(V.dc(new))
            node.update(V.dc(new))
        elif s["e"] == 1:
            f = lambda: live.__setitem__(slice(None), V.dc(new))
            node[:] = V.dc(new)
        else:
            f = lambda: live.reset(V.dc(new))
            if isinstance(node, dict):
                node.clear()
                node.update(V.dc(new))
            else:
                node[:] = V.dc(new)
        got = ops.outcome(f)
        where = f"{self.fam} {V.kind_of(node)} at {V.short(list(path), 80)} twin {s['e']}"
        self.st.mix(self.fam, "twin", s["e"], got[0])
        if got[0] == "exc":
            self.violate("refused", f"{where}: raised {type(got[1]).__name__}: "
                         f"{str(got[1])[:150]} for {V.short(new)}")
        if self.cms:
            self.compare(self.objs[-1].live(), where + ", read in the context")
        else:
            self.fresh(where)

    def ctor(self, many):
        cls = self.root_cls(0)

        def f():
            o = self.res[0].make(cls, data=V.dc(many))
            # storing happens with the first mutation of the object
            if self.kinds[0] == "d":
                o.update({"ctor": 1})
            else:
                o.append("ctor")
        if self.kinds[0] == "d":
            self.m["ctor"] = 1
        else:
            self.m.append("ctor")
        return f

    def count(self, v):
        st = self.st

        def rec(x, d):
            if isinstance(x, dict):
                if "" in x:
                    st.inc("empty_key")
                if any("." in k for k in x):
                    st.inc("dot_key")
                if len(x) >= 40:
                    st.inc("wide_value")
                for y in x.values():
                    rec(y, d + 1)
            elif isinstance(x, list):
                if len(x) >= 40:
                    st.inc("wide_value")
                for y in x:
                    rec(y, d + 1)
            elif isinstance(x, int) and not -2**63 <= x < 2**63:
                st.inc("big_int")
            elif isinstance(x, str) and any("\ud800" <= c <= "\udfff" for c in x):
                st.inc("lone_surrogate")
            elif isinstance(x, float) and x == 0 and math.copysign(1, x) < 0:
                st.inc("negative_zero")
            if d == 20:
                st.inc("deep_value")
        rec(v, 0)

    def compare(self, got, where):
        if not V.jeq(got, self.m):
            self.violate("differs", f"{where}: {self.diff(got, self.m)}")

    def diff(self, a, b, path=()):
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            for k in b:
                if not V.jeq(a[k], b[k]):
                    return self.diff(a[k], b[k], path + (k,))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            for i in range(len(b)):
                if not V.jeq(a[i], b[i]):
                    return self.diff(a[i], b[i], path + (i,))
        return f"at {V.short(list(path), 100)} read {V.short(a, 150)} ({V.tname(a)}), " \
               f"stored {V.short(b, 150)} ({V.tname(b)})"

    def fresh(self, where):
        o = self.res[0].make(self.root_cls(0))
        self.compare(o(), where + ", read through a fresh object")
        self.st.mix(V.short(self.m, 2000))

    def after_exit(self):
        if not self.cms:
            self.fresh("after the buffered context")

    def s_limit(self, s):
        """Documents of MongoDB cannot hold every JSON value."""
        path = self.nav_path(self.m, (), s["nav"])
        live = self.objs[-1].live
        for q in path:
            live = live[q]
        v = {"int": s["v"], "nul": {"a\x00b": 1}, "lone": "a\ud800"}[s["k"]]
        self.st.inc("mongo_limits")
        got = ops.outcome(lambda: live.reset([v]) if V.kind_of(V.get_path(self.m, path)) == "l"
                          else live.update({"lim": v}))
        if got[0] == "exc":
            # only the refusal by the BSON encoder is a known finding
            key, exc = {"int": ("mongo-int64", "OverflowError"),
                        "nul": ("mongo-nul-key", "TypeError"),
                        "lone": ("mongo-surrogate", "UnicodeEncodeError")}[s["k"]]
            self.violate(key if type(got[1]).__name__ == exc else "refused",
                         f"MongoDB: {V.short(v, 60)} is refused with {type(got[1]).__name__}: "
                         f"{str(got[1])[:100]}")
            # the refused value may stay in the memory of this object
            self.objs[-1].live = self.res[0].make(self.root_cls(0))
        else:
            node = V.get_path(self.m, path)
            if isinstance(node, list):
                node[:] = [v]
            else:
                node["lim"] = v
            self.fresh("MongoDB limit value")


def shrink(prog):
    yield from runner.default_shrink(prog)
    for i, s in enumerate(prog["steps"]):
        for f in ("d", "l"):
            if f in s:
                for j in (2, 3):
                    for v in runner.simpler(s[f][j]):
                        if j == 2 or type(v) is type(s[f][j]):
                            q = V.dc(prog)
                            q["steps"][i][f][j] = v
                            yield "prog", q


def run(prog, known):
    return W(prog, known).run()
