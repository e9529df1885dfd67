"""C11 forbidden data never gets in."""

import collections
import datetime
import decimal

import numpy

from .. import boot, ops
from .. import values as V
from ..free import FreeWorld, gen_common, gen_ctx
from ..world import MISSING

ID = "C11"
LEVEL = "exploration"
QUICK = (160, 120)
THOROUGH = (4000, 150)
RULE = ("One run = one seeded history of ordinary operations, buffered contexts and 3-8 attempts to "
        "insert forbidden data: entry point x target position (root, nested dict, nested list) x "
        "kind of the invalid item x wrapping of the item to depth 3, for every class; distinct = "
        "CRC of operations, attempts and outcomes.")
BAD_KEYS = {"int": 7771, "float": 77.5, "none": None, "bool": True, "bytes": b"bk",
            "tuple": ("t", 7771), "frozenset": frozenset([7771])}
DOT_KEYS = ["a.b", ".", "a.", ".zz", "x.y.z"]
BAD_VALUES = {
    "set": lambda: {7771}, "frozenset": lambda: frozenset([7771]), "complex": lambda: 7771j,
    "object": object, "type": lambda: int, "function": lambda: len,
    "ellipsis": lambda: Ellipsis, "datetime": lambda: datetime.datetime(2020, 1, 1),
    "decimal": lambda: decimal.Decimal("7.771"), "generator": lambda: (x for x in [7771]),
    "dictview": lambda: {"kk": 1}.keys(), "iterator": lambda: iter([7771]),
    "npcomplex": lambda: numpy.complex128(7771j), "nparrcomplex": lambda: numpy.array([7771j]),
    "nplongdouble": lambda: numpy.longdouble(7), "npdatetime": lambda: numpy.datetime64("2020"),
    "exception": lambda: ValueError("x"), "slice": lambda: slice(0, 1),
    "np0dobject": lambda: numpy.array({7771}, dtype=object),
    "np0ddatetime": lambda: numpy.array(numpy.datetime64("2020-01-01")),
    "npobject": lambda: numpy.array([{7771}, 1], dtype=object),
}
MARKS = {"7771", "77.5", "null", "true", "True", "None", "bk"}
WRAPS = ["dict", "list", "dict", "list", "tuple", "userdict", "userlist", "nparr", "odict"]
D_ENTRY = ["setitem", "setitem", "setdefault", "update_map", "update_pairs", "update_gen",
           "update_kw", "update_mapkw", "reset", "setattr", "ctor", "setdefault_get"]
L_ENTRY = ["append", "insert", "extend", "extend_gen", "iadd", "setitem", "setslice",
           "setslice_ext", "reset", "ctor", "iadd_gen"]
SINGLE = {"setitem", "setdefault", "setattr", "append", "insert"}
REACH = [f"entry:d:{e}" for e in D_ENTRY if e != "setdefault_get"] + \
    [f"entry:l:{e}" for e in L_ENTRY] + [f"kind:{k}" for k in BAD_VALUES] + \
    [f"key:{k}" for k in BAD_KEYS] + ["key:dot", "synced_source", "nested_target", "buffered_try",
                                      "missing_resource"]
ASSUME = ["NaN and infinities are treated as the library documents them (accepted), see DESIGN.md",
          "bytes, ranges and other non-str sequences count as sequences",
          "in-memory content is observed through the public interface"]


def make(rng, tier):
    fam = rng.choice(boot.ALL_FAMS)
    cfg, init = gen_common(rng, fam, 1, rng.choice([[0], [0, 0]]), odd=0)
    attr = fam.endswith("_attr")
    g = ops.Gen(rng, huge=False, odd=0, depth=2, wrong=0)
    steps = []
    maxnav = rng.choice([0, 1, 2, 3])
    for _ in range(rng.choice([3, 5, 8])):
        r = rng.random()
        if r < .25:
            steps.append({"s": "op", "t": rng.randrange(2),
                          "nav": [rng.randrange(5) for _ in range(rng.randint(0, 2))],
                          "d": g.op("d", ["setitem", "delitem", "update", "pop"]),
                          "l": g.op("l", ["append", "setitem", "delitem", "pop", "insert"])})
        elif r < .35 and fam in boot.BUF_FAMS:
            steps.append(gen_ctx(rng) if rng.random() < .65 else {"s": "exit"})
        s = {"s": "try", "t": rng.randrange(2),
             "nav": [rng.randrange(5) for _ in range(rng.randint(0, maxnav))],
             "d": rng.choice(D_ENTRY), "l": rng.choice(L_ENTRY),
             "w": [[rng.choice(WRAPS), rng.randrange(3)] for _ in range(rng.randint(0, 3))],
             "i": rng.randrange(6)}
        r = rng.random()
        if attr and r < .3:
            s["b"] = ["dot", rng.choice(DOT_KEYS)]
            if rng.random() < .25:
                s["src"] = rng.randrange(4)
        elif r < .6:
            s["b"] = ["key", rng.choice(sorted(BAD_KEYS))]
        else:
            s["b"] = ["value", rng.choice(sorted(BAD_VALUES))]
        steps.append(s)
    return {"prop": ID, "cfg": cfg, "init": init, "steps": steps}


def wrap(v, ws):
    for w, pos in ws:
        sib = [{"s": 1}, 2, "s3"]
        if w in ("list", "tuple", "userlist", "nparr"):
            items = sib[:pos] + [v] + sib[pos:2]
            if w == "tuple":
                v = tuple(items)
            elif w == "userlist":
                v = collections.UserList(items)
            elif w == "nparr":
                a = numpy.empty(len(items), dtype=object)
                for i, x in enumerate(items):
                    a[i] = x
                v = a
            else:
                v = items
        else:
            d = {}
            for j in range(pos):
                d[f"s{j}"] = sib[j]
            d["w"] = v
            if pos < 2:
                d["t"] = [1]
            if w == "userdict":
                v = collections.UserDict(d)
            elif w == "odict":
                v = collections.OrderedDict(d)
            else:
                v = d
    return v


class W(FreeWorld):
    def s_try(self, s):
        o, path, live, kind, before = self.node(s["t"], s["nav"])
        e = s[kind]
        attr = self.fam.endswith("_attr")
        if e == "setattr" and not attr:
            e = "setitem"
        bk, bn = s["b"]
        # the invalid item and, where the entry point takes a key, a bad key
        key = "nk9"
        if bk == "value":
            v = wrap(BAD_VALUES[bn](), s["w"])
            self.st.inc(f"kind:{bn}")
        else:
            badkey = bn if bk == "dot" else BAD_KEYS[bn]
            self.st.inc("key:dot" if bk == "dot" else f"key:{bn}")
            if kind == "d" and s["i"] % 3 == 0:
                key, v = badkey, 1  # directly at the entry point
            elif "src" in s:
                v = self.source(badkey, s["src"])
                if v is None:
                    return
                v = wrap(v, [x for x in s["w"] if x[0] != "nparr"])
                self.st.inc("synced_source")
            else:
                v = wrap({"s": 0, badkey: 1}, s["w"])
        raw0 = self.res[o.res].raw()
        sig0 = self.res[o.res].sig()
        f = self.entry(o, live, kind, e, key, v, s["i"], before, path)
        if f is None:
            return
        where = f"{type(live).__name__} at {list(path)} {e} with {s['b']} wrapped in " \
                f"{[w for w, _ in s['w']]}"
        got = ops.outcome(f)
        self.st.inc("attempts")
        self.st.inc(f"entry:{kind}:{e}")
        self.st.nontrivial += 1
        if path:
            self.st.inc("nested_target")
        if self.cms:
            self.st.inc("buffered_try")
        if raw0 is MISSING:
            self.st.inc("missing_resource")
        self.st.mix(self.fam, kind, e, bk, bn, len(path), got[0],
                    type(got[1]).__name__ if got[0] == "exc" else "")
        if got[0] == "ok":
            self.violate("accepted", f"{where}: accepted")
        elif not isinstance(got[1], (TypeError, ValueError)):
            self.violate("exception", f"{where}: raised {type(got[1]).__name__} "
                         f"({str(got[1])[:100]}), not a TypeError or ValueError")
        after = o.live()
        raw1 = self.res[o.res].raw()
        self.clean(after, f"{where}: memory")
        if raw1 is not MISSING:
            self.clean(raw1, f"{where}: backend")
        if e in SINGLE or e == "ctor":
            if not V.jeq(before, after):
                self.violate("changed", f"{where}: rejected, but the content changed from "
                             f"{V.short(before)} to {V.short(after)}")
            same = raw0 is raw1 if MISSING in (raw0, raw1) else V.jeq(raw0, raw1)
            if not same and not self.cms:
                self.violate("changed", f"{where}: rejected, but the resource changed from "
                             f"{V.short(raw0)} to {V.short(raw1)}")
        del sig0

    def source(self, badkey, how):
        """A synced collection of another family that may hold dotted keys."""
        j = boot.families()["json"]
        if how % 2:
            src = j[0](filename=self.dir + "src.json")
            src.reset({"p": {badkey: 1}, "q": [{badkey: 2}]})
            return [src, src["p"], src["q"], src["q"][0]][how]
        src = j[1](filename=self.dir + "srcl.json")
        src.reset([{badkey: 1}, [{badkey: 2}]])
        return [src, src[0], src[1], src[1][0]][how]

    def entry(self, o, live, kind, e, key, v, i, content, path):
        node = V.get_path(content, path)
        if kind == "d":
            if e == "setitem":
                return lambda: live.__setitem__(key, v)
            if e in ("setdefault", "setdefault_get"):
                if key in node:
                    return None
                return lambda: live.setdefault(key, v)
            if e == "update_map":
                return lambda: live.update({"ok1": 1, key: v} if i % 2 else {key: v})
            if e == "update_pairs":
                return lambda: live.update([("ok1", 1), (key, v)] if i % 2 else [(key, v)])
            if e == "update_gen":
                return lambda: live.update(p for p in [("ok1", 1), (key, v)])
            if e == "update_kw":
                return (lambda: live.update(**{key: v})) if isinstance(key, str) else None
            if e == "update_mapkw":
                return lambda: live.update({key: v}, ok2=2)
            if e == "reset":
                return lambda: live.reset({"ok1": [1], key: v} if i % 2 else {key: v})
            if e == "setattr":
                return (lambda: setattr(live, key, v)) if isinstance(key, str) else None
            if e == "ctor":
                if self.kinds[o.res] != "d":
                    return None
                return lambda: self.res[o.res].make(self.dcls, data={"ok1": 1, key: v})
        else:
            n = len(node)
            if e == "append":
                return lambda: live.append(v)
            if e == "insert":
                return lambda: live.insert(i - 2, v)
            if e == "extend":
                return lambda: live.extend([1, v] if i % 2 else [v])
            if e == "extend_gen":
                return lambda: live.extend(x for x in [v, 1])
            if e == "iadd":
                return lambda: live.__iadd__([v] if i % 2 else (2, v))
            if e == "iadd_gen":
                return lambda: live.__iadd__(x for x in [1, v])
            if e == "setitem":
                return (lambda: live.__setitem__(i % n, v)) if n else None
            if e == "setslice":
                return lambda: live.__setitem__(slice(i % 2, 1 + i % 3), [v] if i % 2 else [1, v])
            if e == "setslice_ext":
                k = len(range(n)[::2])
                return (lambda: live.__setitem__(slice(None, None, 2), [1] * (k - 1) + [v])) \
                    if k else None
            if e == "reset":
                return lambda: live.reset([1, v] if i % 2 else [v])
            if e == "ctor":
                if self.kinds[o.res] != "l":
                    return None
                return lambda: self.res[o.res].make(self.lcls, data=[1, v])
        raise AssertionError(e)

    def clean(self, v, where):
        """Walk content for anything forbidden."""
        attr = self.fam.endswith("_attr")
        if isinstance(v, dict):
            for k, x in v.items():
                if type(k) is not str:
                    self.violate("stored", f"{where} holds the key {k!r}")
                elif k in MARKS or k.startswith("("):
                    self.violate("stored", f"{where} holds a converted form of a forbidden key: "
                                 f"{k!r}")
                elif attr and "." in k:
                    self.violate("stored", f"{where} holds the key {k!r} with a dot")
                self.clean(x, where)
        elif isinstance(v, list):
            for x in v:
                self.clean(x, where)
        elif v is not None and not isinstance(v, (str, int, float, bool)):
            self.violate("stored", f"{where} holds {v!r} of type {type(v).__name__}")
        elif v == 7771 or v == 7.771:
            self.violate("stored", f"{where} holds an element of a forbidden value: {v!r}")

    def after_exit(self):
        for i in range(len(self.res)):
            r = self.res[i].raw()
            if r is not MISSING:
                self.clean(r, "backend after leaving the context")


def run(prog, known):
    return W(prog, known).run()
