"""C19 how a value is classified never depends on what was processed before."""

import array
import collections
import collections.abc
import datetime
import decimal
import enum
import fractions
import gc
import json
import re
import types
import unittest.mock
import weakref

import numpy

from .. import boot, fs, ops, runner
from .. import values as V
from ..fs import FSX
from ..world import RES, JSONRes, Stats, Violation

ID = "C19"
LEVEL = "exploration"
QUICK = (80, 60)
THOROUGH = (2000, 120)
CHUNK_TIMEOUT = 600
RULE = ("One run = a forked pristine process feeding a seeded ordering of 10-60 probes (value "
        "factory x entry point x family, plus floods of dynamic types and garbage collections) "
        "through validators, conversion and merging; the outcome of every probe (exception type or "
        "stored content) must equal its outcome as the only probe of a pristine process; "
        "distinct = CRC of the ordering.")
ASSUME = ["a process forked after importing the library and before using it stands for a fresh "
          "interpreter"]


# -- the pool ------------------------------------------------------------------
class UMap(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class USeq(collections.abc.Sequence):
    def __init__(self, x):
        self.x = x

    def __getitem__(self, i):
        return self.x[i]

    def __len__(self):
        return len(self.x)


class Both(UMap):
    """Mapping and Sequence."""


collections.abc.Sequence.register(Both)


class Virt:
    """A virtual mapping."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def values(self):
        return self.d.values()


collections.abc.Mapping.register(Virt)


class DuckMap:
    """Like a mapping, but not one."""

    def __init__(self, d):
        self.d = d

    __getitem__, __iter__, __len__ = Virt.__getitem__, Virt.__iter__, Virt.__len__
    keys, items, values = Virt.keys, Virt.items, Virt.values


class Liar:
    """Claims another class, per instance."""

    def __init__(self, v):
        object.__setattr__(self, "v", v)

    @property
    def __class__(self):
        return type(self.v)

    def __getitem__(self, k):
        return self.v[k]

    def __iter__(self):
        return iter(self.v)

    def __len__(self):
        return len(self.v)

    def items(self):
        return self.v.items()

    def keys(self):
        return self.v.keys()


class DictSub(dict):
    pass


class ListSub(list):
    pass


class StrSub(str):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class TupSub(tuple):
    pass


class StrSeq(str, collections.abc.Sequence):
    pass


class DictSeq(dict):
    """A dict that is also registered as a sequence."""


collections.abc.Sequence.register(DictSeq)


class NDSub(numpy.ndarray):
    pass


class E(enum.Enum):
    A = 1


class IE(enum.IntEnum):
    A = 1


class SE(str, enum.Enum):
    A = "a"


class Tag:
    """A common base of classes of every category."""


class TagD(Tag, dict):
    pass


class TagL(Tag, list):
    pass


class TagS(Tag, str):
    pass


class TagI(Tag, int):
    pass


class TagM(Tag, UMap):
    pass


class TagSet(Tag, set):
    pass


class TagND(Tag, numpy.ndarray):
    pass


class Falsy(UMap):
    """A mapping that is never true."""

    def __bool__(self):
        return False


NT = collections.namedtuple("NT", "a b")
KEEP = []  # referents of proxies


def proxy(v):
    KEEP.append(v)
    return weakref.proxy(v)


class PD(dict):
    pass


class PL(list):
    pass


class PS(set):
    pass


def dyn(base, *args):
    """An instance of a class created for it, always of the same name."""
    return type("Dyn", (base,), {"__module__": "dyn"})(*args)


def plain_obj():
    return type("Dyn", (), {"__module__": "dyn"})()


def nd(v, sub=None, dtype=None):
    a = numpy.array(v, dtype=dtype)
    return a.view(sub) if sub else a


def objarr(items):
    a = numpy.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        a[i] = x
    return a


def synced(kind, data):
    j = boot.families()["json"]
    o = j[kind == "l"](filename=FSX.root + f"src{len(KEEP)}.json")
    KEEP.append(o)
    o.reset(data)
    return o


D, L = {"a": 1, "b": [1, {"c": None}]}, [1, {"a": [2]}, "x"]
POOL = {
    "none": lambda: None, "true": lambda: True, "one": lambda: 1, "onef": lambda: 1.0,
    "str": lambda: "abc", "empty": lambda: "", "dict": lambda: V.dc(D), "list": lambda: V.dc(L),
    "tuple": lambda: (1, {"a": (2,)}), "edict": dict, "elist": list,
    "dictsub": lambda: DictSub(V.dc(D)), "listsub": lambda: ListSub(V.dc(L)),
    "strsub": lambda: StrSub("q"), "intsub": lambda: IntSub(7), "floatsub": lambda: FloatSub(1.5),
    "tupsub": lambda: TupSub((1, 2)), "strseq": lambda: StrSeq("ss"),
    "dictseq": lambda: DictSeq(a=1), "namedtuple": lambda: NT(1, [2]),
    "odict": lambda: collections.OrderedDict(D), "chainmap": lambda: collections.ChainMap({"a": 1}),
    "counter": lambda: collections.Counter("aab"), "ddict": lambda: collections.defaultdict(list, D),
    "userdict": lambda: collections.UserDict(D), "userlist": lambda: collections.UserList(L),
    "userstring": lambda: collections.UserString("us"), "deque": lambda: collections.deque(L),
    "range": lambda: range(3), "bytes": lambda: b"ab", "bytearray": lambda: bytearray(b"ab"),
    "memoryview": lambda: memoryview(b"ab"), "array": lambda: array.array("i", [1, 2]),
    "set": lambda: {1}, "frozenset": lambda: frozenset([1]), "complex": lambda: 1j,
    "object": object, "type": lambda: dict, "func": lambda: len, "gen": lambda: (x for x in [1]),
    "iter": lambda: iter([1]), "dictkeys": lambda: {"a": 1}.keys(),
    "decimal": lambda: decimal.Decimal(1), "fraction": lambda: fractions.Fraction(1, 2),
    "datetime": lambda: datetime.date(2020, 1, 1), "ellipsis": lambda: ...,
    "mproxy": lambda: types.MappingProxyType({"a": 1}), "ns": lambda: types.SimpleNamespace(a=1),
    "enum": lambda: E.A, "intenum": lambda: IE.A, "strenum": lambda: SE.A,
    "umap": lambda: UMap(V.dc(D)), "useq": lambda: USeq(V.dc(L)), "both": lambda: Both({"a": 1}),
    "virt": lambda: Virt({"a": 1}), "duck": lambda: DuckMap({"a": 1}),
    "liar_d": lambda: Liar({"a": 1}), "liar_l": lambda: Liar([1]), "liar_s": lambda: Liar({1}),
    "liar_i": lambda: Liar(3), "mock_d": lambda: unittest.mock.NonCallableMock(spec=dict),
    "mock_l": lambda: unittest.mock.NonCallableMock(spec=list),
    "proxy_d": lambda: proxy(PD(a=1)), "proxy_l": lambda: proxy(PL([1])),
    "proxy_s": lambda: proxy(PS([1])),
    "dyn_map": lambda: dyn(UMap, {"a": 1}), "dyn_seq": lambda: dyn(USeq, [1]),
    "dyn_dict": lambda: dyn(dict, {"a": 1}), "dyn_list": lambda: dyn(list, [1]),
    "dyn_str": lambda: dyn(str, "d"), "dyn_int": lambda: dyn(int, 4), "dyn_obj": plain_obj,
    "dyn_set": lambda: dyn(set, [1]),
    "np0": lambda: nd(3), "np1": lambda: nd([1, 2]), "np2": lambda: nd([[1], [2]]),
    "npe": lambda: nd([]), "np0f": lambda: nd(1.5), "np0c": lambda: nd(1j), "np1c": lambda: nd([1j]),
    "np0b": lambda: nd(True), "np0s": lambda: nd("s"), "np1s": lambda: nd(["s"]),
    "npi": lambda: numpy.int32(3), "npf": lambda: numpy.float32(1.5),
    "npf64": lambda: numpy.float64(1.5), "npb": lambda: numpy.bool_(True),
    "npld": lambda: numpy.longdouble(1), "npc": lambda: numpy.complex64(1j),
    "npstr": lambda: numpy.str_("ns"), "npdt": lambda: numpy.datetime64("2020"),
    "np0dt": lambda: nd("2020", None, "datetime64[D]"), "npld0": lambda: nd(1, None, "longdouble"),
    "ndsub0": lambda: nd(3, NDSub), "ndsub1": lambda: nd([1, 2], NDSub),
    "ndsubc": lambda: nd([1j], NDSub), "matrix": lambda: nd([[1, 2]]).view(numpy.matrix),
    "masked": lambda: numpy.ma.masked_array([1, 2], [0, 1]), "masked0": lambda: numpy.ma.masked_array(1),
    "npobj": lambda: objarr([{"a": 1}, 2]), "npobjbad": lambda: objarr([{1}, 2]),
    "npobj0": lambda: nd({"a": 1}, None, object), "npobj0bad": lambda: nd({1}, None, object),
    "npvoid": lambda: nd([(1, 2.0)], None, [("a", "i4"), ("b", "f4")])[0],
    "recarray": lambda: nd([(1, 2.0)], None, [("a", "i4"), ("b", "f4")]).view(numpy.recarray),
    "tag": Tag, "tag_d": lambda: TagD(a=1), "tag_l": lambda: TagL([1]), "tag_s": lambda: TagS("t"),
    "tag_i": lambda: TagI(5), "tag_m": lambda: TagM({"a": 1}), "tag_set": lambda: TagSet([1]),
    "tag_nd": lambda: nd([1, 2], TagND), "falsy": lambda: Falsy({"a": [1]}),
    "zero": lambda: 0, "false": lambda: False, "zerof": lambda: 0.0, "str1": lambda: "1",
    "tup_1": lambda: (1,), "tup_t": lambda: (True,), "tup_f": lambda: (1.0,),
    "list_1": lambda: [1], "list_t": lambda: [True], "dict_1": lambda: {"a": 1},
    "dict_t": lambda: {"a": True}, "list_set": lambda: [{1}], "dict_set": lambda: {"a": {1}},
    "tup_set": lambda: ({1},), "tup_dot": lambda: ({"a.b": 1},), "dict_none": lambda: {None: 1},
    "badkey": lambda: {1: 2}, "dotkey": lambda: {"a.b": 1}, "nested_bad": lambda: [{"a": {1}}],
    "nested_np": lambda: {"a": nd([1, 2]), "b": [nd(2), numpy.int8(1)]},
    "nested_np0": lambda: [nd(1), nd([1])], "umap_bad": lambda: UMap({1: 2}),
    "umap_dot": lambda: UMap({"a.b": 1}), "useq_bad": lambda: USeq([{1}]),
    "sdict": lambda: synced("d", {"a": [1]}), "slist": lambda: synced("l", [{"a": 1}]),
    "schild": lambda: synced("d", {"a": [1, {"b": 2}]})["a"],
}
FAMS = ["json_attr", "bjson", "zarr", "mongo"]


def norm(v, depth=0):
    """A description that can be compared between processes."""
    if ops.is_synced(v):
        return "synced:" + norm(v())
    if type(v) is dict:
        return "{" + ",".join(f"{type(k).__name__}:{k!r}={norm(x)}" for k, x in v.items()) + "}"
    if type(v) in (list, tuple):
        return type(v).__name__ + "[" + ",".join(map(norm, v)) + "]"
    return type(v).__name__ + ":" + re.sub(r"0x[0-9a-f]+", "0x", repr(v)[:200])


class Env:
    """Fresh collections for every probe."""

    def __init__(self, dir_):
        self.dir = dir_
        self.cfg = {}
        self.n = 0

    def make(self, fam, kind, data=None):
        self.n += 1
        R = JSONRes if fam in boot.JSON_FAMS else RES[fam]
        self.r = R(self, self.n)
        if data is not None:
            self.r.put(data)
        return self.r.make(boot.families()[fam][kind == "l"])


def stored(env, o):
    return norm(o()) + " / " + norm(env.r.raw())


def e_setitem(env, fam, v):
    o = env.make(fam, "d")
    o["k"] = v
    return stored(env, o)


def e_append(env, fam, v):
    o = env.make(fam, "l")
    o.append(v)
    return stored(env, o)


def e_nested(env, fam, v):
    o = env.make(fam, "d")
    o["k"] = [{"n": v}]
    return stored(env, o)


def e_dreset(env, fam, v):
    o = env.make(fam, "d", {"a": {"z": 1}, "c": 3})
    o.reset(v)
    return stored(env, o)


def e_lreset(env, fam, v):
    o = env.make(fam, "l", [[1], {"z": 1}, 3])
    o.reset(v)
    return stored(env, o)


def e_update(env, fam, v):
    o = env.make(fam, "d", {"a": {"z": 1}})
    o.update(v)
    return stored(env, o)


def e_extend(env, fam, v):
    o = env.make(fam, "l", [0])
    o.extend(v)
    return stored(env, o)


def e_iadd(env, fam, v):
    o = env.make(fam, "l", [0])
    o += v
    return stored(env, o)


def e_setslice(env, fam, v):
    o = env.make(fam, "l", [0, 1, 2])
    o[1:] = v
    return stored(env, o)


def e_merge_d(env, fam, v):
    o = env.make(fam, "d", {"k": {"z": 1}})
    o["k"]
    o.reset({"k": v})
    return stored(env, o)


def e_merge_l(env, fam, v):
    o = env.make(fam, "d", {"k": [5, {"q": 1}]})
    o["k"]
    o.update({"k": v})
    return stored(env, o)


def e_merge_ll(env, fam, v):
    o = env.make(fam, "l", [{"z": 1}, [5]])
    o[0]
    o.reset([v, v])
    return stored(env, o)


def e_setdefault(env, fam, v):
    o = env.make(fam, "d")
    return norm(o.setdefault("k", v)) + stored(env, o)


def e_insert(env, fam, v):
    o = env.make(fam, "l", [0])
    o.insert(0, v)
    return stored(env, o)


def e_key(env, fam, v):
    o = env.make(fam, "d")
    o[v] = 1
    return stored(env, o)


def e_ctor(env, fam, v):
    env.make(fam, "d")
    o = env.r.make(boot.families()[fam][0], data={"k": v})
    return norm(o())


def e_eq(env, fam, v):
    o = env.make(fam, "l", [1, {"a": [2]}, "x"])
    d = env.make(fam, "d", {"a": 1})
    return norm([bool(o == v), bool(d == v), bool(v == d)])


def e_search(env, fam, v):
    o = env.make(fam, "l", [1, {"a": 1}, [1, 2], "abc"])
    return norm([v in o, o.count(v)])


def e_lt(env, fam, v):
    o = env.make(fam, "l", [1, 5])
    return norm(bool(o < v))


def e_base(env, fam, v):
    c = boot.families()[fam]
    return norm([c[0].is_base_type(v), c[1].is_base_type(v)])


def e_encode(env, fam, v):
    from synced_collections.utils import SyncedCollectionJSONEncoder

    return json.dumps(v, cls=SyncedCollectionJSONEncoder)


def validator(name):
    def f(env, fam, v):
        from synced_collections import validators
        from synced_collections.backends import collection_json

        g = getattr(validators, name, None) or getattr(collection_json, name)
        return norm(g(v))
    return f


ENTRIES = {
    "setitem": e_setitem, "append": e_append, "nested": e_nested, "dreset": e_dreset,
    "lreset": e_lreset, "update": e_update, "extend": e_extend, "iadd": e_iadd,
    "setslice": e_setslice, "merge_d": e_merge_d, "merge_l": e_merge_l, "merge_ll": e_merge_ll,
    "setdefault": e_setdefault, "insert": e_insert, "key": e_key, "ctor": e_ctor, "eq": e_eq,
    "search": e_search, "lt": e_lt, "is_base_type": e_base, "encode": e_encode,
    "v:json": validator("json_format_validator"), "v:dot": validator("no_dot_in_key"),
    "v:str": validator("require_string_key"), "v:attr": validator("json_attr_dict_validator"),
}
NOFAM = {"encode", "v:json", "v:dot", "v:str", "v:attr"}
REACH = ["entry:" + e for e in ENTRIES] + ["accepted", "rejected", "flood", "gc", "same_type_before"]


def probe(env, s):
    e, v, fam = s
    try:
        out = ENTRIES[e](env, fam, POOL[v]())
        return ["ok", out]
    except RecursionError:
        return ["exc", "RecursionError"]
    except Exception as x:
        return ["exc", type(x).__name__]


BASE = {}


def in_child(fn):
    """Run fn(env) in a process forked from this pristine one."""
    d = fs.new_run_dir()

    def go():
        FSX.begin(d)
        FSX.counts = {}
        boot.reseed_uuid(1)
        return fn(Env(d))
    try:
        kind, val = runner.one(go, 100)
    finally:
        fs.drop_run_dir(d)
    if kind != "ok":
        raise RuntimeError(f"probe process: {kind} {val}")
    return val


def baseline(s):
    k = tuple(s)
    if k not in BASE:
        BASE[k] = in_child(lambda env: probe(env, s))
    return BASE[k]


def prepare(nproc):
    """All baselines, before the runs are distributed."""
    todo = [[e, v, f] for e in ENTRIES for v in POOL
            for f in (["json"] if e in NOFAM else FAMS)]
    n = nproc * 4
    errors = []

    def take(i, r):
        if r[0] == "ok":
            BASE.update(r[1])
        else:
            errors.append(r)
    runner.run_jobs([(lambda part=todo[i::n]: {tuple(s): baseline(s) for s in part})
                     for i in range(n)], nproc, 300, take)
    if errors:
        raise RuntimeError(f"baselines: {errors[0]}")


def make(rng, tier):
    # a few values and entries per run, so that the same types meet often
    vals = rng.sample(sorted(POOL), rng.choice([4, 8, 16, 40]))
    if rng.random() < .5:
        vals += rng.choice([["np0", "np1", "np2", "npe", "np0c", "np1c"],
                            ["proxy_d", "proxy_l", "proxy_s"],
                            ["liar_d", "liar_l", "liar_s", "liar_i"],
                            ["dyn_map", "dyn_seq", "dyn_dict", "dyn_list", "dyn_str", "dyn_obj",
                             "dyn_int", "dyn_set"],
                            ["ndsub0", "ndsub1", "ndsubc", "matrix", "masked", "masked0"],
                            ["one", "true", "onef", "intenum", "intsub", "npb"],
                            ["both", "dictseq", "umap", "dict"],
                            ["tag", "tag_d", "tag_l", "tag_s", "tag_i", "tag_m", "tag_set",
                             "tag_nd"],
                            ["tup_1", "tup_t", "tup_f", "list_1", "list_t", "dict_1", "dict_t"],
                            ["zero", "false", "zerof", "one", "true", "onef", "str1"],
                            ["list_1", "list_set", "dict_1", "dict_set", "tup_1", "tup_set",
                             "tup_dot", "dotkey", "badkey", "dict_none"],
                            ["str", "strsub", "strseq", "useq", "userstring", "npstr"]])
    ents = rng.sample(sorted(ENTRIES), rng.choice([3, 6, len(ENTRIES)]))
    fams = rng.sample(FAMS, rng.choice([1, 2]))
    steps = []
    for _ in range(rng.choice([10, 25, 60])):
        r = rng.random()
        if r < .02:
            steps.append({"p": "flood", "n": rng.choice([50, 300]), "w": rng.randrange(4)})
        elif r < .05:
            steps.append({"p": "gc"})
        else:
            e = rng.choice(ents)
            steps.append({"p": [e, rng.choice(vals), "json" if e in NOFAM else rng.choice(fams)]})
    return {"prop": ID, "cfg": {}, "init": [], "steps": steps}


def flood(env, s):
    """Many values of short-lived types pass through the library."""
    base, arg = [(dict, {"a": 1}), (list, [1]), (str, "x"), (int, 3)][s["w"]]
    o = env.make("json", "d")
    for _ in range(s["n"]):
        o._validate({"k": dyn(base, arg)})
    o["k"] = dyn(base, arg)


def history(env, steps):
    out = []
    for s in steps:
        if s["p"] == "flood":
            flood(env, s)
        elif s["p"] == "gc":
            gc.collect()
        else:
            out.append(probe(env, s["p"]))
    return out, dict(FSX.counts)


def run(prog, known):
    st = Stats()
    steps = prog["steps"]
    probes = [s["p"] for s in steps if isinstance(s["p"], list)]
    exp = [baseline(p) for p in probes]
    got, counts = in_child(lambda env: history(env, steps))
    for k, n in counts.items():
        st.inc("io:" + k, n)
    for s in steps:
        if s["p"] in ("flood", "gc"):
            st.inc(s["p"])
    seen = {}
    for i, (p, a, b) in enumerate(zip(probes, exp, got)):
        st.inc("entry:" + p[0])
        st.inc("accepted" if b[0] == "ok" else "rejected")
        if p[1] in seen:
            st.inc("same_type_before")
        seen[p[1]] = 1
        st.nontrivial += 1
        st.mix(p)
        if a != b:
            raise Violation("history", f"{p[0]} of {p[1]} ({p[2]}): after {i} other probes "
                            f"{V.short(b, 160)}, in a fresh process {V.short(a, 160)}", i)
    return st


