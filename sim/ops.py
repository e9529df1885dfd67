"""Operation catalogue for dict-like and list-like nodes.

`apply(node, op, args)` runs an operation on a synced node or on the plain
built-in it is compared with.  Arguments are plain JSON data.
"""

import ast

from . import values as V

_MISSING = object()


class Ctx:
    """Results that need interpretation by the caller."""


def is_synced(x):
    from synced_collections import SyncedCollection

    return isinstance(x, SyncedCollection)


def plain(x):
    """Convert an operation result to plain data (reads nested handles)."""
    if is_synced(x):
        return x()
    if type(x) is tuple:
        return [plain(v) for v in x]
    if type(x) is list:
        return [plain(v) for v in x]
    if type(x) is dict:
        return {k: plain(v) for k, v in x.items()}
    return x


def sl(a):
    return slice(*a)


# Each entry: name -> (is_mutator, function(node, args, synced))
def _pop(n, a, s):
    if s:
        return n.pop(*a)
    # documented deviation: dict.pop of a missing key returns the default None
    return n.pop(a[0], a[1] if len(a) > 1 else None)


def _update(n, a, s):
    form, x, kw = a
    if form == "map":
        return n.update(x, **kw)
    if form == "pairs":
        return n.update([tuple(p) for p in x], **kw)
    if form == "kw":
        return n.update(**kw)
    if form == "raw":
        return n.update(x)
    return n.update()


def _dreset(n, a, s):
    if s:
        return n.reset(a[0])
    v = a[0]
    if not isinstance(v, dict):
        raise ValueError("reset")
    n.clear()
    n.update(V.dc(v))


def _lreset(n, a, s):
    if s:
        return n.reset(a[0])
    v = a[0]
    if not isinstance(v, list):
        raise ValueError("reset")
    n[:] = V.dc(v)


def _setitem(n, a, s):
    n[a[0]] = a[1]


def _delitem(n, a, s):
    del n[a[0]]


def _setslice(n, a, s):
    n[sl(a[0])] = a[1]


def _delslice(n, a, s):
    del n[sl(a[0])]


def _iadd(n, a, s):
    m = n
    m += a[0]
    assert m is n, "+= must return the same object"


def _iadd_item(n, a, s):
    n[a[0]] += a[1]


def _iter(n, a, s):
    return list(n)


def _by_attr(n, k):
    """Whether the item of the node is available as an attribute."""
    from synced_collections.data_types import AttrDict

    return isinstance(n, AttrDict) and isinstance(k, str) and k.isidentifier() \
        and k[0] != "_" and not hasattr(type(n), k) and k not in n._PROTECTED_KEYS \
        and k not in vars(n)


def _getattr(n, a, s):
    if not _by_attr(n, a[0]):
        return n[a[0]]
    try:
        return getattr(n, a[0])
    except AttributeError as e:
        raise KeyError(a[0]) from e


def _setattr(n, a, s):
    if _by_attr(n, a[0]):
        setattr(n, a[0], a[1])
    else:
        n[a[0]] = a[1]


def _delattr(n, a, s):
    if not _by_attr(n, a[0]):
        del n[a[0]]
        return
    try:
        delattr(n, a[0])
    except AttributeError as e:
        raise KeyError(a[0]) from e


def _cmp(fn):
    return fn


D_OPS = {
    # reads
    "getitem": (False, lambda n, a, s: n[a[0]]),
    "get": (False, lambda n, a, s: n.get(*a)),
    "contains": (False, lambda n, a, s: a[0] in n),
    "len": (False, lambda n, a, s: len(n)),
    "bool": (False, lambda n, a, s: bool(n)),
    "iter": (False, _iter),
    "keys": (False, lambda n, a, s: list(n.keys())),
    "values": (False, lambda n, a, s: list(n.values())),
    "items": (False, lambda n, a, s: [list(t) for t in n.items()]),
    "call": (False, lambda n, a, s: n() if s else n),
    "eq": (False, lambda n, a, s: n == a[0]),
    "ne": (False, lambda n, a, s: n != a[0]),
    "req": (False, lambda n, a, s: a[0] == n),
    "repr": (False, lambda n, a, s: ast.literal_eval(repr(n)) if s else n),
    "str": (False, lambda n, a, s: ast.literal_eval(str(n)) if s else n),
    # mutators
    "setitem": (True, _setitem),
    "delitem": (True, _delitem),
    "pop": (True, _pop),
    "popitem": (True, lambda n, a, s: n.popitem()),
    "clear": (True, lambda n, a, s: n.clear()),
    "update": (True, _update),
    "setdefault": (True, lambda n, a, s: n.setdefault(*a)),
    "reset": (True, _dreset),
    # item operations except for attribute access where the class has it
    "getattr": (False, _getattr),
    "setattr": (True, _setattr),
    "delattr": (True, _delattr),
    "iadd_item": (True, _iadd_item),
}

L_OPS = {
    "getitem": (False, lambda n, a, s: n[a[0]]),
    "getslice": (False, lambda n, a, s: n[sl(a[0])]),
    "contains": (False, lambda n, a, s: a[0] in n),
    "len": (False, lambda n, a, s: len(n)),
    "bool": (False, lambda n, a, s: bool(n)),
    "iter": (False, _iter),
    "reversed": (False, lambda n, a, s: list(reversed(n))),
    "index": (False, lambda n, a, s: n.index(*a)),
    "count": (False, lambda n, a, s: n.count(a[0])),
    "call": (False, lambda n, a, s: n() if s else n),
    "eq": (False, lambda n, a, s: n == a[0]),
    "ne": (False, lambda n, a, s: n != a[0]),
    "req": (False, lambda n, a, s: a[0] == n),
    "lt": (False, lambda n, a, s: n < a[0]),
    "le": (False, lambda n, a, s: n <= a[0]),
    "gt": (False, lambda n, a, s: n > a[0]),
    "ge": (False, lambda n, a, s: n >= a[0]),
    "rlt": (False, lambda n, a, s: a[0] < n),
    "rge": (False, lambda n, a, s: a[0] >= n),
    "repr": (False, lambda n, a, s: ast.literal_eval(repr(n)) if s else n),
    "str": (False, lambda n, a, s: ast.literal_eval(str(n)) if s else n),
    "setitem": (True, _setitem),
    "setslice": (True, _setslice),
    "delitem": (True, _delitem),
    "delslice": (True, _delslice),
    "insert": (True, lambda n, a, s: n.insert(*a)),
    "append": (True, lambda n, a, s: n.append(a[0])),
    "extend": (True, lambda n, a, s: n.extend(a[0])),
    "iadd": (True, _iadd),
    "pop": (True, lambda n, a, s: n.pop(*a)),
    "remove": (True, lambda n, a, s: n.remove(a[0])),
    "clear": (True, lambda n, a, s: n.clear()),
    "reverse": (True, lambda n, a, s: n.reverse()),
    "reset": (True, _lreset),
    "iadd_item": (True, _iadd_item),
}

D_READS = [k for k, v in D_OPS.items() if not v[0]]
D_MUTS = [k for k, v in D_OPS.items() if v[0]]
L_READS = [k for k, v in L_OPS.items() if not v[0]]
L_MUTS = [k for k, v in L_OPS.items() if v[0]]


def table(kind):
    return D_OPS if kind == "d" else L_OPS


def is_mutator(kind, op):
    return table(kind)[op][0]


def apply(node, kind, op, args, synced):
    return table(kind)[op][1](node, args, synced)


def outcome(fn):
    """('ok', value) or ('exc', exception)"""
    try:
        return ("ok", fn())
    except Exception as e:
        return ("exc", e)


# ---------------------------------------------------------------------------
# argument generation
class Gen:
    def __init__(self, rng, huge=True, odd=0.1, depth=3, wrong=0.03, pcont=0.5):
        self.rng = rng
        self.huge = huge
        self.odd = odd
        self.depth = depth
        self.wrong = wrong  # probability of ill-typed arguments
        self.pcont = pcont

    def value(self):
        return V.gen_value(self.rng, self.depth, self.huge, self.odd, self.pcont)

    def key(self):
        return V.gen_key(self.rng, self.odd)

    def dict_(self):
        return V.gen_dict(self.rng, self.depth, self.huge, self.odd, self.pcont)

    def list_(self):
        return V.gen_list(self.rng, self.depth, self.huge, self.odd, self.pcont)

    def idx(self):
        r = self.rng.random()
        if r < 0.5:
            return self.rng.choice([0, 0, 1, -1, 2])
        n = 6 if r < 0.97 else 140
        return self.rng.randint(-n, n)

    def slc(self):
        rng = self.rng

        def e():
            n = 5 if rng.random() < 0.97 else 140
            return None if rng.random() < 0.35 else rng.randint(-n, n)

        step = None
        if rng.random() < 0.35:
            step = rng.choice([-2, -1, 1, 2, 3, 7])
        return [e(), e(), step]

    def args(self, kind, op):
        rng = self.rng
        w = rng.random() < self.wrong
        if kind == "d":
            if op in ("getitem", "contains", "delitem", "getattr", "delattr"):
                return [self.key() if not w else rng.choice([1, None, 2.5, True])]
            if op == "get":
                return [self.key()] if rng.random() < 0.5 else [self.key(), self.value()]
            if op in ("eq", "ne", "req"):
                return [self.dict_() if rng.random() < 0.7 else self.value()]
            if op in ("setitem", "setattr"):
                return [self.key(), self.value()]
            if op == "pop":
                return [self.key()] if rng.random() < 0.6 else [self.key(), self.value()]
            if op == "setdefault":
                return [self.key()] if rng.random() < 0.2 else [self.key(), self.value()]
            if op == "update":
                if w:
                    return ["raw", rng.choice([5, None, [1], ["abc"], "ab", True]), {}]
                r = rng.random()
                kw = {}
                if r < 0.15:
                    return ["none", None, {}]
                if rng.random() < 0.35 or r < 0.3:
                    kw = {rng.choice(["a", "b", "c", "other", "self_", "data"]): self.value()
                          for _ in range(rng.choice([1, 1, 2]))}
                if r < 0.3:
                    return ["kw", None, kw]
                if r < 0.5:
                    return ["pairs", [[self.key(), self.value()]
                                      for _ in range(rng.choice([0, 1, 2, 3]))], kw]
                return ["map", self.dict_(), kw]
            if op == "reset":
                return [self.dict_() if not w else rng.choice([5, None, [1], "ab"])]
            if op == "iadd_item":
                return [self.key(), self.list_() if rng.random() < 0.7 else rng.choice([1, "s"])]
            return []
        if op in ("getitem", "delitem"):
            return [self.idx() if not w else rng.choice(["a", None, 1.0])]
        if op in ("getslice", "delslice"):
            return [self.slc()]
        if op == "setslice":
            return [self.slc(), self.list_() if not w else rng.choice([5, None, "ab", {"k": 1}])]
        if op in ("contains", "count", "remove"):
            return [self.value()]
        if op == "index":
            a = [self.value()]
            if rng.random() < 0.3:
                a.append(rng.randint(-4, 4))
                if rng.random() < 0.5:
                    a.append(rng.randint(-4, 4))
            return a
        if op in ("eq", "ne", "req", "lt", "le", "gt", "ge", "rlt", "rge"):
            if w:
                return [self.value()]
            return [V.gen_list(rng, 2, False, 0, 0.2)]
        if op == "setitem":
            return [self.idx() if not w else rng.choice(["a", None]), self.value()]
        if op == "insert":
            return [self.idx() if not w else "a", self.value()]
        if op == "append":
            return [self.value()]
        if op in ("extend", "iadd"):
            return [self.list_() if not w else rng.choice([5, None, "ab", {"k": 1}])]
        if op == "pop":
            return [] if rng.random() < 0.5 else [self.idx() if not w else "a"]
        if op == "reset":
            return [self.list_() if not w else rng.choice([5, None, {"a": 1}, "ab"])]
        if op == "iadd_item":
            return [self.idx(), self.list_() if rng.random() < 0.7 else rng.choice([1, "s"])]
        return []

    def op(self, kind, names):
        op = self.rng.choice(names)
        return [op, self.args(kind, op)]
