"""JSON values: generation, strict comparison, conversion of results."""

import collections
import copy
import types

MAPPINGS = [collections.OrderedDict, types.MappingProxyType, collections.ChainMap]
KEYS = ["a", "b", "c", "d"]
ODD_KEYS = ["", "x y", "é", "0", "_x", "data", "None", "\U0001f600", "a/b", "q\"\\"]
STRS = ["", "a", "b", "xyz", "é\U0001f600", "\"\\/\b\n\t", " \u0000", "0", "null", "true",
        "x" * 40]
SMALL = [0, 1, 2, 3, -1, 7, 42]
BIG = [2**31, 2**53 + 1, -(2**63), 2**62 + 1]
HUGE = [2**63 - 1, 2**63, 2**64 + 1, -(2**70), 10**40]
LENGTHS = [64, 255, 1024, 4096, 8200, 70000]
WIDTHS = [9, 17, 33, 65, 130]
DEPTHS = [6, 9, 12, 20, 35]
FLOATS = [0.0, 1.0, -1.0, 2.0, 0.1, -1.5, 1e308, 5e-324, 3.141592653589793, 1e22]


def gen_scalar(rng, huge=True):
    r = rng.random()
    if r < 0.12:
        # a few values large enough for chunked or batched processing
        return None if r > 0.004 else rng.choice("xé") * rng.choice(LENGTHS)
    if r < 0.27:
        return rng.random() < 0.5
    if r < 0.55:
        return rng.choice(SMALL)
    if r < 0.60:
        return rng.choice(BIG)
    if r < 0.63:
        return rng.choice(HUGE) if huge else rng.choice(BIG)
    if r < 0.78:
        return rng.choice(FLOATS)
    return rng.choice(STRS)


def gen_key(rng, odd=0.1, nodot=True):
    if rng.random() < odd:
        return rng.choice(ODD_KEYS)
    return rng.choice(KEYS)


def gen_value(rng, depth=3, huge=True, odd=0.1, pcont=0.5):
    if depth <= 0 or rng.random() > pcont:
        return gen_scalar(rng, huge)
    n = rng.choice([0, 1, 1, 2, 2, 3])
    if rng.random() < 0.008:
        return gen_large(rng)
    if rng.random() < 0.5:
        return {gen_key(rng, odd): gen_value(rng, depth - 1, huge, odd, pcont) for _ in range(n)}
    return [gen_value(rng, depth - 1, huge, odd, pcont) for _ in range(n)]


def gen_large(rng, kind=None):
    """Wide or deep data."""
    kind = kind or rng.choice("dl")
    if rng.random() < 0.6:
        n = rng.choice(WIDTHS)
        k = rng.choice([1, 3, n])
        xs = [gen_scalar(rng, False) if i % k else rng.choice([[i], {"a": i}, i])
              for i in range(n)]
        return xs if kind == "l" else {f"k{i}": x for i, x in enumerate(xs)}
    v = gen_scalar(rng, False)
    for _ in range(rng.choice(DEPTHS)):
        v = {rng.choice(KEYS): v} if rng.random() < 0.5 else [v]
    return [v] if kind == "l" else {"a": v}


def gen_dict(rng, depth=3, huge=True, odd=0.1, pcont=0.6):
    n = rng.choice([0, 1, 2, 2, 3, 4])
    if rng.random() < 0.008:
        return gen_large(rng, "d")
    return {gen_key(rng, odd): gen_value(rng, depth - 1, huge, odd, pcont) for _ in range(n)}


def gen_list(rng, depth=3, huge=True, odd=0.1, pcont=0.6):
    n = rng.choice([0, 1, 2, 3, 3, 4])
    if rng.random() < 0.008:
        return gen_large(rng, "l")
    return [gen_value(rng, depth - 1, huge, odd, pcont) for _ in range(n)]


def gen_kind(rng, kind, **kw):
    return gen_dict(rng, **kw) if kind == "d" else gen_list(rng, **kw)


def kind_of(v):
    if isinstance(v, dict):
        return "d"
    if isinstance(v, list):
        return "l"
    return None


def tname(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "str"
    if type(v) is dict:
        return "dict"
    if type(v) is list:
        return "list"
    return "other:" + type(v).__name__


def jeq(a, b):
    """Equal as JSON data, with the same JSON type at every leaf."""
    ta, tb = tname(a), tname(b)
    if ta != tb:
        return False
    if ta == "dict":
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b or not jeq(v, b[k]):
                return False
        return True
    if ta == "list":
        return len(a) == len(b) and all(jeq(x, y) for x, y in zip(a, b))
    if ta.startswith("other"):
        return False
    return a == b


def dress(v, rng):
    """The same JSON data with tuples for lists and other mappings for dicts."""
    if type(v) is list:
        xs = [dress(x, rng) for x in v]
        return tuple(xs) if rng.random() < 0.5 else xs
    if type(v) is dict:
        d = {k: dress(x, rng) for k, x in v.items()}
        return d if rng.random() < 0.5 else rng.choice(MAPPINGS)(d)
    return v


def dc(v):
    return copy.deepcopy(v)


def walk(v, path=()):
    """All container positions of plain data: yields (path, container)."""
    if isinstance(v, dict):
        yield path, v
        for k in v:
            yield from walk(v[k], path + (k,))
    elif isinstance(v, list):
        yield path, v
        for i, x in enumerate(v):
            yield from walk(x, path + (i,))


def get_path(v, path):
    for k in path:
        v = v[k]
    return v


def short(v, n=300):
    try:
        s = repr(v)
    except (ValueError, RecursionError) as e:
        s = f"<{type(v).__name__} without repr: {type(e).__name__}>"
    return s if len(s) <= n else s[:n] + "..."


# --- stability of the generated programs under JSON round trips -----------
def tojson_safe(v):
    return v
