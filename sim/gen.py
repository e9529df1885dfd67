"""Shared program generation for sequential histories (swarm style)."""

from . import boot, ops
from . import values as V

READ_FAULTS = [(["open_r"], "EIO"), (["read"], "EIO"), (["open_r"], "EMFILE"),
               (["open_r"], "EACCES")]
WRITE_FAULTS = [(["open_w"], "EACCES"), (["open_w"], "EMFILE"), (["write"], "ENOSPC"),
                (["write"], "EIO"), (["close"], "EIO"), (["replace"], "EACCES"),
                (["replace"], "EIO"), (["stat"], "EIO")]
KV_FAULTS = [(["kv_get"], "EIO"), (["kv_set"], "EIO"), (["kv_set"], "EIO")]


def gen_fault(rng, fam, reads=True, writes=True):
    """[kinds, nth, errno name, bytes written before a failing write]"""
    if fam in boot.KV_FAMS:
        pool = [f for f in KV_FAULTS
                if (reads and f[0] == ["kv_get"]) or (writes and f[0] == ["kv_set"])]
        nth = rng.choice([1, 1, 1, 2, 2, 3, 4, 5]) if fam == "zarr" else rng.choice([1, 1, 1, 2])
    else:
        pool = (READ_FAULTS if reads else []) + (WRITE_FAULTS if writes else [])
        nth = rng.choice([1, 1, 1, 1, 2])
    kinds, err = rng.choice(pool)
    return [kinds, nth, err, rng.choice([0, 0, 1, 3, 10])]


class Swarm:
    """Per-run parameters drawn once, so that runs differ in character."""

    def __init__(self, rng, fam, names_d=None, names_l=None, muts=None):
        self.rng = rng
        self.fam = fam
        huge = fam != "mongo"
        self.g = ops.Gen(
            rng,
            huge=huge,
            odd=rng.choice([0, 0, 0.1, 0.3]),
            depth=rng.choice([1, 2, 2, 3, 3, 4]),
            wrong=rng.choice([0, 0.03, 0.1]),
            pcont=rng.choice([0.3, 0.5, 0.7, 0.85]),
        )
        self.d = self._subset(names_d or list(ops.D_OPS))
        self.l = self._subset(names_l or list(ops.L_OPS))
        self.p_sym = rng.choice([0.2, 0.5])
        self.p_keep = rng.choice([0, 0.3, 0.6])
        self.p_dress = rng.choice([0, 0, 0.2])
        self.p_tmp = rng.choice([0, 0, 0.15])
        self.maxnav = rng.choice([0, 1, 2, 3, 4])

    def _subset(self, names):
        if self.rng.random() < 0.5:
            return names
        k = self.rng.randint(max(1, len(names) // 4), len(names))
        s = self.rng.sample(names, k)
        return s

    def nav(self):
        rng = self.rng
        return [rng.randrange(7) for _ in range(rng.randint(0, self.maxnav))]

    def sym(self, kind, op, args):
        """Replace some arguments by references into the current content."""
        rng = self.rng
        if rng.random() > self.p_sym:
            return args
        if kind == "d":
            if op in ("getitem", "delitem", "contains", "get", "pop", "setdefault", "setitem",
                      "getattr", "setattr", "delattr", "iadd_item"):
                args[0] = {"$key": rng.randrange(8)}
            elif op in ("eq", "ne", "req"):
                args[0] = {rng.choice(["$self", "$peer"]): rng.randrange(8)}
        else:
            if op in ("contains", "count", "remove", "index"):
                args[0] = {"$elem": rng.randrange(8)}
            elif op in ("eq", "ne", "req", "lt", "le", "gt", "ge", "rlt", "rge"):
                args[0] = {rng.choice(["$self", "$peer"]): rng.randrange(12)}
            elif op in ("getitem", "delitem", "setitem", "iadd_item") or (op == "pop" and args):
                args[0] = {"$key": rng.randrange(8)}
        return args

    def one(self, kind, names):
        op = self.rng.choice(names)
        return [op, self.sym(kind, op, self.g.args(kind, op))]

    def op_step(self, d=None, l=None, **kw):
        s = {"s": "op", "t": self.rng.randrange(64), "nav": self.nav(),
             "d": self.one("d", d or self.d), "l": self.one("l", l or self.l), **kw}
        if self.rng.random() < self.p_keep:
            s["keep"] = self.rng.randrange(1, 50)
        if self.rng.random() < self.p_dress:
            s["dress"] = self.rng.randrange(1, 1000)
        if self.rng.random() < self.p_tmp:
            s["tmp"] = 1
        return s

    def init(self, kind, p_missing=0.25):
        if self.rng.random() < p_missing:
            return None
        g = self.g
        return V.gen_kind(self.rng, kind, depth=max(2, g.depth), huge=g.huge, odd=g.odd,
                          pcont=max(g.pcont, 0.6))

    def outside_step(self, nres=1, modes=None):
        rng = self.rng
        mode = rng.choice(modes or ["set", "set", "del", "ins", "retype", "root"])
        if mode == "root":
            val = V.gen_kind(rng, rng.choice("dl"), depth=3, huge=self.g.huge, odd=self.g.odd)
        else:
            val = self.g.value()
        return {"s": "outside", "r": rng.randrange(8), "m": [mode, rng.randrange(32),
                rng.randrange(32), val], "style": rng.choice(["replace", "rewrite"]),
                "fmt": rng.randrange(5)}


def cfg(rng, fams, nres=1, kinds=None, thr=0.8, wc=0.3):
    fam = rng.choice(fams)
    return {
        "fam": fam,
        "kinds": kinds or [rng.choice("dl") for _ in range(nres)],
        "thr": rng.random() < thr,
        "wc": rng.random() < wc,
        "uuid": rng.randrange(1 << 30),
    }
