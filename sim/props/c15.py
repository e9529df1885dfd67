"""C15 buffer size accounting is exact, bounded by capacity and returns to zero."""

import json

from .. import boot, gen, ops
from .. import values as V
from ..buf import BufWorld
from ..fs import FSX
from ..seq import CORRUPT
from ..world import MISSING, descr
from . import _bufgen

ID = "C15"
LEVEL = "exploration"
QUICK = (200, 100)
THOROUGH = (4000, 120)
RULE = ("One run = one seeded history over 1-4 files (1-2 objects each) with nested contexts, "
        "capacities from 0 to larger than everything given to buffer_backend or "
        "set_buffer_capacity, and transient I/O faults at loads and flushes; after every step the "
        "reported size and capacity are compared with a recomputation from the model; distinct = "
        "CRC of steps, outcomes and contents.")
REACH = ["exit_by_exception",
         "size_exact", "size_nonzero", "forced_possible", "capacity_restored", "setcap",
         "zero_checks", "enter:all", "enter:cls", "cap_below_document",
         "exit_with_fault", "cleared_in_buffer"]
ASSUME = ["the encoded size of a file is the length of the class's own encoding (_encode) of its content",
          "shared-memory: a file counts as modified for certain when its buffered content "
          "differs from the file, possibly when a mutator ran on it"]
STUB = ["modification times (simulated clock)", "uuid4"]


def make(rng, tier):
    nres = rng.choice([1, 2, 2, 3, 4])
    fam = rng.choice(boot.BUF_FAMS)
    objs = list(range(nres))
    if rng.random() < 0.35:
        objs.append(rng.randrange(nres))
    if fam.startswith("m"):
        caps = rng.choice([(None,), (None, 0, 1, 2, 3, 1000), (0, 1, 2), (1,)])
        setcap = rng.choice([None, (0, 1, 2, 3, 1000)])
    else:
        caps = rng.choice([(None,), (None, 0, 2, 10, 30, 80, 200, 10**6), (5, 20, 60), (40,)])
        setcap = rng.choice([None, (0, 1, 2, 10, 40, 100, 300, 10**7)])
    kinds = [rng.choice("dl")] * nres if rng.random() < 0.7 else None
    prog = _bufgen.make(rng, fams=[fam], nres=nres, kinds=kinds, objs=objs,
                        ctx=rng.choice([("all", "cls"), ("cls",), ("all",)]), caps=caps,
                        setcap=setcap, penter=rng.choice([0.1, 0.2]),
                        pexit=rng.choice([0.06, 0.15]), faulty=0.2, lens=(6, 10, 16, 24), hold=0.04)
    return prog


class W(BufWorld):
    max_ctx = 4

    def setup(self):
        super().setup()
        n = len(self.res)
        # "in": surely buffered, "maybe": possibly, "out": surely not
        self.where = ["out"] * n
        self.mutated = [False] * n
        self.serial = self.fam.startswith("b")

    # -- the model of the accounting ------------------------------------------
    def nbytes(self, i):
        """Encoded size, in the encoding the class uses."""
        try:
            return len(self.root_cls(i)._encode(self.content(i)))
        except (AttributeError, TypeError):
            return len(json.dumps(self.content(i)).encode())

    def files(self, cls):
        return [i for i in range(len(self.res)) if self.root_cls(i) is cls]

    def touched(self, i, before_size, failed):
        """File i was accessed while buffered."""
        cls = self.root_cls(i)
        cap = self.cap[cls]
        fs = self.files(cls)
        if self.serial:
            size = max(before_size, self.nbytes(i))
            other = sum(self.nbytes(j) for j in fs if j != i and self.where[j] != "out")
            if other + size > cap:
                self.st.inc("forced_possible")
                if size > cap:
                    self.st.inc("cap_below_document")
                for j in fs:
                    if self.where[j] == "in":
                        self.where[j] = "maybe"
                self.where[i] = "maybe"
                return
        if failed:
            if self.where[i] == "out":
                self.where[i] = "maybe"
        else:
            self.where[i] = "in"

    def check(self, what):
        for cls in {self.dcls, self.lcls}:
            fs = self.files(cls)
            if not fs:
                continue
            size, cap = cls.get_current_buffer_size(), cls.get_buffer_capacity()
            if cap != self.cap[cls]:
                self.violate("capacity", f"after {what}: capacity of {cls.__name__} is {cap}, "
                             f"expected {self.cap[cls]}")
            if size:
                self.st.inc("size_nonzero")
            if not any(self.res_buffered(i) for i in fs):
                self.st.inc("zero_checks")
                if size != 0:
                    self.violate("not-zero", f"after {what}: size of {cls.__name__} is {size} "
                                 "with no context active")
                continue
            if size > cap:
                self.violate("over-capacity", f"after {what}: size {size} of {cls.__name__} "
                             f"exceeds the capacity {cap}")
            if self.serial:
                base = sum(self.nbytes(i) for i in fs if self.where[i] == "in")
                sums = {base}
                for i in fs:
                    if self.where[i] == "maybe":
                        sums |= {x + self.nbytes(i) for x in sums}
                if len(sums) == 1:
                    self.st.inc("size_exact")
                if size not in sums:
                    self.violate("size", f"after {what}: size of {cls.__name__} is {size}, "
                                 f"expected {sorted(sums)[:6]} (files "
                                 f"{[(w, self.nbytes(i)) for i, w in enumerate(self.where)]})")
            else:
                must = may = 0
                for i in fs:
                    if self.res_buffered(i) and self.mutated[i]:
                        may += 1
                        raw = self.raw(i)
                        if raw is not MISSING and not self.eq_content(i, raw, self.model[i]):
                            must += 1
                if must == may:
                    self.st.inc("size_exact")
                if not must <= size <= may:
                    self.violate("size", f"after {what}: size of {cls.__name__} is {size}, but "
                                 f"between {must} and {may} buffered files are modified")

    # -- steps -----------------------------------------------------------------
    def forced_all(self, cls):
        """A flush may have dropped or kept any entry."""
        for j in self.files(cls):
            if self.where[j] == "in":
                self.where[j] = "maybe"

    def after_enter(self, s, c, got):
        super().after_enter(s, c, got)
        if c.cls is not None and c.cap is not None:
            self.lowered(c.cls)
        self.check(f"entering a context ({c.kind}, capacity {c.cap})")

    def lowered(self, cls):
        total = sum(self.nbytes(j) for j in self.files(cls) if self.where[j] != "out") \
            if self.serial else sum(self.mutated)
        if total > self.cap[cls]:
            self.st.inc("forced_possible")
            self.forced_all(cls)

    def after_setcap(self, s, cls, got):
        super().after_setcap(s, cls, got)
        self.lowered(cls)
        self.check(f"set_buffer_capacity({s['cap']})")

    def s_hold(self, s):
        h, path, rel = self.pick(s["t"], s["nav"])
        super().s_hold(s)
        if rel and self.buffered(h.obj):
            self.touched(h.obj.res, self.nbytes(h.obj.res), False)
            self.check("retaining a child")

    def exec_op(self, s, h, path, rel, kind, op, args, node):
        i = h.obj.res
        n = self.nbytes(i)
        self.prev = n
        super().exec_op(s, h, path, rel, kind, op, args, node)

    def judge(self, i, h, path, kind, op, args, mut, buf, fired, before, new, exp, got, where,
              node0):
        self.judge_transparent(i, kind, op, fired, exp, got, where, node0)
        if buf:
            self.touched(i, self.prev, got[0] == "exc")
            if mut:
                self.mutated[i] = True
                if op in ("clear", "reset"):
                    self.st.inc("cleared_in_buffer")
            if fired and got[0] == "exc" and self.where[i] != "in":
                self.where[i] = "maybe"
        self.check(where)

    def after_exit(self, s, c, leaving, errs, fired):
        if c.kind == "cls" and c.cap is not None:
            self.st.inc("capacity_restored")
        self.judge_final(leaving, errs, fired, f"leaving the buffered state ({c.kind})")
        for i in leaving:
            self.where[i] = "out"
            self.mutated[i] = False
        if c.kind == "cls" and c.cap is not None:
            self.lowered(c.cls)
        self.check(f"leaving a context ({c.kind}, capacity {c.cap})")


def run(prog, known):
    return W(prog, known).run()
