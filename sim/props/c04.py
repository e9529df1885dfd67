"""C04 writes through any handle never clobber changes made via other handles."""

from .. import boot, ops
from .. import values as V
from ..seq import SeqWorld
from ..world import MISSING, descr
from . import _seqgen

ID = "C04"
LEVEL = "exploration"
QUICK = (320, 140)
THOROUGH = (4000, 120)
RULE = ("One run = one seeded sequential history alternating between 2-4 objects on 1-2 "
        "resources and child handles retained from each of them, with transient I/O faults in a "
        "part of the runs; compared after every operation with one shared plain structure; "
        "distinct = CRC of operations, outcomes and contents.")
REACH = ["ops_via_retained_handle", "stale_handle_mutation", "handle_switch", "nested_mutations"]
ASSUME = ["Redis/MongoDB/Zarr stores are in-memory stand-ins",
          "a missing resource counts as empty",
          "MongoDB runs use integers within 64 bits (BSON limit)"]


def make(rng, tier):
    return _seqgen.make(rng, mut=rng.choice([0.6, 0.8, 0.9]), outside=rng.choice([0, 0.05]),
                        newobj=0.05, restart=0, hold=rng.choice([0.15, 0.25]), faulty=0.2,
                        nres=rng.choice([1, 1, 2]), objs=[2, 2, 3, 4],
                        objarg=rng.choice([0, 0.1]), lens=(5, 9, 14, 22))


class W(SeqWorld):
    max_handles = 8

    def setup(self):
        super().setup()
        self.last = None

    def judge(self, i, h, path, kind, op, args, mut, fired, before, new, raw, exp, got, where,
              sig, node0):
        who = (h.obj.idx, h.path)
        if self.last is not None and self.last != who:
            self.st.inc("handle_switch")
            if mut and h.path:
                self.st.inc("stale_handle_mutation")
        self.last = who
        if fired and got[0] == "exc":
            return
        if exp[0] != got[0]:
            self.violate("outcome", f"{where}: {self.fmt(exp, got)}")
        if exp[0] == "ok":
            m = self.same_result(kind, op, exp, got)
            if m:
                self.violate("result", f"{where}: {m}")
            if not self.eq_content(i, raw, new):
                self.violate("content", f"{where} left {V.short(raw)} instead of {V.short(new)}")
        else:
            b = self.empty(i) if before is MISSING else before
            if not self.eq_content(i, raw, b):
                self.violate("content-after-error", f"{where} raised {descr(got)} and left "
                             f"{V.short(raw)} instead of {V.short(b)}")


def run(prog, known):
    return W(prog, known).run()
