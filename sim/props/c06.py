"""C06 objects on one file share one buffered state."""

from .. import boot
from .. import values as V
from ..buf import BufWorld
from . import _bufgen

ID = "C06"
LEVEL = "exploration"
QUICK = (320, 150)
THOROUGH = (4000, 120)
RULE = ("One run = one seeded history over 2-4 objects on one file (sometimes a second file) in a "
        "common buffered state: backend-wide contexts, or per-object contexts of all objects "
        "entered and exited together in random orders; small capacities in a part of the runs; "
        "distinct = CRC of operations, contexts, outcomes and contents.")
REACH = ["dressed_arguments", "ops_via_dropped_object",
         "exit_by_exception",
         "enter:all", "enter:cls", "read_of_other_objects_write", "outermost_exit",
         "ops_via_retained_handle", "nested_mutations_buffered", "small_capacity"]
ASSUME = ["all objects on a file are in the same buffered state",
          "a missing file counts as empty"]
STUB = ["modification times (simulated clock)", "uuid4"]


def make(rng, tier):
    caps = rng.choice([(None,), (None,), (None, 0, 1, 2, 15, 40, 80)])
    k = rng.choice([2, 2, 2, 3, 4])
    nres = rng.choice([1, 1, 1, 2])
    objs = [0] * k + ([1] * rng.choice([1, 2]) if nres == 2 else [])
    return _bufgen.make(rng, nres=nres, objs=objs, ctx=rng.choice([("all",), ("cls",),
                        ("all", "cls")]), caps=caps, mut=rng.choice([0.4, 0.6]),
                        penter=0.1, pexit=rng.choice([0.06, 0.15]), faulty=0.1, newobj=0.02,
                        hold=0.08, thr=0.85)


class W(BufWorld):
    def setup(self):
        super().setup()
        self.writer = {}

    def after_enter(self, s, c, got):
        super().after_enter(s, c, got)
        if any(self.small):
            self.st.inc("small_capacity")

    def judge(self, i, h, path, kind, op, args, mut, buf, fired, before, new, exp, got, where,
              node0):
        if mut and got[0] == "ok":
            self.writer[i] = h.obj.idx
        elif buf and self.writer.get(i, h.obj.idx) != h.obj.idx:
            self.st.inc("read_of_other_objects_write")
        self.judge_transparent(i, kind, op, fired, exp, got, where, node0)

    def after_exit(self, s, c, leaving, errs, fired):
        self.judge_final(leaving, errs, fired, f"leaving the common buffered state ({c.kind})")


def run(prog, known):
    return W(prog, known).run()
