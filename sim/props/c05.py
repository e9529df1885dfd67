"""C05 buffered mode is transparent and defers all writes to the outermost exit."""

from .. import boot
from .. import values as V
from ..buf import BufWorld
from . import _bufgen

ID = "C05"
LEVEL = "exploration"
QUICK = (320, 150)
THOROUGH = (4000, 120)
RULE = ("One run = one seeded history of operations interleaved with well-nested per-object "
        "(root or child) and backend-wide buffered contexts, optional small capacities and "
        "transient I/O faults at loads and flushes, on 1-2 files; distinct = CRC of operations, "
        "contexts, outcomes and contents.")
REACH = ["dressed_arguments", "ops_via_dropped_object",
         "exit_by_exception",
         "enter:obj", "enter:cls", "nested_contexts", "clear_or_reset_buffered",
         "nested_mutations_buffered", "deferral_checks", "outermost_exit", "exit_with_fault",
         "small_capacity", "child_context"]
ASSUME = ["one collection object per file", "a missing file counts as empty",
          "after an injected I/O error at a flush the file may hold any content the collection "
          "had since the context was entered (atomic-write modes)"]
STUB = ["modification times (simulated clock)", "uuid4"]


def make(rng, tier):
    caps = rng.choice([(None,), (None,), (None, 10**6), (None, 0, 1, 2, 15, 40, 80)])
    return _bufgen.make(rng, nres=rng.choice([1, 1, 2]), caps=caps,
                        penter=rng.choice([0.1, 0.2]), pexit=rng.choice([0.08, 0.18]),
                        faulty=0.25)


class W(BufWorld):
    def after_enter(self, s, c, got):
        super().after_enter(s, c, got)
        if len(self.ctx) > 1:
            self.st.inc("nested_contexts")
        if any(self.small):
            self.st.inc("small_capacity")
        for i in range(len(self.res)):
            self.judge_deferred(i, "entering a context")

    def judge(self, i, h, path, kind, op, args, mut, buf, fired, before, new, exp, got, where,
              node0):
        self.judge_transparent(i, kind, op, fired, exp, got, where, node0)
        for j in range(len(self.res)):
            self.judge_deferred(j, where)

    def after_exit(self, s, c, leaving, errs, fired):
        where = f"leaving the outermost buffered context ({c.kind})"
        self.judge_final(leaving, errs, fired, where)
        for i in range(len(self.res)):
            self.judge_deferred(i, f"leaving an inner context ({c.kind})")


def run(prog, known):
    return W(prog, known).run()
