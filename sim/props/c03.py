"""C03 operations refine built-in dict and list."""

from .. import boot, ops
from .. import values as V
from ..seq import SeqWorld
from ..world import MISSING, descr
from . import _seqgen

ID = "C03"
LEVEL = "exploration"
QUICK = (200, 110)
THOROUGH = (5000, 120)
RULE = ("One run = one seeded history over the whole dict/list surface (mixins, slices, bad "
        "indices, missing keys, comparisons with plain and synced operands, ill-typed arguments) "
        "on one object and its children, with transient I/O faults in a part of the runs; every "
        "operation is compared with the built-in; distinct = CRC of operations, outcomes and "
        "contents.")
REACH = ["dressed_arguments", "ops_via_dropped_object",
         "ops_expected_to_raise", "depth2plus", "synced_operand", "order_checked",
         "ops_failed_by_fault"]
ASSUME = ["Redis/MongoDB/Zarr stores are in-memory stand-ins",
          "an exception class may be a subclass of the built-in's",
          "key order is compared only without bulk updates",
          "MongoDB runs use integers within 64 bits (BSON limit)"]


def make(rng, tier):
    return _seqgen.make(rng, mut=rng.choice([0.35, 0.5, 0.6]), outside=0, newobj=0, restart=0.01,
                        hold=0.05, faulty=0.15, objarg=rng.choice([0, 0.15, 0.3]),
                        lens=(4, 8, 14, 22))


class W(SeqWorld):
    order_checks = True

    def setup(self):
        super().setup()
        self.order_ok = [self.fam != "zarr" for _ in self.res]

    def judge(self, i, h, path, kind, op, args, mut, fired, before, new, raw, exp, got, where,
              sig, node0):
        if "<synced" in repr(args):
            self.st.inc("synced_operand")
        if fired:
            self.order_ok[i] = False
            if got[0] == "exc":
                return
        m = self.same_result(kind, op, exp, got)
        if m:
            self.violate("result", f"{where} on {V.short(node0)}: {m}")
        if exp[0] == "ok" and got[0] == "ok" and kind == "d" and not mut and self.order_ok[i]:
            if op in ("iter", "keys", "values", "items"):
                self.st.inc("order_checked")
                if not V.jeq(exp[1], got[1]):
                    self.violate("order", f"{where} on {V.short(node0)}: "
                                 f"{self.fmt(exp, got)}")
        if exp[0] == "exc":
            b = self.empty(i) if before is MISSING else before
            if not self.eq_content(i, raw, b) or (raw is MISSING) != (before is MISSING):
                self.violate("failed-op-changed", f"{where} on {V.short(node0)} raised "
                             f"{descr(got)} but the resource changed from {V.short(before)} to "
                             f"{V.short(raw)}")
        elif not self.eq_content(i, raw, new):
            self.violate("content", f"{where} on {V.short(node0)} left {V.short(raw)} instead of "
                         f"{V.short(new)}")


def run(prog, known):
    return W(prog, known).run()
