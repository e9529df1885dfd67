"""Unbuffered sequential histories (C01-C04)."""

from . import ops
from . import values as V
from .fs import FSX
from .world import MISSING, World, descr

CORRUPT = ("<unreadable>",)


class SeqWorld(World):
    """Runs an operation on the library and on the model, resyncs to raw."""

    order_checks = False

    def setup(self):
        super().setup()
        self.order_ok = [m is MISSING and len([o for o in self.objs if o.res == i]) == 1
                         for i, m in enumerate(self.model)]

    def raw(self, i):
        try:
            return self.res[i].raw()
        except Exception:
            return CORRUPT

    def eq_content(self, i, a, b):
        if a is CORRUPT or b is CORRUPT:
            return False
        a = self.empty(i) if a is MISSING else a
        b = self.empty(i) if b is MISSING else b
        return V.jeq(a, b)

    def exec_op(self, s, h, path, rel, kind, op, args, node):
        i = h.obj.res
        FSX.clock += 50_000_000
        mut = ops.is_mutator(kind, op)
        before = self.model[i]
        sig = self.res[i].sig() if self.need_sig else None
        f = s.get("f")
        armed = bool(f) and before is not MISSING
        if self.tmp:
            self.order_ok[i] = False
        if armed:
            self.arm(f)
        got = self.live_op(h, rel, kind, op, args)
        res = got[1]
        got = self.plainify(got)
        fired = self.disarm() if armed else False
        node0 = V.dc(node)
        exp, new = self.model_op(i, path, kind, op, args)
        if op == "popitem" and kind == "d" and exp[0] == "ok" and got[0] == "ok":
            exp, new = self.adapt_popitem(i, path, got, exp, new)
        raw = self.raw(i)
        self.st.inc(f"op:{kind}.{op}")
        self.st.inc("ops")
        self.st.mix(h.obj.idx, path, op, exp[0], got[0], V.short(raw, 2000))
        if fired:
            self.st.inc("ops_with_fault")
            if got[0] == "exc":
                self.st.inc("ops_failed_by_fault")
        if mut and path:
            self.st.inc("nested_mutations")
        if len(path) >= 2:
            self.st.inc("depth2plus")
        if h.path:
            self.st.inc("ops_via_retained_handle")
        if exp[0] == "exc":
            self.st.inc("ops_expected_to_raise")
        self.st.nontrivial = 1
        where = (f"{self.fam} {self.root_cls(i).__name__}{list(path)} "
                 f"(object {h.obj.idx}{', retained child ' + str(list(h.path)) if h.path else ''}) "
                 f".{op}{V.short(args, 200)}")
        self.judge(i, h, path, kind, op, args, mut, fired, before, new, raw, exp, got, where, sig,
                   node0)
        # continue from what is really there
        if raw is CORRUPT or (raw is not MISSING and V.kind_of(raw) != self.kinds[i]):
            base = before if before is not MISSING else self.empty(i)
            self.res[i].put(base)
            raw = V.dc(base)
        if raw is MISSING and before is not MISSING:
            self.res[i].put(before)
            raw = V.dc(before)
        if mut:
            self.kill_handles(h.obj, path, kind, op, args, node0)
            if op in ("update", "reset", "clear"):
                self.order_ok[i] = False
        self.set_model(i, raw)
        if exp[0] == "ok" and got[0] == "ok" and not fired:
            self.keep_result(s, h, path, kind, op, args, res)

    need_sig = False

    def plainify(self, got):
        if got[0] != "ok":
            return got
        v = got[1]
        r = ops.outcome(lambda: ops.plain(v))
        return r

    def adapt_popitem(self, i, path, got, exp, new):
        r = got[1]
        content = V.dc(self.content(i))
        n = V.get_path(content, path)
        if isinstance(r, list) and len(r) == 2 and isinstance(r[0], str) and r[0] in n:
            if self.order_checks and self.order_ok[i]:
                return exp, new
            v = n.pop(r[0])
            return ("ok", [r[0], V.dc(v)]), content
        return exp, new

    def s_outside(self, s):
        i = s["r"] % len(self.res)
        self.order_ok[i] = False
        super().s_outside(s)

    def s_newobj(self, s):
        i = s["r"] % len(self.res)
        self.order_ok[i] = False
        super().s_newobj(s)

    def s_restart(self, s):
        self.order_ok = [False] * len(self.order_ok)
        super().s_restart(s)

    def fmt(self, exp, got):
        return f"expected {descr(exp)}, got {descr(got)}"
