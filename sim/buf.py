"""Histories with buffered contexts (C05, C06, C07, C15, C17)."""

from . import ops
from . import values as V
from .fs import FSX
from .seq import CORRUPT
from .world import MISSING, World, descr

HUGE_CAP = 10**9


class Ctx:
    __slots__ = ("kind", "cms", "objs", "cls", "cap", "orig")

    def __init__(self, kind, cms, objs, cls=None, cap=None, orig=None):
        self.kind, self.cms, self.objs = kind, cms, objs
        self.cls, self.cap, self.orig = cls, cap, orig


def order(xs, sel):
    """A permutation of xs chosen by an integer."""
    xs = list(xs)
    out = []
    while xs:
        out.append(xs.pop(sel % len(xs)))
        sel = sel // 3 + 1
    return out


class BodyError(Exception):
    """Raised by the body of a with statement."""


def body_error():
    """What __exit__ gets when the body of a with statement raised."""
    try:
        raise BodyError("the body of the with statement failed")
    except BodyError as e:
        return (BodyError, e, e.__traceback__)


class BufWorld(World):
    """Logical content in self.model; the files may lag behind while buffered."""

    max_ctx = 4

    def setup(self):
        self.default_cap = {c: c.get_buffer_capacity() for c in {self.dcls, self.lcls}
                            if hasattr(c, "get_buffer_capacity")}
        self.cap = dict(self.default_cap)
        self.ctx = []
        super().setup()
        n = len(self.res)
        self.sig = [None] * n  # signature when the buffered state was entered
        self.hist = [None] * n  # logical contents since then
        self.small = [False] * n  # a capacity that may force flushes was active

    def cleanup(self):
        for c in reversed(self.ctx):
            for cm in c.cms:
                try:
                    cm.__exit__(None, None, None)
                except Exception:
                    pass
        for c, v in self.default_cap.items():
            try:
                c.set_buffer_capacity(v)
            except Exception:
                pass

    # -- state ------------------------------------------------------------
    def buffered(self, o):
        cls = self.root_cls(o.res)
        return any(c.cls is cls if c.kind == "cls" else o in c.objs for c in self.ctx)

    def res_buffered(self, i):
        return any(self.buffered(o) for o in self.objs if o.res == i)

    def raw(self, i):
        try:
            return self.res[i].raw()
        except Exception:
            return CORRUPT

    def eq_content(self, i, a, b):
        if a is CORRUPT or b is CORRUPT:
            return False
        a = self.empty(i) if a is MISSING else a
        b = self.empty(i) if b is MISSING else b
        return V.jeq(a, b)

    def is_small(self, cls):
        """Could the current capacity force a flush?"""
        return self.cap.get(cls, HUGE_CAP) < 500

    def note_caps(self):
        for i in range(len(self.res)):
            if self.is_small(self.root_cls(i)):
                self.small[i] = True

    # -- contexts ---------------------------------------------------------
    def s_enter(self, s):
        if not self.is_buf or len(self.ctx) >= self.max_ctx:
            return
        was = [self.res_buffered(i) for i in range(len(self.res))]
        k = s["k"]
        o = self.objs[s["t"] % len(self.objs)]
        if k != "cls":
            self.handles = [h for h in self.handles if not (h.loose and h.obj.res == o.res)]
        if k == "cls":
            cls = self.root_cls(o.res)
            cap = s.get("cap")
            orig = self.cap[cls]
            cm = cls.buffer_backend(cap) if cap is not None else cls.buffer_backend()
            c = Ctx("cls", [cm], [], cls, cap, orig)
        elif k == "all":
            objs = order([x for x in self.objs if x.res == o.res], s.get("perm", 0))
            c = Ctx("all", [x.live.buffered for x in objs], objs)
        else:
            live = o.live
            path = self.nav_path(self.content(o.res), (), s.get("nav", []))
            if path:
                for key in path:
                    live = live[key]
                self.st.inc("child_context")
            c = Ctx("obj", [live.buffered], [o])
        got = ops.outcome(lambda: [cm.__enter__() for cm in c.cms])
        if got[0] == "ok":
            self.ctx.append(c)
            if c.kind == "cls" and c.cap is not None:
                self.cap[c.cls] = c.cap
        self.st.inc(f"enter:{k}")
        self.st.mix("enter", k, got[0])
        for i in range(len(self.res)):
            if not was[i] and self.res_buffered(i):
                self.sig[i] = self.res[i].sig()
                self.hist[i] = [V.dc(self.content(i))]
                self.small[i] = self.is_small(self.root_cls(i))
        self.note_caps()
        self.after_enter(s, c, got)

    def after_enter(self, s, c, got):
        if got[0] == "exc":
            self.violate("enter", f"entering a buffered context ({c.kind}) raised {descr(got)}")

    def s_exit(self, s):
        if not self.ctx:
            return
        c = self.ctx[-1]
        was = [self.res_buffered(i) for i in range(len(self.res))]
        self.ctx.pop()
        leaving = [i for i in range(len(self.res)) if was[i] and not self.res_buffered(i)]
        f = s.get("f")
        armed = bool(f) and leaving and all(r.sig() is not None for r in self.res)
        if armed:
            self.arm(f)
        errs = []
        cms = order(c.cms, s.get("perm", 0)) if c.kind == "all" else c.cms
        exc = body_error() if s.get("exc") else (None, None, None)
        if s.get("exc"):
            self.st.inc("exit_by_exception")
        for cm in cms:
            got = ops.outcome(lambda: cm.__exit__(*exc))
            if got[0] == "exc":
                errs.append(got[1])
        fired = self.disarm() if armed else False
        if fired:
            self.st.inc("exit_with_fault")
        if c.kind == "cls" and c.cap is not None:
            self.cap[c.cls] = c.orig
        self.note_caps()
        self.st.inc(f"exit:{c.kind}")
        if leaving:
            self.st.inc("outermost_exit")
        self.st.mix("exit", c.kind, len(errs))
        self.after_exit(s, c, leaving, errs, fired)

    def after_exit(self, s, c, leaving, errs, fired):
        pass

    def finish(self):
        while self.ctx:
            self.s_exit({"s": "exit"})

    def s_setcap(self, s):
        if not self.is_buf:
            return
        o = self.objs[s["t"] % len(self.objs)]
        cls = self.root_cls(o.res)
        got = ops.outcome(lambda: cls.set_buffer_capacity(s["cap"]))
        self.cap[cls] = s["cap"]
        self.note_caps()
        self.st.inc("setcap")
        self.after_setcap(s, cls, got)

    def after_setcap(self, s, cls, got):
        if got[0] == "exc":
            self.violate("setcap", f"set_buffer_capacity({s['cap']}) raised {descr(got)}")

    def s_restart(self, s):
        if not self.ctx:
            super().s_restart(s)

    def s_newobj(self, s):
        if not self.ctx:
            super().s_newobj(s)

    def may_open(self, i):
        # The other objects of the file are in the same buffering state.
        return not any(o.res == i for c in self.ctx for o in c.objs)

    # -- operations ---------------------------------------------------------
    def exec_op(self, s, h, path, rel, kind, op, args, node):
        i = h.obj.res
        FSX.clock += 50_000_000
        mut = ops.is_mutator(kind, op)
        buf = self.buffered(h.obj)
        before = self.model[i]
        f = s.get("f")
        # Faults while buffered only where no flush can be forced: then only the
        # first load touches the file.
        armed = bool(f) and before is not MISSING and self.raw(i) is not MISSING \
            and not (buf and any(self.small))
        if armed:
            self.arm(f)
        got = self.live_op(h, rel, kind, op, args)
        res = got[1]
        if got[0] == "ok":
            got = ops.outcome(lambda: ops.plain(res))
        fired = self.disarm() if armed else False
        node0 = V.dc(node)
        exp, new = self.model_op(i, path, kind, op, args)
        if op == "popitem" and kind == "d" and exp[0] == "ok" and got[0] == "ok":
            r = got[1]
            content = V.dc(self.content(i))
            n = V.get_path(content, path)
            if isinstance(r, list) and len(r) == 2 and isinstance(r[0], str) and r[0] in n:
                v = n.pop(r[0])
                exp, new = ("ok", [r[0], V.dc(v)]), content
        self.st.inc(f"op:{kind}.{op}")
        self.st.inc("ops")
        self.st.inc("ops_buffered" if buf else "ops_unbuffered")
        if buf and mut:
            self.st.inc("mutations_buffered")
            if path:
                self.st.inc("nested_mutations_buffered")
            if op in ("clear", "reset"):
                self.st.inc("clear_or_reset_buffered")
        if h.path:
            self.st.inc("ops_via_retained_handle")
        if fired and got[0] == "exc":
            self.st.inc("ops_failed_by_fault")
        self.st.nontrivial = 1
        where = (f"{'buffered ' if buf else ''}{self.root_cls(i).__name__}{list(path)} "
                 f"(object {h.obj.idx}, file {i}"
                 f"{', retained child ' + str(list(h.path)) if h.path else ''}) "
                 f".{op}{V.short(args, 200)}")
        self.st.mix(h.obj.idx, path, op, exp[0], got[0], V.short(new, 2000))
        if got[0] == "ok" and exp[0] == "ok" and mut:
            self.kill_handles(h.obj, path, kind, op, args, node0)
            self.set_model(i, new)
            if self.hist[i] is not None:
                self.hist[i].append(V.dc(new))
        elif fired and got[0] == "exc" and not buf:
            raw = self.raw(i)
            if raw is CORRUPT or raw is MISSING or V.kind_of(raw) != self.kinds[i]:
                self.res[i].put(before)
                raw = V.dc(before)
            if mut:
                self.kill_handles(h.obj, path, kind, op, args, node0)
            self.set_model(i, raw)
        self.judge(i, h, path, kind, op, args, mut, buf, fired, before, new, exp, got, where,
                   node0)
        if exp[0] == "ok" and got[0] == "ok" and not fired:
            self.keep_result(s, h, path, kind, op, args, res)

    def fmt(self, exp, got):
        return f"expected {descr(exp)}, got {descr(got)}"

    # -- shared judgements ------------------------------------------------------
    def judge_transparent(self, i, kind, op, fired, exp, got, where, node0):
        if fired and got[0] == "exc":
            return
        if exp[0] == "exc" and got[0] == "exc":
            return
        m = self.same_result(kind, op, exp, got)
        if m:
            self.violate("result", f"{where} on {V.short(node0)}: {m}")

    def judge_deferred(self, i, where):
        """The file of a buffered collection is as it was at entry."""
        if not self.res_buffered(i) or self.hist[i] is None:
            return
        if not self.small[i]:
            self.st.inc("deferral_checks")
            if self.res[i].sig() != self.sig[i]:
                self.violate("early-write", f"{where}: file {i} was written before the outermost "
                             f"buffered context exited: {V.short(self.raw(i))}")
        else:
            raw = self.raw(i)
            if not any(self.eq_content(i, raw, x) for x in self.hist[i]):
                self.violate("forced-content", f"{where}: file {i} holds {V.short(raw)}, which "
                             "never was the content of the collection")

    def judge_final(self, leaving, errs, fired, where):
        if errs and not fired:
            self.violate("exit-error", f"{where} raised {type(errs[0]).__name__}: {errs[0]}")
        for i in leaving:
            raw = self.raw(i)
            if not errs:
                if not self.eq_content(i, raw, self.model[i]):
                    self.violate("final", f"{where}: file {i} holds {V.short(raw)} instead of "
                                 f"{V.short(self.content(i))}")
            else:
                if self.cfg.get("thr") or self.cfg.get("wc"):
                    if not any(self.eq_content(i, raw, x) for x in self.hist[i]):
                        self.violate("torn", f"{where} failed and left {V.short(raw)} in file {i}")
                if raw is CORRUPT or raw is MISSING or V.kind_of(raw) != self.kinds[i]:
                    raw = V.dc(self.hist[i][0])
                    self.res[i].put(raw)
                self.set_model(i, raw)
            self.hist[i] = None
