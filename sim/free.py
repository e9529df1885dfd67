"""Histories judged by direct observation instead of a model (C11, C12, C16, C18)."""

import contextlib

from . import boot, ops
from . import values as V
from .world import MISSING, World


class FreeWorld(World):
    """Objects on simulated storage; positions are chosen in the current content."""

    def setup(self):
        self.cms = []
        super().setup()

    def cleanup(self):
        while self.cms:
            try:
                self.cms.pop().__exit__(None, None, None)
            except Exception:
                pass

    # -- positions -----------------------------------------------------------
    def node(self, t, nav):
        """-> (object, path, live node, kind, content of the object)"""
        o = self.objs[t % len(self.objs)]
        c = o.live()
        path = self.nav_path(c, (), nav)
        live = o.live
        for k in path:
            live = live[k]
        return o, path, live, V.kind_of(V.get_path(c, path)), c

    def raw_content(self, i):
        r = self.res[i].raw()
        return self.empty(i) if r is MISSING else r

    # -- contexts ------------------------------------------------------------
    def s_enter(self, s):
        if not self.is_buf or len(self.cms) >= 2:
            return
        o = self.objs[s["t"] % len(self.objs)]
        if s["k"] == "cls":
            cap = s.get("cap")
            cls = self.root_cls(o.res)
            cm = cls.buffer_backend(cap) if cap is not None else cls.buffer_backend()
        else:
            # all objects on the file, so that they share one buffered state
            cm = contextlib.ExitStack()
            for x in self.objs:
                if x.res == o.res:
                    cm.enter_context(x.live.buffered)
        cm.__enter__()
        self.cms.append(cm)
        self.st.inc("enter:" + s["k"])

    def s_exit(self, s):
        if self.cms:
            self.cms.pop().__exit__(None, None, None)
            self.st.inc("exit")
            self.after_exit()

    def after_exit(self):
        pass

    def finish(self):
        while self.cms:
            self.s_exit({})

    # -- ordinary operations -----------------------------------------------
    def s_op(self, s):
        o, path, live, kind, c = self.node(s["t"], s.get("nav", []))
        op, args = s[kind]
        args = V.dc(args)
        got = ops.outcome(lambda: ops.apply(live, kind, op, args, True))
        self.st.inc("ops")
        self.st.mix(self.fam, kind, op, got[0])

    def step(self, s):
        getattr(self, "s_" + s["s"])(s)


def gen_common(rng, fam, nres=1, nobj=None, depth=3, odd=.05):
    """cfg and init shared by the generators."""
    kinds = [rng.choice("dl") for _ in range(nres)]
    objs = list(range(nres)) if nobj is None else nobj
    cfg = {"fam": fam, "kinds": kinds, "objs": objs, "thr": rng.random() < .7}
    if fam in boot.JSON_FAMS and rng.random() < .2:
        cfg["wc"] = True
    init = []
    for k in kinds:
        if rng.random() < .15:
            init.append(None)
        else:
            init.append(V.gen_kind(rng, k, depth=depth, huge=fam != "mongo", odd=odd,
                                   pcont=.75))
    return cfg, init


def gen_ctx(rng):
    return {"s": "enter", "k": rng.choice(["cls", "obj"]), "t": rng.randrange(4),
            "cap": rng.choice([None, None, None, 0, 40])}
