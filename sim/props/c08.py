"""C08 a crash during a save leaves each JSON file wholly old or wholly new."""

import json
import os
import zlib

from .. import boot, fs, gen, ops, sched
from .. import values as V
from ..buf import BufWorld
from ..fs import FSX
from ..seq import CORRUPT
from ..world import MISSING, descr
from . import _bufgen

ID = "C08"
LEVEL = "exploration"
QUICK = (160, 60)
THOROUGH = (4000, 80)
RULE = ("One run = one seeded history of saves and buffer flushes on 1-3 JSON files.  Within each "
        "save or flush the disk is inspected at every executed library line, before and after every "
        "file operation and after sampled prefixes of every write (each is one crash point); every "
        "distinct disk state is later reopened by a fresh object.  I/O faults and unserializable "
        "values are injected in a part of the runs; distinct = CRC of operations, crash states and "
        "contents.")
MEASURE = "distinct sets of directory contents seen at crash points"
REACH = ["crash_points", "crash_at:write%", "crash_at:replace", "crash_at:replace+",
         "crash_at:line", "multi_file_flush", "reopened", "unserializable_unbuffered",
         "unserializable_buffered", "unserializable_inplace", "fault_in_save",
         "reopen_with_leftover_temp_file", "inplace_fault_free"]
ASSUME = ["a crash of the process keeps everything already handed to the operating system",
          "os.replace is atomic"]
STUB = ["modification times (simulated clock)", "uuid4",
        "the crash (disk state copied at the crash point instead of killing the process)"]


def make(rng, tier):
    fam = rng.choice(boot.JSON_FAMS + boot.BUF_FAMS)
    buf = fam in boot.BUF_FAMS
    nres = rng.choice([1, 1, 2, 3])
    caps = rng.choice([(None,), (None,), (0, 1, 2, 20, 60)])
    prog = _bufgen.make(rng, fams=[fam], nres=nres, caps=caps, mut=0.85,
                        penter=0.12 if buf else 0, pexit=0.12 if buf else 0, faulty=0.3,
                        hold=0.03, lens=(3, 5, 8), ctx=("obj", "cls"))
    prog["cfg"]["cuts"] = rng.randrange(1 << 30)
    sw = gen.Swarm(rng, fam)
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 2])):
            prog["steps"].insert(rng.randint(0, len(prog["steps"])), {
                "s": "bad", "t": rng.randrange(64), "nav": sw.nav(), "how": rng.randrange(5)})
    return prog


HUGE = 10 ** 5000


class W(BufWorld):
    def setup(self):
        super().setup()
        self.atomic = bool(self.cfg.get("thr") or self.cfg.get("wc"))
        self.poison = [False] * len(self.res)
        self.shots = {}  # distinct directory states -> label
        self.seen = None
        n = [self.cfg["cuts"]]

        def cuts(size):
            n[0] = (n[0] * 6364136223846793005 + 1442695040888963407) % (1 << 64)
            a = n[0] >> 33
            return sorted({1, size // 2, size - 1, a % size, (a >> 8) % size})

        FSX.cuts = cuts

    def cleanup(self):
        FSX.cuts = None
        super().cleanup()

    # -- crash points -----------------------------------------------------------
    def arm_crash(self):
        self.seen = [dict() for _ in self.res]
        self.stat = None
        self.before = [self.raw(i) for i in range(len(self.res))]
        FSX.on_point = self.at_point
        sched.LINE_HOOK = self.at_line
        self.look("start")

    def at_point(self, kind, path):
        self.st.inc("crash_points")
        self.st.inc("crash_at:" + kind)
        self.look(f"{kind} {os.path.basename(str(path))[:12]}")

    def at_line(self, code, line):
        self.st.inc("crash_points")
        self.st.inc("crash_at:line")
        st = []
        for r in self.res:
            try:
                x = fs._real["os.stat"](r.path)
                st.append((x.st_ino, x.st_size, x.st_mtime_ns))
            except FileNotFoundError:
                st.append(None)
        if st != self.stat:
            self.stat = st
            self.look(f"line {code.co_name}:{line}")

    def look(self, label):
        snap = fs.snapshot(self.dir)
        for i, r in enumerate(self.res):
            b = snap.get(os.path.basename(r.path))
            if b not in self.seen[i]:
                self.seen[i][b] = label
        if self.atomic:
            key = tuple(sorted(snap.items()))
            if key not in self.shots:
                self.shots[key] = label

    def disarm_crash(self, what):
        FSX.on_point = None
        sched.LINE_HOOK = None
        self.look("end")
        for i in range(len(self.res)):
            allowed = [self.before[i], self.model[i]] + (self.hist[i] or []) + self.extra[i]
            for b, label in self.seen[i].items():
                if b is None:
                    if self.before[i] is not MISSING:
                        self.violate("vanished", f"{what}: crash at [{label}] leaves no file {i}")
                    continue
                if not self.atomic:
                    continue
                try:
                    v = json.loads(b)
                except ValueError:
                    self.violate("torn", f"{what}: crash at [{label}] leaves file {i} with "
                                 f"{V.short(b)} (was {V.short(self.before[i])})")
                    continue
                if not any(x is not MISSING and x is not CORRUPT and V.jeq(v, x)
                           for x in allowed):
                    if not (V.jeq(v, self.empty(i)) and any(x is MISSING for x in allowed[1:])):
                        self.violate("mixed", f"{what}: crash at [{label}] leaves file {i} with "
                                     f"{V.short(v)}, neither old {V.short(self.before[i])} nor "
                                     f"new {V.short(self.model[i])}")
        self.seen = None

    # -- steps --------------------------------------------------------------------
    def guarded(self, what, fn):
        self.extra = [[] for _ in self.res]
        self.arm_crash()
        try:
            fn()
        finally:
            FSX.on_point = None
            sched.LINE_HOOK = None
        self.disarm_crash(what)

    def s_enter(self, s):
        self.guarded("entering a context", lambda: super(W, self).s_enter(s))

    def after_enter(self, s, c, got):
        pass

    def s_exit(self, s):
        if not self.ctx:
            return
        if sum(1 for i in range(len(self.res)) if self.hist[i] is not None
               and len(self.hist[i]) > 1) > 1:
            self.st.inc("multi_file_flush")
        self.guarded("leaving a context", lambda: super(W, self).s_exit(s))

    def after_exit(self, s, c, leaving, errs, fired):
        if fired:
            self.st.inc("fault_in_save")
        bad = any(self.poison[i] for i in leaving)
        for i in leaving:
            raw = self.raw(i)
            self.extra[i] += self.hist[i]
            if raw is CORRUPT or raw is MISSING or V.kind_of(raw) != self.kinds[i]:
                if raw is not MISSING and (self.atomic or not fired):
                    self.violate("torn", f"leaving a context left file {i} unreadable: "
                                 f"{V.short(self.res[i].bytes())} (errors {errs!r:.200})")
                if raw is not MISSING:
                    FSX.on_point = None
                    raw = V.dc(self.before[i] if self.before[i] is not MISSING
                               else self.empty(i))
                    self.res[i].put(raw)
            if self.poison[i]:
                ok = self.hist[i]
                if raw is not MISSING and not any(self.eq_content(i, raw, x) for x in ok):
                    self.violate("damaged", f"flush of unserializable content left {V.short(raw)} "
                                 f"in file {i}")
            if raw is not MISSING or errs:
                self.set_model(i, raw)
            self.poison[i] = False
            self.hist[i] = None
        if errs and not fired and not bad:
            self.violate("exit-error", f"leaving a context raised {errs[0]!r}")

    def s_hold(self, s):
        h, path, rel = self.pick(s["t"], s["nav"])
        if not self.poison[h.obj.res]:
            super().s_hold(s)

    def exec_op(self, s, h, path, rel, kind, op, args, node):
        if self.poison[h.obj.res]:
            return
        if any(self.poison) and any(self.small):
            return  # a forced flush would meet the unserializable content
        if not ops.is_mutator(kind, op):
            super().exec_op(s, h, path, rel, kind, op, args, node)
            return
        what = f"{self.root_cls(h.obj.res).__name__}{list(path)}.{op}"
        if not self.atomic and not s.get("f"):
            self.st.inc("inplace_fault_free")
        self.guarded(what, lambda: super(W, self).exec_op(s, h, path, rel, kind, op, args, node))

    def judge(self, i, h, path, kind, op, args, mut, buf, fired, before, new, exp, got, where,
              node0):
        if self.seen is None:
            return
        if fired and mut:
            self.st.inc("fault_in_save")
        self.extra[i].append(new)

    def s_bad(self, s):
        """Store an integer with more digits than json can write."""
        h, path, rel = self.pick(s["t"], s["nav"])
        i = h.obj.res
        if self.poison[i] or any(self.small) or self.raw(i) is MISSING:
            return
        FSX.clock += 50_000_000
        buf = self.buffered(h.obj)
        kind = V.kind_of(V.get_path(self.content(i), path))
        sig = self.res[i].sig()

        def go():
            n = self.live_nav(h, rel)
            how = s["how"]
            if kind == "d":
                (lambda: n.__setitem__("bad", HUGE), lambda: n.update({"ok": 1, "bad": [HUGE]}),
                 lambda: n.reset({"a": 1, "bad": {"x": HUGE}}), lambda: n.setdefault("bad", HUGE),
                 lambda: n.__setitem__("bad", {"deep": [1, {"x": HUGE}]}))[how]()
            else:
                (lambda: n.append(HUGE), lambda: n.extend([1, HUGE]),
                 lambda: n.reset([1, [HUGE]]), lambda: n.insert(0, {"x": HUGE}),
                 lambda: n.__iadd__([2, HUGE]))[how]()

        box = []
        self.guarded("storing an unserializable value",
                     lambda: box.append(ops.outcome(go)))
        got = box[0]
        self.st.mix("bad", i, got[0])
        self.st.inc("unserializable_buffered" if buf else "unserializable_unbuffered")
        if not self.atomic:
            self.st.inc("unserializable_inplace")
        if self.res[i].sig() != sig and not self.eq_content(i, self.raw(i), self.model[i]):
            self.violate("damaged", f"storing an unserializable value changed file {i} to "
                         f"{V.short(self.raw(i))}")
        if buf:
            self.poison[i] = True
            self.handles = [x for x in self.handles if x.obj.res != i]
        elif got[0] == "ok":
            self.violate("accepted", "an unserializable value was accepted without an error")
        else:
            self.handles = [x for x in self.handles if x.obj.res != i]

    def finish(self):
        super().finish()
        if not self.atomic:
            return
        for key in self.shots:
            self.st.states.add(zlib.crc32(repr(key).encode()))
        # Reopen the distinct crash states with fresh objects.
        k = max(1, len(self.shots) // 12)
        for n, (key, label) in enumerate(list(self.shots.items())):
            if n % k:
                continue
            d = self.dir + f"crash{n}"
            os.mkdir(d)
            for name, b in key:
                with fs.real_open(d + "/" + name, "wb") as f:
                    f.write(b)
            names = {os.path.basename(r.path): i for i, r in enumerate(self.res)}
            if any(name not in names for name, _ in key):
                self.st.inc("reopen_with_leftover_temp_file")
            for name, i in names.items():
                p = d + "/" + name
                b = dict(key).get(name)
                cls = self.root_cls(i)

                def reopen():
                    kw = {"write_concern": True} if self.cfg.get("wc") else {}
                    o = cls(filename=p, **kw)
                    first = o()
                    if self.kinds[i] == "d":
                        o["after_crash"] = 1
                    else:
                        o.append("after_crash")
                    return first, o()

                got = ops.outcome(reopen)
                self.st.inc("reopened")
                want = self.empty(i) if b is None else json.loads(b)
                if got[0] == "exc" or not V.jeq(got[1][0], want):
                    self.violate("reopen", f"after a crash at [{label}] file {i} opens as "
                                 f"{descr(got)}")
                after = json.loads(fs.raw_bytes(p))
                w2 = {**want, "after_crash": 1} if self.kinds[i] == "d" \
                    else want + ["after_crash"]
                if not V.jeq(after, w2):
                    self.violate("reopen-write", f"after a crash at [{label}] a write to file {i} "
                                 f"gives {V.short(after)}")


def run(prog, known):
    return W(prog, known).run()
