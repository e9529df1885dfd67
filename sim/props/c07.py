"""C07 a buffered flush never silently overwrites a file changed by someone else."""

import json

from .. import boot, fs, gen, ops
from .. import values as V
from ..buf import BufWorld
from ..fs import FSX
from ..seq import CORRUPT
from ..world import MISSING, descr

ID = "C07"
LEVEL = "exploration"
QUICK = (240, 100)
THOROUGH = (4000, 120)
RULE = ("One run = one seeded history over 1-4 files: operations in nested per-object and "
        "backend-wide contexts, an outside writer changing files before the first buffered access, "
        "after it, or at an I/O point inside the load, capacity-forced flushes and transient I/O "
        "faults at flushes; distinct = CRC of operations, outside writes, errors and contents.")
REACH = ["exit_by_exception",
         "outside_after_entry", "outside_before_entry", "conflict_exit:all", "conflict_exit:cls",
         "conflict_forced", "conflict_forced_by_op", "clean_file_in_conflicting_flush",
         "read_only_with_outside_write", "race_in_load", "same_size", "same_mtime",
         "outside_delete", "outside_create", "exit_with_fault", "op_after_forced_conflict",
         "enter_raised"]
ASSUME = ["an outside change that leaves size and modification time as they were is not "
          "generated: the library detects changes by these",
          "a modification that restores the content may count as modified or not",
          "where the strategies legitimately differ after a forced flush (entry kept or "
          "dropped), the generator avoids the situation until the next access"]
STUB = ["modification times (simulated clock)", "uuid4", "the outside writer"]


def make(rng, tier):
    nres = rng.choice([1, 2, 2, 3, 4])
    c = gen.cfg(rng, boot.BUF_FAMS, nres=nres)
    if rng.random() < 0.8:
        c["kinds"] = [c["kinds"][0]] * nres
    objs = list(range(nres))
    if rng.random() < 0.3:
        objs.insert(rng.randrange(nres + 1), rng.randrange(nres))
    c["objs"] = objs
    sw = gen.Swarm(rng, c["fam"])
    pf = 0.3 if rng.random() < 0.2 else 0
    ctx = rng.choice([("cls",), ("cls",), ("all",), ("cls", "all")])
    steps = []

    def op(mut):
        dd = ["setitem", "update", "pop", "clear", "reset", "setdefault", "delitem",
              "setattr", "delattr"] if mut \
            else ops.D_READS
        ll = ["append", "insert", "extend", "pop", "clear", "reset", "setitem"] if mut \
            else ops.L_READS
        return sw.op_step(dd, ll)

    def outside():
        s = sw.outside_step()
        s["how"] = rng.choice(["normal", "normal", "samesize", "keepmtime", "remove"])
        return s

    def enter():
        return {"s": "enter", "k": rng.choice(ctx), "t": rng.randrange(64),
                "perm": rng.randrange(100)}

    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.3:
            steps.append(outside())
        if ctx == ("all",):
            xs = [{"s": "enter", "k": "all", "t": o, "perm": rng.randrange(100)}
                  for o in range(len(objs))]
            rng.shuffle(xs)
            steps += xs[:rng.randint(1, len(xs))]
        else:
            steps += [enter() for _ in range(rng.choice([1, 1, 2, 3]))]
        for _ in range(rng.choice([2, 4, 6, 10, 14])):
            r = rng.random()
            if r < 0.3:
                steps.append(outside())
            elif r < 0.36:
                steps.append({"s": "force", "t": rng.randrange(64),
                              "via": rng.choice(["set", "ctx"])})
            elif r < 0.40:
                steps.append({"s": "forceop", "t": rng.randrange(64)})
            elif r < 0.46:
                steps.append({"s": "race", "t": rng.randrange(64), "n": rng.randrange(12),
                              "mut": rng.random() < 0.7})
            elif r < 0.49:
                steps.append({"s": "exit", "perm": rng.randrange(100)})
            else:
                steps.append(op(rng.random() < 0.5))
        for _ in range(4):
            s = {"s": "exit", "perm": rng.randrange(100)}
            if rng.random() < 0.2:
                s["exc"] = 1
            if rng.random() < pf:
                s["f"] = gen.gen_fault(rng, c["fam"], reads=False)
            steps.append(s)
    return {"cfg": c, "init": [sw.init(k) for k in c["kinds"]], "steps": steps}


class FileState:
    """What happened to one file since it became buffered."""

    def __init__(self):
        self.entered = self.mutated = self.ext = False
        self.amb = False  # after a forced flush: is it still in the buffer?
        self.stuck = False  # no further operations on it in this context
        self.entry = None  # logical content at entry
        self.size = None  # bytes of the file at entry
        self.race = None  # content required when the racing flush does not raise


class W(BufWorld):
    def setup(self):
        super().setup()
        self.fst = [FileState() for _ in self.res]
        self.pairs = {}  # per file the (size, time) it had at outside writes
        self.paths = {r.path: i for i, r in enumerate(self.res)}

    # -- outside writer -------------------------------------------------------
    def s_outside(self, s):
        i = s["r"] % len(self.res)
        x = self.fst[i]
        if x.amb or x.stuck or x.race:
            return
        FSX.clock += 50_000_000
        r = self.res[i]
        disk = self.raw(i)
        base = self.empty(i) if disk is MISSING else disk
        how = s["how"]
        sig = r.sig()
        if how == "remove":
            if disk is MISSING or not self.buffered_entered(i) or x.size is None:
                return
            r.remove()
            new = MISSING
            self.st.inc("outside_delete")
        elif how == "samesize" and sig is not None:
            b = bytearray(sig[0])
            ks = [k for k, ch in enumerate(b) if 0x31 <= ch <= 0x38]
            if not ks:
                return
            b[ks[s["m"][1] % len(ks)]] += 1
            try:
                new = json.loads(bytes(b))
                json.dumps(new, allow_nan=False)
            except ValueError:
                return
            if V.jeq(new, disk):
                return
            fs.raw_put(r.path, bytes(b), s["style"])
            self.st.inc("same_size")
        else:
            new = self.mutate_plain(base, s["m"])
            b = json.dumps(new).encode()
            if V.jeq(new, base) or (sig is not None and b == sig[0]):
                return
            # size and time together never return to what they once were
            seen = self.pairs.setdefault(i, set())
            keep = False
            if sig is not None:
                seen.add((len(sig[0]), sig[2]))
                keep = how == "keepmtime" and (len(b), sig[2]) not in seen
            r.put(new, s["style"])
            if keep:
                fs._real["os.utime"](r.path, ns=(sig[2], sig[2]))
                seen.add((len(b), sig[2]))
                self.st.inc("same_mtime")
            if sig is None:
                self.st.inc("outside_create")
        self.st.inc("outside_write")
        self.st.mix("out", i, how, V.short(new, 500))
        self.sig[i] = r.sig()
        if self.buffered_entered(i):
            self.st.inc("outside_after_entry")
            x.ext = True
        else:
            if self.res_buffered(i):
                self.st.inc("outside_before_entry")
            self.set_model(i, new)

    def buffered_entered(self, i):
        return self.res_buffered(i) and self.fst[i].entered

    def enter_file(self, i):
        x = self.fst[i]
        if not x.entered:
            x.entered = True
            x.entry = V.dc(self.content(i))
            s = self.res[i].sig()
            x.size = None if s is None else len(s[0])
        x.amb = False

    # -- operations -------------------------------------------------------------
    def s_op(self, s):
        h, path, rel = self.pick(s["t"], s["nav"])
        i = h.obj.res
        if self.fst[i].stuck or self.fst[i].race:
            return
        if self.buffered(h.obj):
            if not self.fst[i].entered and self.fst[i].amb:
                self.st.inc("op_after_forced_conflict")
            self.enter_file(i)
        super().s_op(s)

    def judge(self, i, h, path, kind, op, args, mut, buf, fired, before, new, exp, got, where,
              node0):
        if not self.fst[i].ext:
            self.judge_transparent(i, kind, op, fired, exp, got, where, node0)
        if buf and mut:
            # A failing operation may leave the copy marked as modified.
            self.fst[i].mutated = True
        if buf and got[0] == "exc":
            # It may have failed before anything was loaded.
            ops.outcome(lambda: len(h.obj.live))
        if not buf:
            self.sig[i] = self.res[i].sig()

    def s_race(self, s):
        """The outside writer strikes while the file is being loaded."""
        i = s["t"] % len(self.res)
        o = next((o for o in self.objs if o.res == i and self.buffered(o)), None)
        x = self.fst[i]
        if o is None or x.entered or x.stuck or x.race or x.amb or self.handles:
            return
        FSX.clock += 50_000_000
        old = V.dc(self.content(i))
        k = self.kinds[i]
        new = V.dc(old)
        if k == "d":
            new["outside"] = 1
        else:
            new.insert(0, "outside")
        cnt = [s["n"]]
        hit = []
        r = self.res[i]

        def strike(kind, path):
            if str(path) == r.path and not hit:
                if cnt[0] == 0:
                    hit.append(kind)
                    FSX.on_point = None
                    r.put(new)
                cnt[0] -= 1

        def act(c):
            if k == "d":
                c["mine"] = 2
            else:
                c.append("mine")

        FSX.on_point = strike
        try:
            if s["mut"]:
                got = ops.outcome(lambda: act(o.live))
            else:
                got = ops.outcome(lambda: len(o.live))
        finally:
            FSX.on_point = None
        if got[0] == "exc":
            self.violate("race-op", f"access to file {i} while it was replaced: {descr(got)}")
        self.enter_file(i)
        self.st.mix("race", i, hit)
        if hit:
            self.st.inc("race_in_load")
            self.st.inc("race_at:" + hit[0])
            x.ext = True
            x.stuck = True
            self.sig[i] = r.sig()
            x.mutated = s["mut"]
            want = V.dc(new)
            if s["mut"]:
                act(want)
            x.race = [want]
            self.set_model(i, want)
        elif s["mut"]:
            new = V.dc(old)
            act(new)
            x.mutated = True
            self.set_model(i, new)

    # -- flushes ------------------------------------------------------------------
    def conflicts(self, files):
        must, may = set(), set()
        for i in files:
            x = self.fst[i]
            if x.entered and x.mutated and x.ext:
                may.add(i)
                if x.race is None and not V.jeq(self.content(i), x.entry):
                    must.add(i)
        return must, may

    def named(self, err, where):
        """File indices named by a BufferedError."""
        if type(err).__name__ != "BufferedError":
            self.violate("error-type", f"{where} raised {type(err).__name__}({err}) instead of "
                         "BufferedError")
            return set()
        out = set()
        for name, e in err.files.items():
            if name not in self.paths:
                self.violate("error-files", f"{where}: BufferedError names {name!r}")
                continue
            out.add(self.paths[name])
        return out

    def check_named(self, named, must, may, where, extra=()):
        if not must <= named:
            self.violate("not-reported", f"{where}: BufferedError names files {sorted(named)}, but "
                         f"{sorted(must)} were changed by the outside writer")
        if not named <= may | set(extra):
            self.violate("over-reported", f"{where}: BufferedError names files {sorted(named)}, "
                         f"but only {sorted(may)} were changed by the outside writer")

    def check_intact(self, i, where):
        if self.res[i].sig() != self.sig[i]:
            self.violate("overwritten", f"{where}: file {i} was written over the outside change "
                         f"(holds {V.short(self.raw(i))})")

    def class_files(self, cls):
        return [i for i in range(len(self.res)) if self.root_cls(i) is cls]

    def s_force(self, s):
        i = s["t"] % len(self.res)
        cls = self.root_cls(i)
        files = [j for j in self.class_files(cls) if self.res_buffered(j)]
        if not files or any(self.fst[j].race for j in files):
            return
        FSX.clock += 50_000_000
        must, may = self.conflicts(files)
        cap = self.cap[cls]
        named = set()
        if s.get("via") == "ctx":
            where = "forced flush (buffer_backend(0))"
            cm = cls.buffer_backend(0)
            got = ops.outcome(cm.__enter__)
            if got[0] == "ok":
                again = ops.outcome(lambda: cm.__exit__(None, None, None))
                if again[0] == "exc":
                    self.violate("exit-error", f"{where}: the exit raised {descr(again)}")
            else:
                self.st.inc("enter_raised")
            if cls.get_buffer_capacity() != cap:
                self.violate("capacity", f"{where}: capacity {cls.get_buffer_capacity()} instead "
                             f"of {cap} afterwards")
        else:
            where = "forced flush (set_buffer_capacity(0))"
            got = ops.outcome(lambda: cls.set_buffer_capacity(0))
        if got[0] == "exc":
            named = self.named(got[1], where)
            self.st.inc("conflict_forced")
        self.check_named(named, must, may, where)
        again = ops.outcome(lambda: cls.set_buffer_capacity(cap))
        if again[0] == "exc":
            self.violate("setcap", f"set_buffer_capacity({cap}) after a forced flush raised "
                         f"{descr(again)}")
        self.after_forced(files, named, where)

    def s_forceop(self, s):
        """An operation exceeds the capacity."""
        i = s["t"] % len(self.res)
        o = next((o for o in self.objs if o.res == i and self.buffered(o)), None)
        x = self.fst[i]
        cls = self.root_cls(i)
        files = [j for j in self.class_files(cls) if self.res_buffered(j)]
        if o is None or x.mutated or x.stuck or x.ext \
                or any(self.fst[j].race for j in files) or self.handles:
            return
        FSX.clock += 50_000_000
        self.enter_file(i)
        before = V.dc(self.content(i))
        must, may = self.conflicts(files)
        cap = self.cap[cls]
        cls.set_buffer_capacity(cls.get_current_buffer_size())
        big = "x" * 60
        if self.kinds[i] == "d":
            key = f"big{self.stepno}"
            got = ops.outcome(lambda: o.live.__setitem__(key, big))
            after = {**before, key: big}
        else:
            got = ops.outcome(lambda: o.live.append(big))
            after = before + [big]
        named = set()
        where = f"operation on file {i} exceeding the capacity"
        if got[0] == "exc":
            named = self.named(got[1], where)
            self.st.inc("conflict_forced_by_op")
        self.check_named(named, must, may, where)
        x.mutated = True
        if got[0] == "ok":
            self.set_model(i, after)
        again = ops.outcome(lambda: cls.set_buffer_capacity(cap))
        if again[0] == "exc":
            self.violate("setcap", f"set_buffer_capacity({cap}) after a forced flush raised "
                         f"{descr(again)}")
        if got[0] == "exc":
            raw = self.raw(i)
            if not self.eq_content(i, raw, before) and not self.eq_content(i, raw, after):
                self.violate("forced-content", f"{where}: file {i} holds {V.short(raw)}")
            self.set_model(i, raw)
            x.stuck = True  # the operation may or may not have been applied in the buffer
            x.mutated = False
            x.entry = None
        self.after_forced([j for j in files if not (j == i and got[0] == "exc")], named, where)

    def after_forced(self, files, named, where):
        must, may = self.conflicts(files)
        for j in files:
            x = self.fst[j]
            if x.stuck and x.entry is None:
                continue
            if not x.entered:
                if x.amb:
                    continue
                self.check_intact(j, where)
                continue
            raw = self.raw(j)
            if j in may:
                self.check_intact(j, where)
                if j not in named:
                    x.stuck = True  # unmodified after all: kept or dropped
                    continue
                x.__init__()
                x.amb = True
                if raw is MISSING:
                    self.res[j].put(self.empty(j))
                    raw = self.empty(j)
                    self.sig[j] = self.res[j].sig()
                    x.stuck = True  # whether the object noticed the deletion is open
                self.set_model(j, raw)
            elif not x.mutated:
                self.check_intact(j, where)
                if x.ext:
                    x.stuck = True
                x.amb = True
            else:
                if self.eq_content(j, raw, self.model[j]):
                    x.entry = V.dc(self.content(j))
                    x.mutated = False
                    self.sig[j] = self.res[j].sig()
                    if named:
                        self.st.inc("clean_file_in_conflicting_flush")
                elif named:
                    self.violate("clean-not-written", f"{where}: file {j} has no conflict but "
                                 f"holds {V.short(raw)} instead of {V.short(self.content(j))}")
                x.amb = True

    def after_exit(self, s, c, leaving, errs, fired):
        where = f"leaving the {'backend-wide' if c.kind == 'cls' else 'per-object'} context"
        must, may = self.conflicts(leaving)
        mutated = {i for i in leaving if self.fst[i].mutated}
        race = {i for i in leaving if self.fst[i].race and self.fst[i].mutated}
        stuck = {i for i in leaving if self.fst[i].stuck and not self.fst[i].race
                 and self.fst[i].entry is None}
        must -= stuck
        failed = set()
        if c.kind == "cls":
            named = self.named(errs[0], where) if errs else set()
            if fired:
                extra = named - may
                if len(extra) > 1 or not extra <= mutated | stuck:
                    self.violate("over-reported", f"{where}: BufferedError names {sorted(named)}")
                if not must <= named:
                    self.violate("not-reported", f"{where}: names {sorted(named)}, conflicts "
                                 f"{sorted(must)}")
                failed = extra
            else:
                self.check_named(named, must, may, where)
        else:
            i = c.objs[0].res
            named = {i} & set(leaving) if errs else set()
            for e in errs:
                if fired:
                    failed = named
                elif type(e).__name__ != "MetadataError":
                    self.violate("error-type", f"{where} raised {type(e).__name__}({e}) instead "
                                 "of MetadataError")
                elif e.filename != self.res[i].path:
                    self.violate("error-files", f"{where}: MetadataError names {e.filename!r}")
            if errs and not fired and i not in may:
                self.violate("over-reported", f"{where} raised {type(errs[0]).__name__} although "
                             f"the file was not changed after it was loaded, or only read")
            if must and not errs:
                self.violate("not-reported", f"{where}: file {i} was changed by the outside "
                             "writer and in the buffer, but no error was raised")
        if must:
            self.st.inc(f"conflict_exit:{c.kind}")
            if mutated - may:
                self.st.inc("clean_file_in_conflicting_flush")
        for i in leaving:
            x = self.fst[i]
            raw = self.raw(i)
            if i in race and fired and i in named:
                if (self.cfg.get("thr") or self.cfg.get("wc")) \
                        and not self.eq_content(i, raw, x.race[0]):
                    self.check_intact(i, where)
            elif i in race and i not in named:
                if not self.eq_content(i, raw, x.race[0]):
                    self.violate("overwritten", f"{where}: file {i} was replaced while it was "
                                 f"loaded; it now holds {V.short(raw)}, expected "
                                 f"{V.short(x.race[0])}")
            elif i in may or i in race:
                self.check_intact(i, where)
            elif not x.mutated and not (x.stuck and x.entry is None):
                if x.ext:
                    self.st.inc("read_only_with_outside_write")
                self.check_intact(i, where)
            elif i in failed or i in stuck:
                if (self.cfg.get("thr") or self.cfg.get("wc")) and raw is CORRUPT:
                    self.violate("torn", f"{where} failed and left file {i} unreadable")
            elif not self.eq_content(i, raw, self.model[i]):
                self.violate("clean-not-written", f"{where}: file {i} holds {V.short(raw)} "
                             f"instead of {V.short(self.content(i))}"
                             + (f" (errors for files {sorted(named)})" if named else ""))
            if raw is CORRUPT or raw is MISSING or V.kind_of(raw) != self.kinds[i]:
                if raw is MISSING and not x.mutated and not x.ext:
                    raw = MISSING
                else:
                    raw = V.dc(self.content(i))
                    self.res[i].put(raw)
            self.set_model(i, raw)
            self.fst[i] = FileState()
            self.hist[i] = None
            self.sig[i] = self.res[i].sig()
        self.usable(leaving, where)

    def usable(self, leaving, where):
        for cls in {self.dcls, self.lcls}:
            if any(self.res_buffered(i) for i in self.class_files(cls)):
                continue
            n = cls.get_current_buffer_size()
            if n:
                self.violate("not-empty", f"{where}: the buffer size is {n} with no context active")
            if cls.get_buffer_capacity() != self.cap[cls]:
                self.violate("capacity", f"{where}: capacity {cls.get_buffer_capacity()} instead "
                             f"of {self.cap[cls]}")
        for o in self.objs:
            if o.res not in leaving or self.model[o.res] is MISSING:
                continue
            cls = self.root_cls(o.res)
            got = ops.outcome(lambda: o.live())
            if got[0] != "ok" or not V.jeq(got[1], self.model[o.res]):
                self.violate("stale", f"after {where}: object {o.idx} shows {descr(got)}, file "
                             f"{o.res} holds {V.short(self.model[o.res])}")
            if not cls.backend_is_buffered() and o.idx % 2 == 0:
                def look():
                    with cls.buffer_backend():
                        return o.live()
                got = ops.outcome(look)
                if got[0] != "ok" or not V.jeq(got[1], self.model[o.res]):
                    self.violate("stale-buffer", f"after {where}: in a new buffered context "
                                 f"object {o.idx} shows {descr(got)}, file {o.res} holds "
                                 f"{V.short(self.model[o.res])}")


def run(prog, known):
    return W(prog, known).run()
