"""Deterministic scheduler for caller threads.

Real Python threads, of which exactly one runs at any moment.  Control is
handed over only inside `yield_point`, which is reached

* before every executed line of library code (sys.monitoring LINE events),
* at every acquire/release of a lock created by library code (SimRLock), and
* at every intercepted file operation.

Who runs next is decided by a strategy driven by a seeded PRNG, or by an
explicit list of (step, thread) decisions when a trace is replayed.
"""

import _thread
import random
import sys
import threading
import time
import zlib

from . import fs

REAL_SLEEP = time.sleep
REAL_RLOCK = threading.RLock
REAL_LOCK = threading.Lock
get_ident = _thread.get_ident

RUNNABLE, BLOCKED, DONE = 0, 1, 2


class SimAbort(BaseException):
    """Unwinds simulated threads after a deadlock or a step overrun."""


class SimThread:
    __slots__ = ("tid", "fn", "sem", "state", "waiting", "ident", "exc", "prio",
                 "timeout_ok", "depth", "hushed")

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = RUNNABLE
        self.waiting = None
        self.ident = None
        self.exc = None
        self.prio = 0
        self.timeout_ok = False
        self.depth = 0
        self.hushed = False  # runs on unless it blocks


class Strategy:
    """spec: {"kind": "pct"|"rw"|"targeted"|"explicit"|"none", ...}"""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.rng = random.Random(spec.get("seed", 0))

    def begin(self, sched):
        k = self.kind
        if k == "pct":
            n = len(sched.threads)
            order = list(range(n))
            self.rng.shuffle(order)
            for p, t in enumerate(order):
                sched.threads[t].prio = 1000 + p
            self.low = 999
            est = max(2, self.spec.get("est", 400))
            self.changes = {self.rng.randrange(est) for _ in range(self.spec.get("d", 3))}
        elif k == "rw":
            self.p = self.spec.get("p", 0.05)
        elif k == "explicit":
            self.map = {int(s): t for s, t in self.spec["switches"]}
        elif k == "burst":
            # switch at a few randomly chosen steps, to a random thread
            est = max(2, self.spec.get("est", 400))
            self.at = {self.rng.randrange(est) for _ in range(self.spec.get("d", 3))}

    def first(self, sched):
        runnable = [t for t in sched.threads if t.state == RUNNABLE]
        return self.choose(sched, runnable, None)

    def choose(self, sched, runnable, cur):
        """Forced choice: cur cannot continue."""
        k = self.kind
        if k == "pct":
            return max(runnable, key=lambda t: t.prio)
        if k == "explicit":
            tid = self.map.get(sched.steps)
            for t in runnable:
                if t.tid == tid:
                    return t
            return runnable[0]
        if k == "none":
            return runnable[0]
        return runnable[self.rng.randrange(len(runnable))]

    def at_yield(self, sched, cur):
        """Voluntary point: return the thread to run next."""
        k = self.kind
        if k == "rw":
            if self.rng.random() < self.p:
                runnable = [t for t in sched.threads if t.state == RUNNABLE]
                return runnable[self.rng.randrange(len(runnable))]
            return cur
        if k == "burst":
            if sched.steps in self.at:
                runnable = [t for t in sched.threads if t.state == RUNNABLE and t is not cur]
                if runnable:
                    return runnable[self.rng.randrange(len(runnable))]
            return cur
        if k == "pct":
            if sched.steps in self.changes:
                cur.prio = self.low
                self.low -= 1
            best = cur
            for t in sched.threads:
                if t.state == RUNNABLE and t.prio > best.prio:
                    best = t
            return best
        if k == "explicit":
            tid = self.map.get(sched.steps)
            if tid is not None:
                for t in sched.threads:
                    if t.tid == tid and t.state == RUNNABLE:
                        return t
            return cur
        return cur


class Scheduler:
    def __init__(self, fns, strategy, max_steps=60000):
        self.threads = [SimThread(i, f) for i, f in enumerate(fns)]
        self.by_ident = {}
        self.strategy = Strategy(strategy)
        self.steps = 0
        self.max_steps = max_steps
        self.switches = []
        self.locs = []
        self.current = None
        self.aborting = None
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.trace_hash = 0
        self.loc = None
        self.event = 0
        self.blocked_count = 0

    # -- running ---------------------------------------------------------
    def run(self):
        global ACTIVE
        started = []
        for t in self.threads:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            started.append(th)
        ACTIVE = self
        try:
            self.strategy.begin(self)
            for th in started:
                th.start()
                # the thread announces itself before parking
                self.main_sem.acquire()
            nxt = self.strategy.first(self)
            self._note(nxt)
            self.current = nxt
            nxt.sem.release()
            self.main_sem.acquire()
        finally:
            ACTIVE = None
        for th in started:
            th.join(30)
            if th.is_alive():
                raise RuntimeError("simulated thread did not finish")
        return self.aborting

    def _body(self, t):
        t.ident = get_ident()
        self.by_ident[t.ident] = t
        self.main_sem.release()
        t.sem.acquire()
        try:
            if not self.aborting:
                t.fn()
        except SimAbort:
            pass
        except BaseException as e:  # harness bug: reported by the caller
            t.exc = e
        finally:
            t.state = DONE
            self.by_ident.pop(t.ident, None)
            self._leave(t)

    def _leave(self, t):
        nxt = self._pick_forced(t)
        if nxt is None:
            self.main_sem.release()
        else:
            self._note(nxt)
            self.current = nxt
            nxt.sem.release()

    def _pick_forced(self, cur):
        alive = [t for t in self.threads if t.state != DONE]
        if not alive:
            return None
        if self.aborting:
            return alive[0]
        runnable = [t for t in alive if t.state == RUNNABLE]
        if not runnable:
            timed = [t for t in alive if t.timeout_ok]
            if timed:
                timed[0].state = RUNNABLE
                timed[0].waiting = None
                return timed[0]
            self.aborting = "deadlock"
            return alive[0]
        return self.strategy.choose(self, runnable, cur)

    def _note(self, nxt):
        self.switches.append((self.steps, nxt.tid))
        self.locs.append(self.loc)
        self.trace_hash = zlib.crc32(
            repr((nxt.tid, self.loc)).encode(), self.trace_hash)

    def _switch(self, cur, nxt):
        self._note(nxt)
        self.current = nxt
        nxt.sem.release()
        cur.sem.acquire()
        if self.aborting:
            raise SimAbort(self.aborting)

    # -- called from simulated threads ------------------------------------
    def yield_point(self, loc=None):
        cur = self.by_ident.get(get_ident())
        if cur is None:
            return
        if self.aborting:
            raise SimAbort(self.aborting)
        if cur.hushed:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self.aborting = "step limit"
            raise SimAbort(self.aborting)
        self.loc = loc
        nxt = self.strategy.at_yield(self, cur)
        if nxt is not cur:
            self._switch(cur, nxt)

    def pause(self):
        """The current thread sleeps: another one runs if there is any."""
        cur = self.by_ident.get(get_ident())
        if cur is None:
            return
        self.yield_point("sleep")
        self.steps += 1
        runnable = [t for t in self.threads if t.state == RUNNABLE and t is not cur]
        if runnable:
            nxt = self.strategy.choose(self, runnable, cur)
            self._switch(cur, nxt)

    def block_on(self, cur, lock, timeout_ok=False):
        cur.state = BLOCKED
        cur.waiting = lock
        cur.timeout_ok = timeout_ok
        self.blocked_count += 1
        self.steps += 1
        nxt = self._pick_forced(cur)
        if nxt is cur:
            # woken by a timeout (or aborting)
            if self.aborting:
                raise SimAbort(self.aborting)
            return
        self._switch(cur, nxt)

    def wake(self, lock):
        for t in self.threads:
            if t.state == BLOCKED and t.waiting is lock:
                t.state = RUNNABLE
                t.waiting = None

    def stamp(self):
        self.event += 1
        return self.event


ACTIVE = None


def cur_thread():
    s = ACTIVE
    if s is None:
        return None
    return s.by_ident.get(get_ident())


# ---------------------------------------------------------------------------
# Locks
ALL_LOCKS = []


class SimRLock:
    """Re-entrant lock.  Outside a scheduled run it is a plain owner/count."""

    reentrant = True

    def __init__(self):
        self.owner = None
        self.count = 0
        ALL_LOCKS.append(self)

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = get_ident()
        cur = s.by_ident.get(me) if s is not None else None
        if cur is None:
            if self.owner is None or (self.owner == me and self.reentrant):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            # No scheduled run is active, so nobody can ever release it.
            raise LockStuck(self)
        if s.aborting:
            raise SimAbort(s.aborting)
        s.yield_point("acquire")
        while True:
            if self.owner is None or (self.owner == me and self.reentrant):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            s.block_on(cur, self, timeout_ok=timeout is not None and timeout >= 0)
            if timeout is not None and timeout >= 0 and self.owner is not None \
                    and self.owner != me:
                return False

    def release(self):
        s = ACTIVE
        if s is not None and s.aborting:
            self.owner = None
            self.count = 0
            return
        if self.owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if s is not None:
                s.wake(self)
                s.yield_point("release")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    # threading.Condition protocol
    def _is_owned(self):
        return self.owner == get_ident()

    def _release_save(self):
        st = (self.count, self.owner)
        self.count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st[0]


class SimLock(SimRLock):
    reentrant = False

    def release(self):
        s = ACTIVE
        if s is not None and s.aborting:
            self.owner = None
            self.count = 0
            return
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count = 0
        self.owner = None
        if s is not None:
            s.wake(self)
            s.yield_point("release")


class LockStuck(RuntimeError):
    """A lock is held by a thread that can never release it."""


def _from_library():
    """Is the lock made by the library, maybe inside a Condition, Event or Semaphore?"""
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__") == "threading":
        f = f.f_back
    return f is not None and \
        f.f_globals.get("__name__", "").split(".")[0] == "synced_collections"


def rlock_factory():
    return SimRLock() if _from_library() else REAL_RLOCK()


def lock_factory():
    return SimLock() if _from_library() else REAL_LOCK()


def waiter_factory():
    """The locks Condition.wait blocks on; they stay acquired."""
    if not _from_library():
        return REAL_LOCK()
    lock = SimLock()
    ALL_LOCKS.remove(lock)
    return lock


def sim_sleep(seconds):
    """Sleeping library code lets the others run; time is simulated."""
    if not _from_library():
        return REAL_SLEEP(seconds)
    fs.FSX.clock += int(seconds * 10**9)
    s = ACTIVE
    if s is not None:
        s.pause()
    return None


def install():
    threading.RLock = rlock_factory
    threading.Lock = lock_factory
    threading._allocate_lock = waiter_factory
    time.sleep = sim_sleep


def reset_locks():
    """Forget lock ownership (used after a run that leaked or deadlocked)."""
    for lk in ALL_LOCKS:
        lk.owner = None
        lk.count = 0


# ---------------------------------------------------------------------------
# Line events
LIB_PREFIX = None
_TOOL = 3
LINE_HOOK = None  # used by crash simulation: called with (code, line)


def _on_line(code, line):
    if not code.co_filename.startswith(LIB_PREFIX):
        return sys.monitoring.DISABLE
    h = LINE_HOOK
    if h is not None:
        h(code, line)
    s = ACTIVE
    if s is not None:
        s.yield_point((code.co_name, line))
    return None


def install_lines(lib_prefix):
    global LIB_PREFIX
    LIB_PREFIX = lib_prefix
    m = sys.monitoring
    m.use_tool_id(_TOOL, "vsim")
    m.register_callback(_TOOL, m.events.LINE, _on_line)
    m.set_events(_TOOL, m.events.LINE)
