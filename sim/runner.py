"""Seeds -> simulated runs -> verdict, minimised replay file, evidence.

usage: python -m sim.runner C01            (VERIF_SEED, VERIF_TIER from the environment)
       python -m sim.runner --replay FILE
       python -m sim.runner --digest C01   (event digest of all runs; determinism test)
"""

import faulthandler
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed_of(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def load_prop(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


def load_known(pid):
    """Keys of listed findings for this property: {key: text}"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=C12 key=<key> <what fails>
                parts = line.split(None, 3)
                if parts[1] == f"property={pid}":
                    out[parts[2].split("=", 1)[1]] = parts[3]
    return out


# ---------------------------------------------------------------------------
# forked jobs
class Job:
    def __init__(self, fn, timeout):
        self.r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r)
            code = 0
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                faulthandler.enable()
                try:
                    res = ("ok", fn())
                except BaseException:
                    res = ("error", traceback.format_exc())
                data = pickle.dumps(res)
                with os.fdopen(w, "wb", closefd=True) as f:
                    f.write(data)
            except BaseException:
                code = 3
            finally:
                try:
                    from .fs import _SCRATCH, drop_process_scratch
                    drop_process_scratch()
                except BaseException:
                    pass
                os._exit(code)
        os.close(w)
        self.buf = []
        self.deadline = time.monotonic() + timeout
        self.result = None
        self.done = False

    def fileno(self):
        return self.r

    def on_readable(self):
        b = os.read(self.r, 1 << 20)
        if b:
            self.buf.append(b)
            return
        self.finish()

    def finish(self, kill=None):
        if self.done:
            return
        self.done = True
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.close(self.r)
        _, status = os.waitpid(self.pid, 0)
        if kill:
            self.result = ("killed", kill)
            return
        try:
            self.result = pickle.loads(b"".join(self.buf))
        except Exception:
            self.result = ("error", f"worker died, status {status}")


def run_jobs(fns, nproc, timeout, on_result=None, stop=None):
    """Run callables in forked children; on_result(i, result); stop(i)->skip."""
    pending = list(enumerate(fns))
    live = {}
    while pending or live:
        while pending and len(live) < nproc:
            i, fn = pending.pop(0)
            if stop is not None and stop(i):
                continue
            live[i] = Job(fn, timeout)
        if not live:
            break
        r, _, _ = select.select(list(live.values()), [], [], 1.0)
        for j in r:
            j.on_readable()
        now = time.monotonic()
        for i, j in list(live.items()):
            if not j.done and now > j.deadline:
                j.finish(kill=f"no result after {timeout:.0f} s")
            if not j.done and stop is not None and stop(i):
                j.finish(kill="cancelled")
            if j.done:
                del live[i]
                on_result(i, j.result)


def one(fn, timeout=120):
    out = []
    run_jobs([fn], 1, timeout, lambda i, r: out.append(r))
    return out[0]


# ---------------------------------------------------------------------------
def portable(msg):
    """Without the scratch directory of this process."""
    return re.sub(r"/[\w/.-]*vsim-[^/]*/p\d+/r\d+/", "<dir>/", msg)


def run_program(mod, prog, known):
    """-> (stats, violation or None); raises on harness errors."""
    from . import sched
    from .world import Violation

    prog = json.loads(json.dumps(prog))
    try:
        st = mod.run(prog, known)
        return st, None
    except Violation as v:
        return None, {"key": v.key, "msg": portable(v.msg), "step": v.step,
                      "trace": getattr(v, "trace", None), "prog": getattr(v, "prog", None)}
    except Exception as e:
        # An error raised inside the library where every valid history succeeds.
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if f.filename.startswith(sched.LIB_PREFIX)]
        if not last or os.environ.get("VSIM_DEBUG"):
            raise
        return None, {"key": "exception", "msg": f"unexpected {type(e).__name__}: "
                      f"{portable(str(e))[:200]} in {last[-1].name} ({os.path.basename(last[-1].filename)})",
                      "step": None, "trace": None, "prog": None}
    finally:
        sched.reset_locks()


def make_prog(mod, seed, chunk, i, tier):
    rng = random.Random(seed_of(seed, mod.ID, chunk, i))
    return mod.make(rng, tier)


def chunk_fn(mod, seed, chunk, n, tier, known, sample):
    def fn():
        agg = {"c": {}, "fps": set(), "n": 0, "known": {}, "states": set(), "viol": None,
               "samples": [], "digest": 0}
        import zlib
        gc.disable()
        for i in range(n):
            prog = make_prog(mod, seed, chunk, i, tier)
            st, v = run_program(mod, prog, known)
            if v is not None:
                agg["n"] += 1
                v["i"] = i
                v["orig"] = prog
                agg["viol"] = v
                break
            # a program with threads is executed under many schedules
            agg["n"] += st.c.get("runs", 1)
            for k, x in st.c.items():
                agg["c"][k] = agg["c"].get(k, 0) + x
            if getattr(st, "fps", None):
                agg["fps"] |= st.fps
            elif st.nontrivial:
                agg["fps"].add(st.fp)
            agg["states"] |= st.states
            agg["digest"] = zlib.crc32(repr((st.fp, sorted(st.c.items()))).encode(), agg["digest"])
            for k, x in st.known.items():
                agg["known"][k] = agg["known"].get(k, 0) + x
            if sample and i < 1:
                agg["samples"].append(prog)
            if i % 20 == 19:
                gc.collect()
        return agg
    return fn


# ---------------------------------------------------------------------------
# minimisation
def try_seq(mod, progs, known, timeout=60):
    """Run programs one after another in one fresh child; violation of the last."""
    def fn():
        v = None
        for p in progs:
            st, v = run_program(mod, p, known)
            if v is not None and p is not progs[-1]:
                return None
        return v
    kind, r = one(fn, timeout)
    return r if kind == "ok" else None


def same(v, w):
    return v is not None and w is not None and v["key"] == w["key"]


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        for a in range(0, len(items), size):
            cand = items[:a] + items[a + size:]
            if time.monotonic() > deadline:
                break
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def simpler(v):
    """Simpler variants of a JSON value inside a program."""
    if isinstance(v, dict):
        if len(v) == 1 and next(iter(v)).startswith("$"):
            return
        for k in v:
            yield {a: b for a, b in v.items() if a != k}
        for k in v:
            for s in simpler(v[k]):
                yield {**v, k: s}
    elif isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i in range(len(v)):
            for s in simpler(v[i]):
                yield v[:i] + [s] + v[i + 1:]
    elif isinstance(v, str) and len(v) > 1:
        yield "a"
    elif isinstance(v, bool) or v is None:
        return
    elif isinstance(v, (int, float)) and v not in (0, 1):
        yield 0
        yield 1


def minimise(mod, prog, viol, known, prefix=(), budget=50):
    deadline = time.monotonic() + budget
    best = [prog, viol]

    def test(p):
        v = try_seq(mod, list(prefix) + [p], known)
        if same(v, viol):
            best[0], best[1] = (v.get("prog") or p), v
            return True
        return False

    if viol.get("prog"):
        # e.g. the random strategy replaced by its explicit switch list
        test(viol["prog"])
    changed = True
    while changed or best[0].get("search"):
        if time.monotonic() > deadline:
            if not best[0].get("search"):
                break
            # out of time for the program: fix its schedule, then shrink that
            deadline = time.monotonic() + 25
            test({k: v for k, v in best[0].items() if k != "search"})
            if best[0].get("search"):
                best[0] = {k: v for k, v in best[0].items() if k != "search"}
        changed = False
        cands = getattr(mod, "shrink", default_shrink)(best[0])
        for kind, arg in cands:
            if time.monotonic() > deadline:
                break
            if kind == "list":
                get, put = arg
                base = best[0]
                items = get(base)
                res = ddmin(items, lambda c: test(put(base, c)), deadline)
                if len(res) < len(items):
                    changed = True
                    break
            elif kind == "prog":
                if test(arg):
                    changed = True
                    break
    return best


def _list_at(path):
    def get(p):
        for k in path:
            p = p[k]
        return p

    def put(p, items):
        p = json.loads(json.dumps(p))
        q = p
        for k in path[:-1]:
            q = q[k]
        q[path[-1]] = items
        return p
    return get, put


def default_shrink(prog):
    if prog.get("steps"):
        yield "list", _list_at(["steps"])
    for i, s in enumerate(prog.get("steps", [])):
        for f in ("f",):
            if s.get(f) is not None:
                q = json.loads(json.dumps(prog))
                del q["steps"][i][f]
                yield "prog", q
        if s.get("nav"):
            q = json.loads(json.dumps(prog))
            q["steps"][i]["nav"] = s["nav"][:-1]
            yield "prog", q
        for f in ("d", "l"):
            if isinstance(s.get(f), list) and len(s[f]) == 2 and isinstance(s[f][1], list):
                for v in simpler(s[f][1]):
                    if len(v) == len(s[f][1]):
                        q = json.loads(json.dumps(prog))
                        q["steps"][i][f][1] = v
                        yield "prog", q
    for i, v in enumerate(prog.get("init", [])):
        if v is not None:
            for w in simpler(v):
                q = json.loads(json.dumps(prog))
                q["init"][i] = w
                yield "prog", q


# ---------------------------------------------------------------------------
def fresh_replay(path):
    env = dict(os.environ)
    r = subprocess.run([sys.executable, "-B", "-m", "sim.runner", "--replay", path, "--quiet"],
                       cwd=VERIF, env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, r.stdout


def report_violation(mod, pid, seed, chunk, viol, known, tier):
    i, prog = viol["i"], viol["orig"]
    prefix = []
    alone = None
    for _ in range(1):
        alone = try_seq(mod, [prog], known)
    if same(alone, viol):
        best, bv = minimise(mod, prog, viol, known)
    else:
        prefix = [make_prog(mod, seed, chunk, j, tier) for j in range(i)]
        deadline = time.monotonic() + 60
        if same(try_seq(mod, prefix + [prog], known, 200), viol):
            prefix = ddmin(prefix, lambda c: same(try_seq(mod, c + [prog], known), viol), deadline)
        best, bv = prog, viol
    out = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, f"{pid}-seed{seed}-c{chunk}-r{i}.json")
    rec = {"property": pid, "seed": seed, "chunk": chunk, "run": i, "tier": tier,
           "key": bv["key"], "message": bv["msg"], "step": bv["step"], "trace": bv.get("trace"),
           "programs": list(prefix) + [best]}
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    try:
        code, txt = fresh_replay(path)
    except subprocess.TimeoutExpired:
        code, txt = 2, "timeout"
    rec["replay_confirmed"] = code == 1
    if code != 1:
        # fall back to the unminimised chunk prefix
        rec["programs"] = [make_prog(mod, seed, chunk, j, tier) for j in range(i)] + [prog]
        rec["message"] = viol["msg"]
        rec["trace"] = viol.get("trace")
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    print(f"violated: {rec['message']}")
    if rec.get("trace"):
        for line in rec["trace"][:60]:
            print("   ", line)
    print(f"seed={seed} chunk={chunk} run={i} key={rec['key']} "
          f"replay_confirmed={rec['replay_confirmed']}")
    print(f"replay: bash check.sh --replay {os.path.relpath(path, VERIF)}")
    print(f"VIOLATION property={pid} replay={os.path.relpath(path, VERIF)}")
    return path


def do_replay(path, quiet):
    rec = json.load(open(path))
    pid = rec["property"]
    mod = load_prop(pid)
    known = set(load_known(pid))

    def fn():
        v = None
        for p in rec["programs"]:
            st, v = run_program(mod, p, known)
            if v is not None and p is not rec["programs"][-1]:
                return v
        return v
    kind, v = one(fn, 280)
    if kind != "ok":
        print(v)
        return 2
    if v is None or v["key"] != rec["key"]:
        print("replay: no violation" if v is None else f"replay: other violation {v['key']}: {v['msg']}")
        return 0 if v is None else 2
    print(f"violated: {v['msg']}")
    exact = v["msg"] == rec["message"]
    print(f"replay reproduces the recorded violation; message identical: {exact}")
    for line in (v.get("trace") or [])[:200]:
        print("   ", line)
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def main(argv):
    base = tempfile.mkdtemp(prefix="vsim-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    os.environ["VSIM_SCRATCH"] = base
    try:
        from . import boot
        boot.boot()
        if argv[0] == "--replay":
            return do_replay(argv[1], "--quiet" in argv)
        if argv[0] == "--digest":
            return do_check(argv[1], digest=True)
        return do_check(argv[0])
    finally:
        shutil.rmtree(base, ignore_errors=True)


def do_check(pid, digest=False):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = load_prop(pid)
    known = load_known(pid)
    nchunks, per = mod.QUICK if tier == "quick" else mod.THOROUGH
    if os.environ.get("VSIM_CHUNKS"):
        nchunks = int(os.environ["VSIM_CHUNKS"])
    nproc = int(os.environ.get("VSIM_PROCS", str(min(8, os.cpu_count() or 1))))
    soft = float(os.environ.get("VSIM_SOFT", "420" if tier == "quick" else "7200"))
    if hasattr(mod, "prepare"):
        mod.prepare(nproc)
    gc.collect()
    gc.freeze()
    results = {}
    state = {"viol": None}

    def stop(i):
        if state["viol"] is not None and i > state["viol"]:
            return True
        return i not in results and i not in started and time.monotonic() - t0 > soft

    started = set()

    def wrap(i):
        f = chunk_fn(mod, seed, i, per, tier, set(known), sample=i < 3)
        return f

    errors = []

    def on_result(i, r):
        kind, val = r
        if kind == "ok":
            results[i] = val
            if val["viol"] is not None and (state["viol"] is None or i < state["viol"]):
                state["viol"] = i
        elif kind == "killed" and val == "cancelled":
            pass
        else:
            errors.append((i, val))

    class Lazy:
        def __init__(self, i):
            self.i = i

        def __call__(self):
            return wrap(self.i)()

    fns = [Lazy(i) for i in range(nchunks)]
    # `started` is filled by run_jobs through stop(): mark on first dispatch
    orig_stop = stop

    def stop2(i):
        s = orig_stop(i)
        if not s:
            started.add(i)
        return s

    run_jobs(fns, nproc, getattr(mod, "CHUNK_TIMEOUT", 300), on_result, stop2)
    wall = time.monotonic() - t0
    if digest:
        for i in sorted(results):
            print(i, results[i]["digest"], len(results[i]["fps"]), results[i]["viol"] and results[i]["viol"]["key"])
        return 0

    tot = {"c": {}, "fps": set(), "n": 0, "known": {}, "states": set(), "samples": []}
    for i in sorted(results):
        r = results[i]
        tot["n"] += r["n"]
        tot["fps"] |= r["fps"]
        tot["states"] |= r["states"]
        tot["samples"] += r["samples"]
        for f in ("c", "known"):
            for k, x in r[f].items():
                tot[f][k] = tot[f].get(k, 0) + x
    c = tot["c"]
    viol = state["viol"]
    path = None
    if viol is not None:
        v = results[viol]["viol"]
        path = report_violation(mod, pid, seed, viol, v, set(known), tier)
    faults = {k[6:]: x for k, x in sorted(c.items()) if k.startswith("fault:")}
    io = {k[3:]: x for k, x in sorted(c.items()) if k.startswith("io:")}
    probes = {k: x for k, x in sorted(c.items())
              if not k.startswith(("fault:", "io:")) and k not in ("sim_ns",)}
    wall = time.monotonic() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": tot["n"],
            "distinct_nontrivial": len(tot["fps"]),
            "rule": mod.RULE,
            "samples": tot["samples"][:3],
            "runs_per_hour": int(tot["n"] / max(wall, 0.01) * 3600),
            "seeds": f"{len(results)} chunks x {per} run seeds derived from VERIF_SEED={seed}",
            "chunks_planned": nchunks,
            "simulated_seconds": round(c.get("sim_ns", 0) / 1e9, 3),
            "faults_fired": faults,
            "storage_operations": io,
            "probes": probes,
            "probes_never_hit": [k for k in getattr(mod, "REACH", []) if not c.get(k)],
            "distinct_measure": "distinct_nontrivial: CRC-32 of executed operations, outcomes "
                                "and resulting contents of a run",
            "real_components": getattr(mod, "REAL", REAL),
            "stub_components": getattr(mod, "STUB", STUB),
            "known_findings_hit": tot["known"],
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall, 2),
        "violations": 0 if viol is None else 1,
    }
    if tot["states"]:
        ev["coverage"]["distinct_states"] = len(tot["states"])
        ev["coverage"]["distinct_states_measure"] = mod.MEASURE
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, n in sorted(tot["known"].items()):
        print(f"KNOWN-FINDING: property={pid} {known.get(k, k)} (seen {n} times)")
    if viol is not None:
        return 1
    if errors:
        for i, e in errors[:3]:
            print(f"harness error in chunk {i}: {e}", file=sys.stderr)
        return 3
    if len(results) < max(1, nchunks // 4):
        print(f"only {len(results)} of {nchunks} chunks finished in time", file=sys.stderr)
        return 4
    print(f"{pid}: {tot['n']} runs, {len(tot['fps'])} distinct, {wall:.1f} s, no violation")
    return 0


REAL = ["synced_collections (unmodified working tree)", "json, numpy, bson, zarr, numcodecs",
        "files on tmpfs"]
STUB = ["Redis server (in-memory)", "MongoDB collection (in-memory, BSON encoded)",
        "Zarr store (in-memory mapping)", "modification times (simulated clock)", "uuid4"]

if __name__ == "__main__":
    try:
        _code = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        _code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(_code)
