"""Run machinery shared by every check: seeds, forked runs, minimising, replay.

One integer (VERIF_SEED) decides everything: case number i of a property is
`gen(Random(f"{seed}/{prop}/{i}"), i)`, a plain JSON value holding the workload, the
schedule seed and the fault plan; running a case is a pure function of that value,
the code under test and the interpreter's hash seed, which is itself a function of i.
"""

from __future__ import annotations

import contextlib
import hashlib
import io
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time as _time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUPS = 8  # distinct interpreters (each with its own PYTHONHASHSEED)

# Real clocks, captured before any check puts the simulated one in their place.
_real_time = _time.time
_real_monotonic = _time.monotonic


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind: str, message: str) -> None:
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class NoProgress(BaseException):
    """A run used far more CPU than it can need: it is not making progress."""


class HarnessError(Exception):
    """The machinery itself failed; never reported as a violation."""


class Env:
    """What one simulated run records. Logging draws no randomness and no clock."""

    def __init__(self) -> None:
        self.faults: Counter = Counter()
        self.probes: Counter = Counter()
        self.states: set[str] = set()
        self.simtime = 0.0
        self.steps = 0
        self.trace: list = []
        self._digest = hashlib.blake2b(digest_size=12)
        self.nontrivial: str | None = None

    def log(self, *parts) -> None:
        text = repr(parts)
        self._digest.update(text.encode())
        self._digest.update(b"\n")
        if len(self.trace) < 4000:
            self.trace.append(list(map(_jsonable, parts)))

    def fault(self, kind: str) -> None:
        self.faults[kind] += 1
        self.log("fault", kind)

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] += n

    def state(self, obj) -> None:
        self.states.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest())

    def digest(self) -> str:
        return self._digest.hexdigest()


def _jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    return repr(x)


def case_rng(seed: int, prop: str, index: int) -> random.Random:
    h = hashlib.blake2b(f"{seed}/{prop}/{index}".encode(), digest_size=8).digest()
    return random.Random(int.from_bytes(h, "big"))


def group_hashseed(seed: int, group: int) -> int:
    """Interpreter hash seed of a group; group 0 runs without hash randomisation."""
    if group == 0:
        return 0
    h = hashlib.blake2b(f"hash/{seed}/{group}".encode(), digest_size=4).digest()
    return int.from_bytes(h, "big")


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    buf = io.StringIO()
    old = sys.stdout
    sys.stdout = buf
    try:
        yield buf
    finally:
        sys.stdout = old


def _on_prof(_sig, _frm):
    raise NoProgress


def run_case(check, case) -> dict:
    """Run one case in this process and return its result record."""
    env = Env()
    rec: dict = {"viol": None, "err": None}
    limit = getattr(check, "CPU_LIMIT", 20)
    old = signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        check.run(case, env)
    except Violation as v:
        rec["viol"] = {"kind": v.kind, "message": v.message}
        env.log("violation", v.kind)
    except NoProgress:
        rec["viol"] = {"kind": "no-progress",
                       "message": f"the run used more than {limit} s of CPU without ending"}
    except Exception:  # noqa: BLE001
        rec["err"] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    rec.update(digest=env.digest(), faults=env.faults, probes=env.probes,
               states=sorted(env.states), simtime=env.simtime, steps=env.steps,
               nontrivial=env.nontrivial)
    if rec["viol"] or rec["err"]:
        rec["trace"] = env.trace[-400:]
    return rec


def fork_call(fn, wall: float):
    """Run fn() in a forked child and return (status, value)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            value = fn()
            data = json.dumps(value, default=_jsonable).encode()
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
            code = 0
        except BrokenPipeError:
            pass
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = _real_monotonic() + wall
    status = "ok"
    while True:
        left = deadline - _real_monotonic()
        if left <= 0:
            status = "timeout"
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            status = "timeout"
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(r)
    if status == "timeout":
        with contextlib.suppress(ProcessLookupError, PermissionError):
            os.killpg(pid, signal.SIGKILL)
        with contextlib.suppress(ProcessLookupError):
            os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(pid, signal.SIGKILL)
    if status == "timeout":
        return "timeout", None
    try:
        return "ok", json.loads(b"".join(chunks))
    except ValueError:
        return "died", st


def run_cases_forked(check, cases: list) -> dict:
    """Run cases one after another in one fresh child; the last record counts."""
    wall = getattr(check, "WALL_LIMIT", 60) + 2 * len(cases)

    def go():
        rec = None
        for c in cases:
            rec = run_case(check, c)
            if rec["err"]:
                break
        return rec

    status, rec = fork_call(go, wall)
    if status == "ok":
        return rec
    kind = "hang" if status == "timeout" else "process-died"
    return {"viol": {"kind": kind, "message": f"the simulated process: {status} ({rec})"},
            "err": None, "digest": status, "faults": {}, "probes": {}, "states": [],
            "simtime": 0, "steps": 0, "nontrivial": None, "trace": []}


# --------------------------------------------------------------------------- host


def host_main(check, prop: str, seed: int, tier: str, group: int, runs: int,
              deadline: float) -> None:
    """Run every batch of one group, each in a forked child, printing records."""
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = io.StringIO()
    # Anything the code under test or a child prints goes nowhere near the protocol.
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    with contextlib.redirect_stdout(io.StringIO()):
        warm = getattr(check, "warm", None)
        if warm:
            warm(tier)
    batch = check.PLAN[tier].get("batch", 1)
    nb = (runs + batch - 1) // batch
    wall = getattr(check, "WALL_LIMIT", 60)
    for b in range(group, nb, GROUPS):
        if _real_time() > deadline:
            out.write(json.dumps({"type": "cut", "batch": b}) + "\n")
            out.flush()
            break
        idxs = list(range(b * batch, min(runs, (b + 1) * batch)))

        def go(idxs=idxs):
            res = []
            for i in idxs:
                case = check.gen(case_rng(seed, prop, i), i, tier)
                rec = run_case(check, case)
                rec["index"] = i
                res.append(rec)
                if rec["viol"] or rec["err"]:
                    break
            return res

        status, recs = fork_call(go, wall + 2.0 * len(idxs))
        if status != "ok":
            # Find which case does it, alone in a fresh child.
            recs = []
            for i in idxs:
                case = check.gen(case_rng(seed, prop, i), i, tier)
                rec = run_cases_forked(check, [case])
                rec["index"] = i
                recs.append(rec)
                if rec["viol"] or rec["err"]:
                    break
            else:
                recs.append({"viol": None, "index": idxs[-1], "digest": "", "faults": {},
                             "probes": {}, "states": [], "simtime": 0, "steps": 0,
                             "nontrivial": None,
                             "err": f"batch {b} {status} but no case does so alone"})
        for rec in recs:
            rec["type"] = "rec"
            out.write(json.dumps(rec, default=_jsonable) + "\n")
        out.flush()
    out.write(json.dumps({"type": "end"}) + "\n")
    out.flush()


def spawn(args: list[str], hashseed: int, stdin=None, **kw) -> subprocess.Popen:
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
               OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               MPLBACKEND="Agg", LC_ALL="C.UTF-8")
    return subprocess.Popen(
        [sys.executable, "-P", os.path.join(VERIF, "sim", "main.py"), *args],
        cwd=VERIF, env=env, stdout=subprocess.PIPE, stdin=stdin, text=True, **kw)


# ----------------------------------------------------------------------- minimise


def minimise(check, cases: list, kind: str, budget_s: float, budget_n: int):
    """Greedy shrink of the failing run while the same kind of violation persists."""
    t0 = _real_monotonic()
    tried = 0

    def fails(cs):
        nonlocal tried
        tried += 1
        rec = run_cases_forked(check, cs)
        return rec if rec["viol"] and rec["viol"]["kind"] == kind else None

    best = fails(cases)
    if best is None:
        return None, tried
    # Drop earlier cases first (they matter only if state leaks between runs).
    while len(cases) > 1:
        for n in range(len(cases) - 1):
            cand = cases[:n] + cases[n + 1:]
            rec = fails(cand)
            if rec:
                cases, best = cand, rec
                break
        else:
            break
        if _real_monotonic() - t0 > budget_s:
            break
    shrink = getattr(check, "shrink", None)
    progress = shrink is not None
    while progress and _real_monotonic() - t0 < budget_s and tried < budget_n:
        progress = False
        for cand in shrink(cases[-1]):
            if _real_monotonic() - t0 > budget_s or tried >= budget_n:
                break
            if cand == cases[-1]:
                continue
            rec = fails([*cases[:-1], cand])
            if rec:
                cases, best, progress = [*cases[:-1], cand], rec, True
                break
    return (cases, best), tried


def shrink_list(xs: list, keep: int = 0):
    """Candidates with chunks of a list removed, big chunks first."""
    n = len(xs)
    size = max(1, n // 2)
    while size >= 1:
        for i in range(0, n, size):
            cand = xs[:i] + xs[i + size:]
            if len(cand) >= keep and len(cand) < n:
                yield cand
        if size == 1:
            break
        size //= 2
