"""TRACE under simulated threads: small instance spaces, one call per schedule."""

from __future__ import annotations

import random
import threading

import numpy as np

from sim import canon, core, threads
from sim.core import Violation

_TRACE = None


def warm() -> None:
    global _TRACE
    if _TRACE is None:
        from instancespace.data.options import ParallelOptions, TraceOptions
        from instancespace.stages.trace import TraceStage

        _TRACE = TraceStage, TraceOptions, ParallelOptions
        # The first call imports and caches what later calls only look up.
        case = {"inputs": gen_inputs(random.Random(1)), "n_cores": 1}
        with core.quiet():
            call(case, 1)


def gen_inputs(rng: random.Random) -> dict:
    k = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    return {"seed": rng.getrandbits(30), "n": rng.randint(8, 42), "algos": k,
            "spread": rng.choice([0.3, 0.6, 1.0]), "apart": rng.choice([0.0, 3.0, 6.0]),
            "mix": rng.choice([0.0, 0.0, 0.1, 0.5]), "sim": rng.random() < 0.5,
            "purity": rng.choice([0.3, 0.55, 0.75, 0.95]), "dup": rng.random() < 0.2}


def build_inputs(spec: dict) -> dict:
    rng = np.random.default_rng(spec["seed"])
    n, k = spec["n"], spec["algos"]
    home = np.sort(rng.integers(0, k, n))
    angle = 2 * np.pi * np.arange(k) / k
    centre = spec["apart"] * np.stack([np.cos(angle), np.sin(angle)], 1)
    z = centre[home] + spec["spread"] * rng.standard_normal((n, 2))
    if spec["dup"]:
        z[n // 2:] = z[: n - n // 2][: n - n // 2][: len(z[n // 2:])]
    p = np.where(rng.random(n) < spec["mix"], rng.integers(0, k, n), home)
    y = np.zeros((n, k), dtype=bool)
    y[np.arange(n), p] = True
    y |= rng.random((n, k)) < 0.25
    sel = np.where(rng.random(n) < spec["mix"], rng.integers(0, k, n), home)
    yh = y ^ (rng.random((n, k)) < 0.05)
    return {"z": z, "selection0": sel, "p": p, "beta": rng.random(n) < 0.6,
            "algo_labels": [f"a{i}" for i in range(k)], "y_hat": yh, "y_bin": y}


def call(case: dict, n_cores: int):
    stage, topt, popt = _TRACE
    spec = case["inputs"]
    fields = build_inputs(spec)
    fields["trace_options"] = topt.default(use_sim=spec["sim"], purity=spec["purity"])
    fields["parallel_options"] = popt.default(flag=case.get("flag", False), n_cores=n_cores)
    return stage._run(stage._inputs()(**fields))


def outcome(case: dict, n_cores: int, plan: dict | None, env, cpus: int):
    """('ok', canonical result) or ('err', exception); the scheduler used."""
    sched = None
    before = threading.active_count()
    with core.quiet(), np.errstate(all="ignore"):
        if plan is None:
            plan = {"seed": 0, "rate": 0.0, "policy": "oldest", "opcodes": False, "stall": 0}
            env = core.Env()
        try:
            with threads.simulated(plan, env, cpus) as sched:
                out = ("ok", call(case, n_cores))
        except threads.SimDeadlock:
            raise Violation("deadlock", "TRACE waits forever: every thread is blocked; "
                            f"workers left: {sched.alive()}") from None
        except core.NoProgress:
            raise
        except BaseException as e:  # noqa: BLE001
            if sched is None:
                raise
            out = ("err", e)
    left = sched.alive()
    if left:
        raise Violation("thread-left", f"TRACE ended with worker threads {left} still running")
    if threading.active_count() > before:
        raise Violation("thread-left", "TRACE ended with more threads registered than before")
    if out[0] == "ok":
        out = ("ok", canon.canon(out[1]), out[1])
    return out, sched


def gen_plan(rng: random.Random) -> dict:
    style = rng.random()
    if style < 0.15:
        rate = 0.0
    else:
        rate = rng.choice([0.001, 0.004, 0.02, 0.1])
    return {"seed": rng.getrandbits(40), "rate": rate,
            "policy": rng.choice(["random", "random", "prio", "newest", "oldest"]),
            "opcodes": rng.random() < 0.15, "stall": rng.choice([0, 0, 0.1, 0.5])}


def chain(e):
    seen = []
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or any(x is s for s in seen):
            continue
        seen.append(x)
        todo += [x.__cause__, x.__context__, *getattr(x, "exceptions", ())]
    return seen


def shrink(case):
    spec = case["inputs"]
    plan = case["plan"]
    for k in ("algos", "n"):
        low = 1 if k == "algos" else 8
        for v in (low, (spec[k] + low) // 2, spec[k] - 1):
            if low <= v < spec[k]:
                yield {**case, "inputs": {**spec, k: v}}
    for k in ("mix", "apart", "dup"):
        if spec[k]:
            yield {**case, "inputs": {**spec, k: 0 if k != "dup" else False}}
    for i in range(len(plan.get("start_fail", []))):
        yield {**case, "plan": {**plan, "start_fail": plan["start_fail"][:i]
                                + plan["start_fail"][i + 1:]}}
    for k in list(plan.get("line_faults", {})):
        yield {**case, "plan": {**plan, "line_faults": {
            a: b for a, b in plan["line_faults"].items() if a != k}}}
    if plan["stall"]:
        yield {**case, "plan": {**plan, "stall": 0}}
    if plan["opcodes"]:
        yield {**case, "plan": {**plan, "opcodes": False}}
    if plan["rate"]:
        yield {**case, "plan": {**plan, "rate": 0.0}}
        yield {**case, "plan": {**plan, "rate": plan["rate"] / 4}}
    if plan["policy"] != "oldest":
        yield {**case, "plan": {**plan, "policy": "oldest"}}
    if case["n_cores"] > 2:
        yield {**case, "n_cores": 2}
    if case["cpus"] != 2:
        yield {**case, "cpus": 2}
