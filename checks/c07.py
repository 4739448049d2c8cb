"""C07: TRACE's result does not depend on threads, workers or clock."""

from __future__ import annotations

import hashlib

from sim import canon, traceworld
from sim.core import Violation

PLAN = {"quick": {"runs": 2400, "batch": 12}, "thorough": {"runs": 120000, "batch": 40}}
RULE = ("A run draws an instance space (8-42 instances, 1-6 algorithms, separated to fully "
        "mixed regions, duplicates), a worker count (n_cores 1-16, machine CPUs 1-64) and a "
        "schedule (switch rate per line or bytecode, choice policy, stalls and clock "
        "jumps), and compares the outcome with one worker run without preemption. "
        "Non-trivial: at least two workers were preempted into each other or finished out "
        "of order; distinct by inputs and schedule.")
STATE_MEASURE = "distinct (preempted function, line, threads started) points reached"
REAL = ["instancespace.stages.trace (all of it)", "instancespace.data.model.Footprint",
        "concurrent.futures and threading Python code", "alphashape", "shapely", "numpy",
        "pandas"]
STUB = ["locks, thread start, time.*, os.cpu_count (simulated)"]
ASSUMPTIONS = ["switches happen at lines or bytecodes of instancespace and at lock operations; "
               "C extensions (numpy, shapely) run without a switch inside"]
MUST_FIRE = ["preempted", "clock_jump", "worker_stalled", "out_of_order"]
WALL_LIMIT = 90
CPU_LIMIT = 40


def warm(tier):
    traceworld.warm()


def gen(rng, index, tier):
    return {"inputs": traceworld.gen_inputs(rng), "plan": traceworld.gen_plan(rng),
            "n_cores": rng.choice([1, 2, 2, 3, 4, 4, 6, 8, 16]),
            "cpus": rng.choice([1, 2, 3, 4, 8, 64]), "flag": rng.random() < 0.5}


def run(case, env):
    ref, _ = traceworld.outcome(case, 1, None, env, 8)
    got, sched = traceworld.outcome(case, case["n_cores"], case["plan"], env, case["cpus"])
    env.log("outcome", ref[0], got[0], canon.digest(got[1]) if got[0] == "ok" else
            type(got[1]).__name__)
    for f in sched.preempted[:200]:
        env.state((*f, len(sched.threads)))
    env.probe("ended_ok" if ref[0] == "ok" else "ended_with_error")
    if len(sched.threads) > 2:
        env.probe("several_workers")
    if sched.ends != sorted(sched.ends):
        env.probe("out_of_order")
    if len(sched.threads) > 2 and (sched.preempted or sched.ends != sorted(sched.ends)):
        env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
    compare(ref, got, case)


def compare(ref, got, case):
    where = f"{case['n_cores']} workers on {case['cpus']} CPUs"
    if ref[0] != got[0]:
        raise Violation("outcome", f"one worker: {short(ref)}; {where}: {short(got)}")
    if ref[0] == "err":
        if type(ref[1]) is not type(got[1]):
            raise Violation("outcome", f"one worker: {short(ref)}; {where}: {short(got)}")
        return
    if ref[1] != got[1]:
        raise Violation("footprints", f"{where} gave another result than one worker: "
                        + "; ".join(canon.diff(ref[1], got[1])))


def short(o):
    return "a result" if o[0] == "ok" else f"{type(o[1]).__name__}: {o[1]}"[:200]


shrink = traceworld.shrink
