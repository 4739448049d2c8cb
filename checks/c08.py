"""C08: a failing TRACE worker always surfaces."""

from __future__ import annotations

import hashlib

from sim import canon, threads, traceworld
from sim.core import Violation

PLAN = {"quick": {"runs": 5000, "batch": 20}, "thorough": {"runs": 250000, "batch": 60}}
RULE = ("A run draws an instance space, worker count and schedule as C07 does, then makes "
        "one to four workers raise at a chosen line of the library's code (eight ordinary "
        "exception types and one BaseException), or makes chosen thread starts fail, and "
        "afterwards runs TRACE again without faults. Non-trivial: at least one fault fired; "
        "distinct by inputs, schedule and faults.")
STATE_MEASURE = "distinct (function, line) where a worker failed, and preempted points"
REAL = ["instancespace.stages.trace (all of it)", "instancespace.data.model.Footprint",
        "concurrent.futures and threading Python code", "alphashape", "shapely", "numpy",
        "pandas"]
STUB = ["locks, thread start, time.*, os.cpu_count (simulated)"]
ASSUMPTIONS = ["a worker fails at a line of instancespace; faults inside C extensions surface "
               "at the calling line"]
MUST_FIRE = ["worker_fault", "worker_faults_several", "thread_start_fails",
             "base_exception", "rerun_ok"]
WALL_LIMIT = 90
CPU_LIMIT = 40


def warm(tier):
    traceworld.warm()


def gen(rng, index, tier):
    spec = traceworld.gen_inputs(rng)
    spec["mix"] = rng.choice([0.0, 0.0, 0.0, spec["mix"]])
    plan = traceworld.gen_plan(rng)
    if rng.random() < 0.12:
        plan["start_fail"] = sorted(rng.sample(range(1, 5), rng.randint(1, 2)))
    if "start_fail" not in plan or rng.random() < 0.2:
        plan["line_faults"] = {}
        reach = rng.choice([20, 200, 3000, 12000])
        for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
            kind = rng.choice(sorted(threads.EXC)) if rng.random() < 0.9 else "WorkerBaseFault"
            plan["line_faults"][str(rng.randint(1, reach))] = kind
    return {"inputs": spec, "plan": plan, "n_cores": rng.choice([1, 2, 2, 3, 4, 6, 8, 16]),
            "cpus": rng.choice([1, 2, 3, 4, 8, 64]), "flag": rng.random() < 0.5}


def run(case, env):
    got, sched = traceworld.outcome(case, case["n_cores"], case["plan"], env, case["cpus"])
    fired = sched.fired
    env.log("outcome", got[0], len(fired))
    for f in sched.preempted[:100]:
        env.state((*f, len(sched.threads)))
    raised = [e for e in fired if str(e) != "can't start new thread"]
    if raised:
        env.probe("worker_fault")
    if len(raised) > 1:
        env.probe("worker_faults_several")
    if any(isinstance(e, threads.WorkerBaseFault) for e in fired):
        env.probe("base_exception")
    if not fired:
        env.probe("no_fault_reached")
        return
    env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
    ref, _ = traceworld.outcome(case, 1, None, env, 8)
    names = ", ".join(sorted({type(e).__name__ for e in fired}))
    if got[0] == "ok":
        # Only acceptable when nothing was lost: an exact result in spite of the fault.
        if ref[0] != "ok" or ref[1] != got[1]:
            what = "; ".join(canon.diff(ref[1], got[1])) if ref[0] == "ok" else "error expected"
            raise Violation("dropped", f"a worker failed ({names}) but TRACE returned a result "
                            f"that differs from the true one: {what}")
        env.probe("tolerated")
    else:
        seen = traceworld.chain(got[1])
        mine = [e for e in fired if any(e is s or (type(e) is type(s) and e.args == s.args)
                                        for s in seen)]
        own = ref[0] == "err" and type(ref[1]) is type(got[1])
        if not mine and not own:
            raise Violation("masked", f"a worker failed with {names} but TRACE raised "
                            f"{type(got[1]).__name__}: {got[1]}"[:300])
        env.probe("reported")
    again, _ = traceworld.outcome(case, case["n_cores"], None, env, case["cpus"])
    if again[0] != ref[0] or (ref[0] == "ok" and again[1] != ref[1]) or (
            ref[0] == "err" and type(again[1]) is not type(ref[1])):
        raise Violation("rerun", f"after a run in which a worker failed ({names}), TRACE gave "
                        "another outcome than normal")
    env.probe("rerun_ok")


shrink = traceworld.shrink
