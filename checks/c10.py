"""C10: parallel processing changes speed only, and worker loss is reported."""

from __future__ import annotations

import hashlib

from sim import ambient, canon, core, pipeline, procpool, threads
from sim.core import Violation

PLAN = {"quick": {"runs": 480, "batch": 3}, "thorough": {"runs": 24000, "batch": 6}}
RULE = ("A run draws a small space whose features reach the genetic selection, or whose "
        "PYTHIA search is run, and computes it with parallel processing off and then on, "
        "with 1-8 cores, under a drawn order of worker processes; half the runs kill a "
        "worker at a drawn task (before or after its work) or make a fitness evaluation "
        "raise at a drawn line, and then run once more without the fault. Non-trivial: at "
        "least two worker processes took tasks; distinct by the whole case.")
STATE_MEASURE = "distinct orders in which the first tasks finished, by stage and cores"
REAL = ["instancespace.stages.sifted, pythia, pilot, prelim, preprocessing", "pygad",
        "sklearn and skopt searches", "joblib.Parallel and its loky backend's Python code",
        "memory of each worker process (forked)"]
STUB = ["process pool executors (one task at a time, order drawn)", "clock and threads",
        "skopt's surrogate model (random search in place of the Gaussian process)"]
ASSUMPTIONS = ["tasks of sklearn's searches are sklearn's own code: they die, but do not raise"]
MUST_FIRE = ["genetic_parallel", "search_parallel", "bayes_parallel", "worker_process_dies",
             "task_fault", "finished_out_of_order", "rerun_ok", "fresh_workers"]
WALL_LIMIT = 200
CPU_LIMIT = 90
MIN_S = 100


def warm(tier):
    from checks import c09

    c09.warm_reference()
    import joblib._parallel_backends  # noqa: F401
    import joblib.parallel  # noqa: F401


def gen(rng, index, tier):
    ga = rng.random() < 0.6
    spec = pipeline.gen_spec(rng, "sifted" if ga else "pythia")
    spec["missing"] = 0.0
    spec["junk_rows"] = 0
    if ga:
        spec["nf"], spec["na"] = rng.randint(5, 8), rng.randint(3, 5)
        spec["selvars"] = {}
        spec["sifted"]["sol_per_pop"] = rng.choice([3, 4, 6])
    else:
        spec["nf"] = rng.choice([2, 3])
        spec["pythia"]["use_grid_search"] = rng.random() < 0.7
        spec["perf"] = {**spec["perf"], "epsilon": 0.6}
    case = {"spec": spec, "cores": rng.choice([1, 2, 2, 3, 4, 8]),
            "cpus": rng.choice([1, 2, 8, 64]), "seed": rng.getrandbits(31),
            "procs": {"fresh": rng.random() < 0.5, "slow": rng.choice([0.001, 0.05, 5.0])},
            "plan": {"seed": rng.getrandbits(40), "rate": rng.choice([0, 0, 0.0005]),
                     "policy": rng.choice(["random", "prio", "newest", "oldest"]),
                     "opcodes": False, "stall": 0}}
    if rng.random() < 0.5:
        reach = rng.choice([2, 6, 12]) if ga else rng.choice([2, 20, 150])
        n = rng.randint(1, 2)
        if not ga or rng.random() < 0.5:
            case["procs"]["die"] = {str(rng.randint(1, reach)): rng.choice(["before", "after"])
                                    for _ in range(n)}
        else:
            case["procs"]["task_faults"] = {
                str(rng.randint(1, reach)): [rng.choice([1, 5, 20, 60, 150]) +
                                             rng.randint(0, 4),
                                             rng.choice(sorted(procpool.EXC))]
                for _ in range(n)}
    return case


def build(case, env, plan, parallel, procs, cpus):
    """One outcome of the case's stages."""
    spec = case["spec"]
    with threads.simulated(plan, env, cpus) as sched, ambient.entropy(case["seed"]), \
            procpool.processes(procs, sched, env) as world:
        ambient.seed_globals(case["seed"])
        try:
            out = pipeline.outcome(lambda: pipeline.run_space(
                pipeline.make_space(spec, parallel), spec))
        except (threads.SimDeadlock, core.NoProgress):
            raise
        except BaseException as e:  # noqa: BLE001  (a stage may end with SystemExit)
            out = ("err", type(e).__name__, e)
    return out, world


def run(case, env):
    spec = case["spec"]
    plain = core.Env()
    want, _ = build(case, plain, ambient.PLAIN, (False, 2), {}, 8)
    try:
        got, world = build(case, env, case["plan"], (True, case["cores"]), case["procs"],
                           case["cpus"])
    except threads.SimDeadlock:
        raise Violation("deadlock", "the stage waits forever for its workers") from None
    env.log(want[0], got[0], canon.digest(got[1]), world.tasks)
    if world.tasks:
        if spec["kind"] == "sifted":
            env.probe("genetic_parallel")
        else:
            env.probe("search_parallel")
            if not spec["pythia"]["use_grid_search"]:
                env.probe("bayes_parallel")
    if world.order != sorted(world.order):
        env.probe("finished_out_of_order")
    if case["procs"]["fresh"] and world.tasks:
        env.probe("fresh_workers")
    env.state((spec["kind"], case["cores"], tuple(world.order[:8])))
    if world.tasks and case["cores"] > 1:
        env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
    lost = world.died or world.raised
    if lost:
        env.probe("worker_loss" if world.died else "task_fault")
        if got[0] == "ok":
            if got[1] != want[1]:
                raise Violation("dropped", f"{lost} worker task(s) were lost, but the stage "
                                "returned a result that differs from the true one: "
                                + "; ".join(canon.diff(want[1], got[1]))[:1200])
            env.probe("tolerated")
        else:
            env.probe("reported")
        try:
            again, w2 = build(case, core.Env(), {**case["plan"], "rate": 0},
                              (True, case["cores"]), {"fresh": case["procs"]["fresh"]},
                              case["cpus"])
        except threads.SimDeadlock:
            raise Violation("deadlock", "after a lost worker, the next run hangs") from None
        compare(want, again, "after a run that lost a worker, with "
                f"{case['cores']} cores", "rerun")
        env.probe("rerun_ok")
        return
    compare(want, got, f"parallel processing with {case['cores']} cores", "differs")


def compare(want, got, what, kind):
    if want[:2] == got[:2]:
        return
    if want[0] == got[0] == "ok":
        raise Violation(kind, f"{what} gave another result than parallel processing off: "
                        + "; ".join(canon.diff(want[1], got[1]))[:1200])
    raise Violation(kind, f"{what}: {got[0]} {got[2] if got[0] == 'err' else ''}; parallel "
                    f"processing off: {want[0]} {want[2] if want[0] == 'err' else ''}"[:800])


def shrink(case):
    p = case["procs"]
    for k in ("die", "task_faults"):
        for t in list(p.get(k, {})):
            yield {**case, "procs": {**p, k: {a: b for a, b in p[k].items() if a != t}}}
    if case["plan"]["rate"]:
        yield {**case, "plan": {**case["plan"], "rate": 0}}
    if case["plan"]["policy"] != "oldest":
        yield {**case, "plan": {**case["plan"], "policy": "oldest"}}
    if case["cores"] > 2:
        yield {**case, "cores": 2}
    if p.get("fresh"):
        yield {**case, "procs": {**p, "fresh": False}}
    s = case["spec"]
    if s["kind"] == "sifted" and s["sifted"]["num_generations"] > 1:
        yield {**case, "spec": {**s, "sifted": {**s["sifted"], "num_generations": 1}}}
    if s["na"] > 2:
        yield {**case, "spec": {**s, "na": s["na"] - 1}}
    if s["dup"]:
        yield {**case, "spec": {**s, "dup": 0}}
    if s["selvars"]:
        yield {**case, "spec": {**s, "selvars": {}}}
