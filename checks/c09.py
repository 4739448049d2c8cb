"""C09: a build is a pure function of metadata and options."""

from __future__ import annotations

import contextlib
import hashlib

import numpy as np

from sim import ambient, canon, core, pipeline, threads
from sim.core import Violation
from sim.zygote import Zygote

PLAN = {"quick": {"runs": 640, "batch": 4}, "thorough": {"runs": 30000, "batch": 8,
                                                         "soft_wall": 3 * 3600}}
RULE = ("A run draws a small instance space and options (26-46 instances, 2-7 features, 2-5 "
        "algorithms, missing values, every option that switches a code path) and computes "
        "its build, or its first three or four stages, twice: in a fresh process of another "
        "interpreter with another hash seed, and after a drawn history (other builds, the "
        "same build, builds of the same metadata and options objects, failed builds) with "
        "drawn ambient state (global generators, OS entropy, CPU count, thread schedule, "
        "clock jumps and stalls, working directory). Non-trivial: the result is not an "
        "error; distinct by the whole case.")
STATE_MEASURE = "distinct combinations of options and code paths (kind, stage switches, GA)"
REAL = ["all of instancespace.stages, instance_space, stage_builder, stage_runner, data",
        "numpy, scipy, pandas, sklearn, pygad, alphashape, shapely"]
STUB = ["clock, thread scheduling, CPU count, OS entropy (simulated)",
        "skopt's surrogate model (random search in place of the Gaussian process, except in "
        "some thorough runs)"]
ASSUMPTIONS = ["one machine: other BLAS kernels or CPU types may round differently"]
MUST_FIRE = ["genetic", "bayes", "numerical_pilot", "analytic_pilot", "earlier_build",
             "earlier_failure", "shared_objects", "small_scale", "weights", "polynomial"]
WALL_LIMIT = 200
CPU_LIMIT = 120
MIN_S = 100

_Z = None


def warm_reference():
    pipeline.warm()
    import skopt.searchcv

    real = skopt.searchcv.Optimizer

    class Light(real):
        """The same optimizer with a dummy surrogate, unless a run wants the real one."""

        heavy = False

        def __init__(self, *a, **k):
            if not Light.heavy:
                k["base_estimator"] = "dummy"
            super().__init__(*a, **k)

    if real.__name__ != "Light":
        skopt.searchcv.Optimizer = Light


def warm(tier):
    global _Z
    warm_reference()
    if _Z is None:
        _Z = Zygote("checks.c09", 424242)


def gen(rng, index, tier):
    spec = pipeline.gen_spec(rng)
    if spec["kind"] == "all" and rng.random() < 0.3:
        spec["pythia"]["use_grid_search"] = False
    hist = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        r = rng.random()
        h: dict = {"shared": r < 0.35}
        if r >= 0.35:
            h["spec"] = pipeline.gen_spec(rng, rng.choice(["sifted", "pilot", "pilot", "all"]))
            if r < 0.5:
                h["spec"] = spec
        if rng.random() < 0.5:
            h["fail"] = rng.choice([30, 300, 1500, 4000]) + rng.randint(0, 200)
        hist.append(h)
    heavy = tier == "thorough" and rng.random() < 0.01
    return {"spec": spec, "history": hist, "seed": rng.getrandbits(31),
            "entropy": rng.getrandbits(30), "cpus": rng.choice([1, 2, 8, 64]),
            "cwd": rng.random() < 0.5, "heavy": heavy,
            "plan": {"seed": rng.getrandbits(40), "rate": rng.choice([0, 0.0005, 0.005]),
                     "policy": rng.choice(["random", "prio", "newest"]), "opcodes": False,
                     "stall": rng.choice([0, 0.2])}}


def reference(case):
    """In a pristine process: ('ok', canon) or ('err', type name)."""
    env = core.Env()
    spec = case["spec"]
    heavy(case)
    ambient.seed_globals(12345)
    with ambient.entropy(0), threads.simulated(ambient.PLAIN, env, 8):
        o = pipeline.outcome(lambda: pipeline.run_space(pipeline.make_space(spec), spec))
    return o[:2]


def heavy(case):
    import skopt.searchcv

    skopt.searchcv.Optimizer.heavy = case["heavy"]


def run(case, env):
    spec = case["spec"]
    heavy(case)
    want = _Z.call(case)
    shared = None
    with contextlib.ExitStack() as st:
        if case["cwd"]:
            st.enter_context(ambient.elsewhere())
            env.probe("other_cwd")
        st.enter_context(ambient.entropy(case["entropy"]))
        sched = st.enter_context(threads.simulated(case["plan"], env, case["cpus"]))
        ambient.seed_globals(case["seed"])
        md, opts = pipeline.make_metadata(spec), pipeline.make_options(spec)
        for h in case["history"]:
            shared = history(h, md, opts, spec, env) or shared
        got = pipeline.outcome(lambda: pipeline.run_space(
            pipeline.make_space(spec, md=md, opts=opts), spec))
        if sched.alive():
            raise Violation("thread-left", f"worker threads {sched.alive()} still run")
    env.log(got[0], canon.digest(got[1]))
    probes(spec, got, env)
    if got[0] == "ok":
        env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
    if got[:2] != tuple(want):
        if got[0] == want[0] == "ok":
            what = "; ".join(canon.diff(want[1], got[1]))
        else:
            what = f"{want[0]} {want[1] if want[0] == 'err' else ''} became " \
                   f"{got[0]} {got[2] if got[0] == 'err' else ''}"
        raise Violation("differs", "the same metadata and options gave another result: "
                        + what[:1500])


def history(h, md, opts, spec, env):
    """One earlier use of the library in this process; its outcome does not matter."""
    sp = spec if h["shared"] else h["spec"]
    env.probe("shared_objects" if h["shared"] else "earlier_build")

    def go():
        space = pipeline.make_space(sp, md=md, opts=opts) if h["shared"] else \
            pipeline.make_space(sp)
        return pipeline.run_space(space, sp)

    if h.get("fail"):
        with core.quiet(), np.errstate(all="ignore"), ambient.fail_at_line(h["fail"]) as left:
            try:
                go()
            except core.NoProgress:
                raise
            except Exception:  # noqa: BLE001
                pass
        if left[0] <= 0:
            env.probe("earlier_failure")
            env.fault("earlier_build_fails")
    else:
        pipeline.outcome(go)
    return h["shared"]


def probes(spec, got, env):
    path = [spec["kind"], spec["auto"], spec["bound"], spec["norm"],
            sorted(spec["selvars"].items()), spec["pilot"]["analytic"],
            sorted(spec["pythia"].items()) if spec["kind"] == "all" else 0,
            spec["trace"]["use_sim"]]
    ga = False
    if got[0] == "ok":
        v = got[2]
        sift = v.sifted if spec["kind"] == "all" else dict(v)["SiftedStage"]
        ga = getattr(sift, "clust", None) is not None
        if ga:
            env.probe("genetic")
        if spec["kind"] != "sifted":
            env.probe("analytic_pilot" if spec["pilot"]["analytic"] else "numerical_pilot")
        if spec["kind"] == "all":
            env.probe("grid" if spec["pythia"]["use_grid_search"] else "bayes")
            if spec["pythia"]["use_weights"]:
                env.probe("weights")
            if spec["pythia"]["is_poly_krnl"]:
                env.probe("polynomial")
        if spec["selvars"].get("small_scale_flag"):
            env.probe("small_scale")
        if spec["selvars"].get("density_flag"):
            env.probe("density")
    else:
        env.probe("error_" + got[1])
    env.state((path, ga, got[0]))


def shrink(case):
    h = case["history"]
    for i in range(len(h)):
        yield {**case, "history": h[:i] + h[i + 1:]}
    if case["plan"]["rate"]:
        yield {**case, "plan": {**case["plan"], "rate": 0, "stall": 0}}
    if case["cwd"]:
        yield {**case, "cwd": False}
    if case["seed"] != 12345:
        yield {**case, "seed": 12345}
    if case["entropy"]:
        yield {**case, "entropy": 0}
    if case["cpus"] != 8:
        yield {**case, "cpus": 8}
    s = case["spec"]
    for k in ("sifted", "pilot"):
        if s["kind"] != k and not (s["kind"] == "sifted" and k == "pilot"):
            yield {**case, "spec": {**s, "kind": k}}
    for k in ("missing", "dup", "junk_rows"):
        if s[k]:
            yield {**case, "spec": {**s, k: 0}}
    if s["selvars"]:
        yield {**case, "spec": {**s, "selvars": {}}}
    for i, x in enumerate(h):
        if x.get("fail"):
            yield {**case, "history": [*h[:i], {k: v for k, v in x.items() if k != "fail"},
                                       *h[i + 1:]]}
