"""C06: a model is only ever that of one complete build, and of the latest."""

from __future__ import annotations

from sim import core, space

PLAN = {"quick": {"runs": 3200, "batch": 25}, "thorough": {"runs": 160000, "batch": 25}}
RULE = ("A run is a history of 4-20 operations (build, model, run_stage, run_until_stage, "
        "run_iter, going on with an iterator, editing the metadata) on one or two InstanceSpaces whose 2-5 synthetic "
        "stages make every value a Model holds; a third of the operations get a stage "
        "failure or an interrupt. Non-trivial: a build, and either a fault, a second build "
        "or another operation between builds; distinct by the whole case.")
STATE_MEASURE = "distinct (operation, fault fired, outcome, model known) situations"
REAL = ["instancespace.instance_space", "instancespace.model", "instancespace.data.model",
        "instancespace.stage_builder", "instancespace.stage_runner"]
STUB = ["stage bodies are synthetic; together they output every value a Model is made of"]
ASSUMPTIONS = ["operations on one InstanceSpace are issued one at a time"]
MUST_FIRE = ["build_ok", "build_failed", "model_ok", "model_refused",
             "interrupt_KeyboardInterrupt", "stage_raises_start", "interleaved_spaces",
             "failed_after_model"]


def warm(tier):
    space.warm()


def gen(rng, index, tier):
    return space.gen_life(rng)


def run(case, env):
    space.run_life(case, env)
    if sum(op["op"] == "build" for op in case["ops"]) > 1 or env.faults:
        env.nontrivial = core.hashlib.md5(repr(case).encode()).hexdigest()


shrink = space.shrink_life
