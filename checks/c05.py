"""C05: what a stage does to its inputs in place is seen by nobody else."""

from __future__ import annotations

from checks import c01
from sim import core, machine, space

PLAN = {"quick": {"runs": 6000, "batch": 50}, "thorough": {"runs": 400000, "batch": 50}}
RULE = ("A run is a history (with faults in a third of the runs) over stages that change "
        "their inputs in place, pass them on as outputs, or keep references and change "
        "them during later stages; one run in twenty is instead an InstanceSpace whose "
        "plugin stages overwrite every array, frame and option they are given. "
        "Non-trivial: some stage changes an input in place; distinct by the whole case.")
STATE_MEASURE = "distinct model states (which execution of each stage is current)"
REAL = [*c01.REAL, "instancespace.instance_space", "instancespace.data.options",
        "instancespace.data.metadata"]
STUB = c01.STUB
ASSUMPTIONS = ["a stage does not change the outputs it has returned",
               "the caller does not change data the runner has handed out"]
MUST_FIRE = ["scribble", "late_scribble", "stage_raises_middle", "space_scribbled"]


def warm(tier):
    c01.warm(tier)
    space.warm()


def gen(rng, index, tier):
    if rng.random() < 0.05:
        return space.gen_scribble(rng)
    return machine.gen_case(rng, faults=rng.random() < 0.33, isolation=True, max_ops=9)


def run(case, env):
    if case.get("space"):
        space.run_scribble(case, env)
        env.nontrivial = core.hashlib.md5(repr(case).encode()).hexdigest()
        return
    m = machine.Machine(case, env)
    m.run()
    if any(s.get("mutates") for s in case["spec"]["stages"]):
        env.probe("scribble")
        env.nontrivial = core.hashlib.md5(repr(case).encode()).hexdigest()
    if m.world.kept:
        env.probe("late_scribble")


def shrink(case):
    if case.get("space"):
        return space.shrink_scribble(case)
    return machine.shrink(case)
