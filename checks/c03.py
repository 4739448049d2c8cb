"""C03: every history of run, rerun, iterate and stop uses current results."""

from __future__ import annotations

from checks import c01
from sim import core, machine

PLAN = {"quick": {"runs": 8000, "batch": 50}, "thorough": {"runs": 500000, "batch": 50}}
RULE = ("A run is a random history of 3-40 operations (run_all, run_iter steps, run_stage "
        "with and without overrides, run_until_stage, abandoned and interleaved iterators) "
        "on one or two runners over a random set of stages. Non-trivial: at least one "
        "stage runs again after later stages ran; distinct by the whole case.")
STATE_MEASURE = "distinct model states (which execution of each stage is current)"
REAL = c01.REAL
STUB = c01.STUB
ASSUMPTIONS = ["operations on one runner are issued one at a time (no caller threads)",
               "an operation may be refused unless every earlier stage was run in order"]
MUST_FIRE = ["all_ok", "stage_ok", "stage_refused", "next_ok", "until_ok", "reran",
             "two_runners", "none_override"]
warm = c01.warm


def gen(rng, index, tier):
    return machine.gen_case(rng)


def run(case, env):
    m = machine.Machine(case, env)
    if case["runners"] > 1:
        env.probe("two_runners")
    m.run()
    if max(m.world.count.values(), default=0) > 2:
        env.probe("reran")
        env.nontrivial = core.hashlib.md5(repr(case).encode()).hexdigest()


shrink = machine.shrink
