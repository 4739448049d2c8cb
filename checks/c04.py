"""C04: a failure or interrupt anywhere in a run leaves nothing half-applied."""

from __future__ import annotations

from checks import c01
from sim import core, machine

PLAN = {"quick": {"runs": 8000, "batch": 50}, "thorough": {"runs": 500000, "batch": 50}}
RULE = ("A run is a C03 history in which about a third of the operations get one fault: an "
        "exception from a stage (before, amid or after its work) or MemoryError / "
        "KeyboardInterrupt at the n-th line the library executes, followed by a retry or "
        "by other operations, and at the end by a complete run. Non-trivial: at least one "
        "fault fired; distinct by the whole case.")
STATE_MEASURE = ("distinct interrupted source positions and model states (which execution "
                 "of each stage is current)")
REAL = c01.REAL
STUB = c01.STUB
ASSUMPTIONS = ["interrupts arrive at line boundaries of the library's own code",
               "after a failed operation, its effect may be there in full or not at all"]
MUST_FIRE = ["stage_raises_start", "stage_raises_middle", "stage_raises_end",
             "interrupt_KeyboardInterrupt", "interrupt_MemoryError", "all_ok", "stage_ok"]
warm = c01.warm


def gen(rng, index, tier):
    return machine.gen_case(rng, faults=True, max_ops=10)


def run(case, env):
    m = machine.Machine(case, env)
    m.run()
    if env.faults:
        env.nontrivial = core.hashlib.md5(repr(case).encode()).hexdigest()


shrink = machine.shrink
