"""Everything around a build that must not matter: entropy, global generators, clock."""

from __future__ import annotations

import contextlib
import os
import random
import sys
import tempfile

import numpy as np

from sim import threads


@contextlib.contextmanager
def entropy(seed: int):
    """Operating-system entropy comes from a seeded generator."""
    import numpy.random.bit_generator as bg

    rng = random.Random(f"entropy/{seed}")
    saved = (bg.randbits, random._urandom, os.urandom)
    take = lambda n: rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""  # noqa: E731
    used = [0]

    def bits(k):
        used[0] += 1
        return rng.getrandbits(k)

    def urandom(n):
        used[0] += 1
        return take(n)

    bg.randbits, random._urandom, os.urandom = bits, urandom, urandom
    try:
        yield used
    finally:
        bg.randbits, random._urandom, os.urandom = saved


def seed_globals(seed: int) -> None:
    random.seed(seed)
    np.random.seed(seed & 0xFFFFFFFF)


class LineFault(Exception):
    pass


@contextlib.contextmanager
def fail_at_line(n: int, exc: BaseException | None = None):
    """The n-th line of the library executed inside raises LineFault (or exc)."""
    from sim import loader

    mon = sys.monitoring
    left = [n]

    def cb(_code, _line):
        if left[0] == 1 and loader.in_cleanup(sys._getframe(1)):
            return  # wait for a line where failing is fair
        left[0] -= 1
        if left[0] == 0:
            raise exc or LineFault("injected in an earlier build")

    mon.use_tool_id(3, "fault")
    mon.register_callback(3, mon.events.LINE, cb)
    for c in loader.CODES:
        mon.set_local_events(3, c, mon.events.LINE)
    try:
        yield left
    finally:
        for c in loader.CODES:
            mon.set_local_events(3, c, 0)
        mon.register_callback(3, mon.events.LINE, None)
        mon.free_tool_id(3)


@contextlib.contextmanager
def elsewhere():
    """Another, empty working directory."""
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(here)


PLAIN = {"seed": 0, "rate": 0.0, "policy": "oldest", "opcodes": False, "stall": 0}

__all__ = ["PLAIN", "LineFault", "elsewhere", "entropy", "fail_at_line", "seed_globals",
           "threads"]
