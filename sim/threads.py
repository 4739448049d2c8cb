"""Simulated threads, locks and clock under the real threading and executor code.

Real OS threads run one at a time: each parks on its own baton and only the seeded
scheduler hands the baton on - at lock operations, at thread start and end, at sleeps, and
at lines (or single bytecodes) of the library's own code. `threading` and
`concurrent.futures` run their real Python code on top of the simulated primitives, so
pools, conditions, semaphores, events and queues are the real ones.
"""

from __future__ import annotations

import _thread
import contextlib
import gc
import os
import queue
import random
import sys
import threading
import time
from concurrent.futures import _base as cf_base
from concurrent.futures import thread as cf_thread

from sim import loader

real_allocate = _thread.allocate_lock
real_start = _thread.start_new_thread
real_ident = _thread.get_ident

TOOL = 4
CURRENT: "Sched | None" = None


class SimDeadlock(BaseException):
    """Every simulated thread waits for something that can never come."""


class _T:
    __slots__ = ("num", "baton", "pred", "deadline", "done", "ident", "prio", "started")

    def __init__(self, num, prio):
        self.num = num
        self.baton = real_allocate()
        self.baton.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.ident = None
        self.prio = prio
        self.started = 0


class Sched:
    """Decides who runs. All its choices come from one generator."""

    def __init__(self, plan: dict, env) -> None:
        self.rng = random.Random(plan["seed"])
        self.env = env
        self.rate = plan["rate"]  # probability of a switch at a line
        self.policy = plan["policy"]
        self.opcodes = plan["opcodes"]
        self.stall = plan["stall"]  # probability that a line takes hours
        self.start_fail = set(plan.get("start_fail", []))
        self.line_faults = {int(k): v for k, v in plan.get("line_faults", {}).items()}
        self.fired: list = []
        self.threads: list[_T] = []
        self.byid: dict = {}
        self.now = 1_000_000.0
        self.skew = 0.0
        self.starts = 0
        self.switches = 0
        self.events = 0
        self.worker_events = 0
        self.preempted: list = []
        self.ends: list = []  # task ends in time order, by thread
        self.dead = False
        self.left = 0
        self.arm()
        main = _T(0, self.rng.random())
        main.ident = real_ident()
        self.threads.append(main)
        self.byid[main.ident] = main

    def arm(self) -> None:
        if self.rate <= 0:
            self.left = -1
        else:
            self.left = 1 + int(self.rng.expovariate(self.rate))

    def me(self) -> "_T | None":
        return self.byid.get(real_ident())

    # ------------------------------------------------------------- switching

    def runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.pred is None or t.pred() or (t.deadline is not None
                                              and self.now >= t.deadline):
                out.append(t)
        return out

    def pick(self, ready):
        if len(ready) == 1:
            return ready[0]
        if self.policy == "random":
            return ready[self.rng.randrange(len(ready))]
        if self.policy == "oldest":
            return ready[0]
        if self.policy == "newest":
            return ready[-1]
        return max(ready, key=lambda t: t.prio)

    def give(self, me: _T) -> None:
        """Hand the baton to whoever is to run next; returns when it is `me` again."""
        ready = self.runnable()
        while not ready:
            waits = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
            if not waits:
                self.dead = True
                ready = [self.threads[0]]
                break
            self.now = max(self.now, min(waits))
            ready = self.runnable()
        nxt = self.pick(ready)
        if nxt is not me:
            self.switches += 1
            self.env.log("switch", nxt.num)
            nxt.baton.release()
            if me.done:
                return
            me.baton.acquire()
        if self.dead and me.num == 0:
            raise SimDeadlock

    def point(self) -> None:
        """A place where another thread may get to run."""
        me = self.me()
        if me is None or self.dead:
            return
        if self.policy == "prio" and self.rng.random() < 0.2:
            me.prio = self.rng.random()
        if self.policy in ("oldest", "newest") and self.rng.random() < 0.8:
            return
        self.give(me)

    def wait(self, pred, deadline=None) -> bool:
        me = self.me()
        if me is None:
            return pred()
        if self.dead:
            if me.num == 0:
                raise SimDeadlock
            raise SystemExit
        if pred():
            return True
        me.pred, me.deadline = pred, deadline
        try:
            self.give(me)
        finally:
            me.pred = me.deadline = None
        return pred()

    # --------------------------------------------------------------- threads

    def start_thread(self, fn, args, kwargs=None):
        self.starts += 1
        if self.starts in self.start_fail:
            self.env.fault("thread_start_fails")
            exc = RuntimeError("can't start new thread")
            self.fired.append(exc)
            raise exc
        t = _T(len(self.threads), self.rng.random())
        self.threads.append(t)

        def body():
            t.ident = real_ident()
            t.baton.acquire()
            self.byid[t.ident] = t
            try:
                fn(*args, **(kwargs or {}))
            finally:
                self.env.log("end", t.num)
                self.ends.append(t.num)
                t.done = True
                self.byid.pop(t.ident, None)
                if not self.dead:
                    self.give(t)

        real_start(body, ())
        self.env.log("start", t.num)
        self.point()
        return t.num

    def alive(self):
        return [t.num for t in self.threads[1:] if not t.done]

    # ----------------------------------------------------------------- lines

    def on_line(self, code, line):
        self.events += 1
        if self.line_faults:
            me = self.me()
            if me is not None and me.num != 0:
                self.worker_events += 1
                exc = self.line_faults.pop(self.worker_events, None)
                if exc is not None and loader.in_cleanup(sys._getframe(1)):
                    self.line_faults[self.worker_events + 1] = exc
                elif exc is not None:
                    err = EXC[exc]("injected in a worker")
                    self.fired.append(err)
                    self.env.fault(f"worker_raises_{exc}")
                    self.env.log("raise", me.num, code.co_name)
                    self.env.state(("raise", code.co_name, line - code.co_firstlineno))
                    raise err
        self.maybe_switch(code, line)

    def on_instruction(self, code, offset):
        self.events += 1
        self.maybe_switch(code, -offset)

    def maybe_switch(self, code, where):
        if self.left <= 0:
            return
        self.left -= 1
        if self.left:
            return
        me = self.me()
        if me is None or self.dead:
            self.left = 1
            return
        self.arm()
        if self.stall and self.rng.random() < self.stall:
            self.now += self.rng.choice([1.0, 120.0, 86400.0])
            self.env.fault("worker_stalled")
        if len(self.threads) > 1:
            if where > 0:
                where -= code.co_firstlineno
            self.preempted.append((code.co_name, where))
            self.env.fault("preempted")
            if self.policy == "prio":
                me.prio = self.rng.random()
            self.give(me)

    def monitor(self, on: bool) -> None:
        """Line (and bytecode) events of the code under test only, in every thread."""
        mon = sys.monitoring
        if not on:
            if mon.get_tool(TOOL) is None:
                return
            for c in loader.CODES:
                mon.set_local_events(TOOL, c, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
            mon.free_tool_id(TOOL)
            return
        if self.rate <= 0 and not self.line_faults:
            return
        events = mon.events.LINE
        if self.opcodes and self.rate > 0:
            events |= mon.events.INSTRUCTION
        mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, mon.events.LINE, self.on_line)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self.on_instruction)
        for c in loader.CODES:
            mon.set_local_events(TOOL, c, events)

    # ----------------------------------------------------------------- clock

    def tick(self) -> float:
        self.now += self.rng.random() * 1e-3
        return self.now

    def wall(self) -> float:
        if self.rng.random() < 0.05:
            self.skew += self.rng.choice([-7200.0, -1.0, 5.0, 86400.0])
            self.env.fault("clock_jump")
        return self.tick() + self.skew

    def sleep(self, s) -> None:
        end = self.now + max(0.0, s)
        if self.me() is None:
            return
        self.wait(lambda: self.now >= end, end)


class WorkerFault(Exception):
    pass


class WorkerBaseFault(BaseException):
    pass


EXC = {"MemoryError": MemoryError, "ValueError": ValueError, "WorkerFault": WorkerFault,
       "OSError": OSError, "RuntimeError": RuntimeError, "KeyError": KeyError,
       "IndexError": IndexError, "WorkerBaseFault": WorkerBaseFault,
       "TimeoutError": TimeoutError, "ZeroDivisionError": ZeroDivisionError}


class SimLock:
    """A lock whose waiters the scheduler knows about; a plain flag outside a run."""

    __slots__ = ("_held", "__weakref__")

    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or s.me() is None:
            if self._held:
                if not blocking:
                    return False
                raise RuntimeError("a simulated lock is held outside its simulation")
            self._held = True
            return True
        s.point()
        if not self._held:
            self._held = True
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while True:
            if s.wait(lambda: not self._held, deadline):
                self._held = True
                return True
            if deadline is not None and s.now >= deadline:
                return False

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        s = CURRENT
        if s is not None:
            s.point()

    def locked(self):
        return self._held

    def _at_fork_reinit(self):
        self._held = False

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()


def _join(self, timeout=None):
    s = CURRENT
    num = getattr(self, "_sim_num", None)
    if s is None or num is None:
        return _real_join(self, timeout)
    deadline = None if timeout is None else s.now + max(0, timeout)
    t = s.threads[num]
    while not s.wait(lambda: t.done, deadline):
        if deadline is not None and s.now >= deadline:
            return None
    return None


def _is_alive(self):
    s = CURRENT
    num = getattr(self, "_sim_num", None)
    if s is None or num is None:
        return _real_is_alive(self)
    return not s.threads[num].done


_real_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive


_REAL_KINDS = (type(real_allocate()), type(threading.RLock()), threading.Condition,
               threading.Semaphore, threading.Event)


def adopt_locks() -> None:
    """Locks the code under test made at import become simulated ones, for good."""
    for name, mod in list(sys.modules.items()):
        if not name.startswith("instancespace"):
            continue
        for owner in [mod, *(v for v in vars(mod).values() if isinstance(v, type)
                             and v.__module__ == name)]:
            for k, v in list(vars(owner).items()):
                if not isinstance(v, _REAL_KINDS) or getattr(v, "_sim", False):
                    continue
                if isinstance(v, _REAL_KINDS[0]):
                    new = SimLock()
                elif isinstance(v, _REAL_KINDS[1]):
                    new = threading._PyRLock()
                elif isinstance(v, threading.Condition):
                    new = threading.Condition()
                elif isinstance(v, threading.Semaphore):
                    new = type(v)(v._value)
                else:
                    new = threading.Event()
                    new._flag = v._flag
                if not isinstance(new, (SimLock, threading._PyRLock)):
                    new._sim = True
                setattr(owner, k, new)


@contextlib.contextmanager
def simulated(plan: dict, env, cpus: int = 8):
    """Put the simulator under threading, executors and clocks for the body."""
    global CURRENT
    gc_was = gc.isenabled()
    gc.disable()
    sched = Sched(plan, env)
    saved = []

    def patch(obj, name, value, missing=False):
        old = getattr(obj, name, None) if not missing else obj.__dict__.get(name, _NONE)
        saved.append((obj, name, old))
        setattr(obj, name, value)

    ids: dict = {}

    def sim_id(o):
        k = getattr(o, "_sim_seq", None)
        if k is None:
            k = id(o)
        return k

    seq = [0]
    salt = plan["seed"] & 0xFFFF
    real_future_init = cf_base.Future.__init__

    def future_init(self, *a, **k):
        real_future_init(self, *a, **k)
        seq[0] += 1
        self._sim_seq = seq[0]

    def future_hash(self):
        n = getattr(self, "_sim_seq", None)
        return object.__hash__(self) if n is None else (n * 2654435761 ^ salt * 40503) & 0x3FFFFFFF

    real_thread_init = threading.Thread.__init__

    def thread_init(self, *a, **k):
        seq[0] += 1
        self._sim_seq = seq[0]  # executors keep their threads in a set
        real_thread_init(self, *a, **k)

    def start_new_thread(fn, args, kwargs=None):
        num = sched.start_thread(fn, args, kwargs)
        return num

    real_thread_start = threading.Thread.start

    def thread_start(self):
        self._sim_num = len(sched.threads)
        return real_thread_start(self)

    try:
        CURRENT = sched
        patch(threading, "_allocate_lock", SimLock)
        patch(threading, "Lock", SimLock)
        patch(threading, "RLock", threading._PyRLock)
        patch(threading, "_start_new_thread", start_new_thread)
        patch(_thread, "start_new_thread", start_new_thread)
        patch(_thread, "allocate_lock", SimLock)
        patch(threading.Thread, "join", _join)
        patch(threading.Thread, "is_alive", _is_alive)
        patch(threading.Thread, "start", thread_start)
        patch(threading.Thread, "__init__", thread_init)
        patch(threading.Thread, "__hash__", future_hash)
        patch(queue, "SimpleQueue", queue._PySimpleQueue)
        patch(cf_thread, "_global_shutdown_lock", SimLock())
        patch(cf_base.Future, "__init__", future_init)
        patch(cf_base.Future, "__hash__", future_hash)
        patch(cf_base, "id", sim_id, missing=True)
        patch(threading, "_time", sched.tick)
        patch(queue, "time", sched.tick)
        for name in ("monotonic", "perf_counter"):
            patch(time, name, sched.tick)
        patch(time, "time", sched.wall)
        patch(time, "sleep", sched.sleep)
        patch(os, "cpu_count", lambda: cpus)
        if hasattr(os, "sched_getaffinity"):
            patch(os, "sched_getaffinity", lambda _pid: set(range(cpus)))
        adopt_locks()
        sched.monitor(True)
        yield sched
    finally:
        sched.monitor(False)
        for obj, name, old in reversed(saved):
            if old is _NONE:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        CURRENT = None
        del ids
        if gc_was:
            gc.enable()
        env.simtime += sched.now - 1_000_000.0
        env.steps += sched.events


_NONE = object()
