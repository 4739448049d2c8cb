"""Simulated worker processes under concurrent.futures and joblib.

Each worker is a forked process that runs one task at a time in lock-step with the
simulator, so memory is really separate but nothing runs concurrently: which worker takes
a task, how long it takes in simulated time, the order results arrive in, and where a
worker dies are all drawn by the scheduler.
"""

from __future__ import annotations

import concurrent.futures as cf
import concurrent.futures.process as cf_process
import contextlib
import os
import pickle
import struct
import sys
import threading
import time
from collections import deque


from sim import ambient, threads

EXC = {"MemoryError": MemoryError, "ValueError": ValueError, "OSError": OSError,
       "RuntimeError": RuntimeError, "FloatingPointError": FloatingPointError,
       "KeyError": KeyError}


class World:
    """The process faults of one run and what came of them."""

    def __init__(self, plan: dict, sched, env) -> None:
        self.sched = sched
        self.env = env
        self.die = {int(k): v for k, v in plan.get("die", {}).items()}
        self.task_faults = {int(k): v for k, v in plan.get("task_faults", {}).items()}
        self.fresh = plan.get("fresh", False)  # workers start with their own random state
        self.slow = plan.get("slow", 0.05)
        self.tasks = 0
        self.died = 0
        self.raised = 0
        self.workers = 0
        self.order: list = []
        self.pools: list = []


WORLD: World | None = None


def _send(fd, obj: bytes) -> None:
    data = struct.pack("<Q", len(obj)) + obj
    while data:
        data = data[os.write(fd, data):]


def _recv(fd) -> bytes | None:
    def take(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                return None
            out += b
        return out

    head = take(8)
    return None if head is None else take(struct.unpack("<Q", head)[0])


class Proc:
    """One forked worker."""

    def __init__(self, world: World, init, initargs) -> None:
        world.workers += 1
        self.num = world.workers
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                self._child(world, a, d, init, initargs)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def _child(self, world, r, w, init, initargs):
        world.sched.monitor(False)
        world.sched.byid.clear()
        threads.CURRENT = None
        if world.fresh:
            ambient.seed_globals(7919 * self.num + 13)
        if init:
            init(*initargs)
        while True:
            msg = _recv(r)
            if not msg or msg == b"quit":
                return
            task, die, fault = pickle.loads(msg)
            if die == "before":
                return
            hit = False
            try:
                fn, args, kw = pickle.loads(task)
                if fault:
                    with ambient.fail_at_line(fault[0], EXC[fault[1]](
                            "injected in a worker process")) as left:
                        try:
                            out = ("ok", fn(*args, **kw))
                        finally:
                            hit = left[0] <= 0
                else:
                    out = ("ok", fn(*args, **kw))
            except Exception as e:  # noqa: BLE001
                out = ("err", e)
            if die == "after":
                return
            try:
                data = pickle.dumps((*out, hit))
            except Exception as e:  # noqa: BLE001
                data = pickle.dumps(("err", RuntimeError(f"result not picklable: {e!r}"), hit))
            _send(w, data)

    def run(self, task: bytes, die, fault):
        """('ok', value, hit), ('err', exc, hit) or None when the process died."""
        try:
            _send(self.w, pickle.dumps((task, die, fault)))
            data = _recv(self.r)
        except BrokenPipeError:
            data = None
        return None if data is None else pickle.loads(data)

    def close(self) -> None:
        if self.pid is None:
            return
        with contextlib.suppress(OSError):
            _send(self.w, b"quit")
        os.close(self.w)
        os.close(self.r)
        with contextlib.suppress(ChildProcessError):
            os.waitpid(self.pid, 0)
        self.pid = None


class SimProcessPool(cf.Executor):
    """Stands in for ProcessPoolExecutor (and loky's executor)."""

    dumps = staticmethod(pickle.dumps)

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *,
                 max_tasks_per_child=None):
        self._n = max_workers or os.cpu_count() or 1
        if self._n <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._init = (initializer, initargs)
        self._world = WORLD
        self._cond = threading.Condition()
        self._items: deque = deque()
        self._threads: list = []
        self._procs: list = []
        self._running: dict = {}
        self._shut = False
        self._broken = False
        WORLD.pools.append(self)

    def submit(self, fn, /, *args, **kwargs):
        with self._cond:
            if self._broken:
                raise cf_process.BrokenProcessPool(
                    "A child process terminated abruptly, the process pool is not usable "
                    "anymore")
            if self._shut:
                raise RuntimeError("cannot schedule new futures after shutdown")
            fut = cf.Future()
            try:
                task = self.dumps((fn, args, kwargs))
            except Exception as e:  # noqa: BLE001
                fut.set_exception(e)
                return fut
            if not self._procs:
                for _ in range(self._n):
                    self._procs.append(Proc(self._world, *self._init))
                for p in self._procs:
                    t = threading.Thread(target=self._manage, args=(p,), daemon=True)
                    self._threads.append(t)
                    t.start()
            self._items.append((fut, task))
            self._cond.notify()
        return fut

    def _manage(self, proc) -> None:
        w = self._world
        while True:
            with self._cond:
                while not self._items and not self._shut and not self._broken:
                    self._cond.wait()
                if self._broken or not self._items:
                    break
                fut, task = self._items.popleft()
                if not fut.set_running_or_notify_cancel():
                    continue
                self._running[proc.num] = fut
                w.tasks += 1
                n = w.tasks
            w.sched.env.log("task", n, proc.num)
            time.sleep(w.sched.rng.expovariate(1 / w.slow))
            if self._broken:
                break
            die, fault = w.die.pop(n, None), w.task_faults.pop(n, None)
            got = proc.run(task, die, fault)
            time.sleep(w.sched.rng.expovariate(1 / w.slow))
            w.order.append(n)
            with self._cond:
                if self._broken:
                    break
                if got is not None:
                    self._running.pop(proc.num, None)
            if got is None:
                w.died += 1
                w.env.fault("worker_process_dies")
                self._break()
                break
            if got[2]:
                w.raised += 1
                w.env.fault(f"task_raises_{fault[1]}")
            if got[0] == "ok":
                fut.set_result(got[1])
            else:
                fut.set_exception(got[1])
            del fut, got

    def _break(self) -> None:
        exc = cf_process.BrokenProcessPool(
            "A process in the process pool was terminated abruptly while the future was "
            "running or pending.")
        with self._cond:
            if self._broken:
                return
            self._broken = True
            todo = [*self._running.values(), *(f for f, _ in self._items)]
            self._items.clear()
            self._running.clear()
            self._cond.notify_all()
        for f in todo:  # outside the lock: callbacks may submit
            with contextlib.suppress(cf.InvalidStateError):
                f.set_exception(exc)

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self._cond:
            self._shut = True
            if cancel_futures:
                while self._items:
                    self._items.popleft()[0].cancel()
            self._cond.notify_all()
        if wait:
            for t in self._threads:
                t.join()
            for p in self._procs:
                p.close()

    def kill(self):
        self._break()
        self.shutdown()


def joblib_backend():
    import joblib._parallel_backends as jb
    from joblib.externals import cloudpickle

    class LokyPool(SimProcessPool):
        dumps = staticmethod(cloudpickle.dumps)

        class _temp_folder_manager:  # nothing is memory-mapped
            set_current_context = staticmethod(lambda _id: None)
            _clean_temporary_resources = staticmethod(lambda **_k: None)

    class SimBackend(jb.LokyBackend):
        """joblib's own loky backend over simulated processes, which it keeps."""

        _pool = None

        def configure(self, n_jobs=1, parallel=None, prefer=None, require=None,
                      idle_worker_timeout=300, **kw):
            n_jobs = self.effective_n_jobs(n_jobs)
            if n_jobs == 1:
                raise jb.FallbackToBackend(
                    jb.SequentialBackend(nesting_level=self.nesting_level))
            cls = SimBackend
            p = cls._pool
            if p is not None and (p._world is not WORLD or p._broken or p._shut
                                  or p._n != n_jobs):
                if p._world is WORLD and not p._shut:
                    p.shutdown()
                p = None
            if p is None:
                p = cls._pool = LokyPool(n_jobs)
            self._workers = p
            self.parallel = parallel
            return n_jobs

        def terminate(self):
            self._workers = None
            self.reset_batch_stats()

        def abort_everything(self, ensure_ready=True):
            self._workers.kill()
            self._workers = None
            type(self)._pool = None
            SimBackend._pool = None
            if ensure_ready:
                self.configure(n_jobs=self.parallel.n_jobs, parallel=self.parallel)

    return SimBackend


_BACKEND = None


@contextlib.contextmanager
def processes(plan: dict, sched, env):
    """Put simulated processes under ProcessPoolExecutor and joblib for the body."""
    global WORLD, _BACKEND
    import joblib.parallel as jp

    if _BACKEND is None:
        _BACKEND = joblib_backend()
    world = WORLD = World(plan, sched, env)
    real = cf_process.ProcessPoolExecutor
    saved = [(cf_process, "ProcessPoolExecutor", real)]
    for name, mod in list(sys.modules.items()):
        if name.startswith("instancespace") or name == "concurrent.futures":
            for k, v in list(vars(mod).items()):
                if v is real:
                    saved.append((mod, k, v))
    had = "ProcessPoolExecutor" in vars(cf)
    if not had:
        saved.append((cf, "ProcessPoolExecutor", None))
    backends = dict(jp.BACKENDS)
    jp.BACKENDS["loky"] = _BACKEND
    jp.BACKENDS["multiprocessing"] = _BACKEND
    for mod, k, _ in saved:
        setattr(mod, k, SimProcessPool)
    try:
        yield world
        left = [p for p in world.pools if not p._shut and p is not _BACKEND._pool]
        world.open_pools = len(left)
        for p in world.pools:
            p.shutdown()
    finally:
        for mod, k, v in saved:
            if v is None:
                with contextlib.suppress(AttributeError):
                    delattr(mod, k)
            else:
                setattr(mod, k, v)
        jp.BACKENDS.clear()
        jp.BACKENDS.update(backends)
        _BACKEND._pool = None
        for p in world.pools:
            for q in p._procs:
                q.close()
        WORLD = None


__all__ = ["SimProcessPool", "World", "processes"]
