"""A simulated disk under one directory: every open, read, write and directory operation of
the Python code goes through it and can fail, be short, be interrupted or be the last one.

The bytes live in a real scratch directory; what the simulator decides is what each
operation does to them, in what sizes, and what of them survives a crash.
"""

from __future__ import annotations

import _io
import builtins
import contextlib
import errno
import io
import json
import os
import random
import select
import signal
import time

CRASHED = 77
_real = {n: getattr(os, n) for n in (
    "open", "close", "read", "write", "stat", "lstat", "scandir", "listdir", "mkdir", "rmdir",
    "remove", "unlink", "rename", "replace", "fsync", "fdatasync", "truncate", "ftruncate",
    "link", "symlink", "chmod", "utime", "access", "sendfile", "fstat", "lseek")}
_real_open = io.open
_real_exit = os._exit
_real_mono = time.monotonic

# Which error an operation can really give.
ERRNOS = {
    "open_w": ["ENOSPC", "EACCES", "EMFILE", "EROFS", "EIO", "EDQUOT", "ENFILE"],
    "open_r": ["EACCES", "EMFILE", "EIO", "ENFILE", "ENOENT", "ESTALE"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
    "read": ["EIO", "ESTALE"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "scandir": ["EACCES", "EMFILE", "EIO"],
    "stat": ["EACCES", "EIO", "ESTALE"],
    "change": ["ENOSPC", "EACCES", "EROFS", "EIO"],
    "sync": ["EIO", "ENOSPC"],
}


class Interrupted(KeyboardInterrupt):
    """The simulated user pressed ctrl-C."""


def err(code: str, path) -> OSError:
    n = getattr(errno, code)
    e = OSError(n, os.strerror(n), path)
    e.injected = True
    return e


class Disk:
    """Counts operations below root and applies the plan to them.

    plan keys: errs [{at, code?, lose?}], sticky (every later op of that class fails too),
    capacity (bytes until full), short_w / short_r (rates), buf (buffer size),
    crash / interrupt / memory ({at, ...}), shuffle (directory order), seed.
    """

    def __init__(self, root: str, plan: dict, env=None) -> None:
        self.root = os.path.abspath(root)
        self.plan = plan
        self.env = env
        self.rng = random.Random(f"disk/{plan.get('seed', 0)}")
        self.n = 0
        self.ops: list = []
        self.fired: list = []
        self.errs = {e["at"]: e for e in plan.get("errs", [])}
        self.stuck: dict = {}
        self.left = plan.get("capacity")
        self.dirty: dict = {}
        self.fds: dict = {}
        self.live: set = set()
        self.report = None
        self.off = 0

    # ------------------------------------------------------------------ decisions
    def mine(self, path) -> str | None:
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.fsdecode(path)
        except TypeError:
            return None
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    def _fire(self, kind: str) -> None:
        self.fired.append((kind, self.n))
        if self.env is not None:
            self.env.fault(kind)

    def op(self, cls: str, path: str, name: str) -> dict | None:
        """Account for one operation; raises its fault, or returns a fault to apply late."""
        self.n += 1
        n = self.n
        rel = os.path.relpath(path, self.root)
        if len(self.ops) < 20000:
            self.ops.append((name, rel))
        if self.env is not None:
            self.env.steps += 1
        c = self.plan.get("crash")
        if c and c["at"] == n:
            self.crash(name, rel)
        i = self.plan.get("interrupt")
        if i and i["at"] == n:
            self._fire("interrupt")
            raise Interrupted
        m = self.plan.get("memory")
        if m and m["at"] == n:
            self._fire("memory_error")
            raise MemoryError("injected")
        if name == "close" and cls in self.stuck:
            return {"code": self.stuck[cls], "lose": False}
        if cls in self.stuck:
            self._fire(f"{name}_{self.stuck[cls]}")
            raise err(self.stuck[cls], path)
        e = self.errs.get(n)
        if e is None:
            return None
        codes = ERRNOS[cls]
        code = e.get("code") if e.get("code") in codes else codes[e.get("pick", 0) % len(codes)]
        if e.get("sticky"):
            self.stuck[cls] = code
        if name == "close":
            return {"code": code, "lose": e.get("lose", False)}
        self._fire(f"{name}_{code}")
        raise err(code, path)

    def touch(self, path: str, new: bool = False) -> None:
        d = self.dirty.setdefault(path, {"new": new})
        d["new"] = d["new"] or new

    def crash(self, name: str, rel: str) -> None:
        """The machine stops here; unsynced data survives as the seed says."""
        c = self.plan["crash"]
        self.off += 1
        damage = []
        if c.get("power"):
            for p in sorted(self.dirty):
                try:
                    size = _real["stat"](p).st_size
                except OSError:
                    continue
                how = self.rng.choice(["keep", "keep", "prefix", "prefix", "empty", "zeros",
                                       "gone"])
                if how == "gone" and not self.dirty[p]["new"]:
                    how = "empty"
                if how in ("prefix", "zeros"):
                    cut = self.rng.randint(0, size)
                    _real["truncate"](p, cut)
                    if how == "zeros":
                        _real["truncate"](p, size)
                elif how == "empty":
                    _real["truncate"](p, 0)
                elif how == "gone":
                    _real["remove"](p)
                damage.append(how)
        if self.report is not None:
            _real["write"](self.report, json.dumps(
                {"crashed": [name, rel], "damage": damage, "ops": self.n}).encode())
        _real_exit(CRASHED)

    # ---------------------------------------------------------------------- files
    def write(self, path: str, real, data) -> int:
        view = memoryview(data).cast("B")
        self.op("write", path, "write")
        size = len(view)
        if self.left is not None and size > self.left:
            size = self.left
            if size == 0:
                self._fire("disk_full")
                raise err("ENOSPC", path)
            self._fire("short_write")
        elif size > 1 and self.rng.random() < self.plan.get("short_w", 0.0):
            size = self.rng.randint(1, size - 1)
            self._fire("short_write")
        n = real(view[:size])
        self.touch(path)
        if self.left is not None:
            self.left -= n
        return n

    def limit_read(self, size: int) -> int:
        if size > 1 and self.rng.random() < self.plan.get("short_r", 0.0):
            self._fire("short_read")
            return self.rng.randint(1, size - 1)
        return size

    def closing(self, path: str, real) -> None:
        e = None
        try:
            e = self.op("close", path, "close")
        finally:
            real()
        if e:
            if e["lose"] and path in self.dirty:
                with contextlib.suppress(OSError):
                    size = _real["stat"](path).st_size
                    _real["truncate"](path, self.rng.randint(0, max(0, size - 1)))
                self._fire(f"close_lost_{e['code']}")
            else:
                self._fire(f"close_{e['code']}")
            raise err(e["code"], path)


class RawFile(io.FileIO):
    """One open file of the simulated disk."""

    def __init__(self, disk: Disk, path, spath: str, mode: str, opener=None,
                 closefd=True) -> None:
        self._disk = disk
        self._path = spath
        self._shut = True
        writing = any(c in mode for c in "wax+")
        new = False
        if not isinstance(path, int):
            disk.op("open_w" if writing else "open_r", spath, "open")
            try:
                new = writing and not _exists(spath)
            except OSError:
                new = False
        disk.off += 1
        try:
            super().__init__(path, mode, closefd=closefd, opener=opener)
        finally:
            disk.off -= 1
        self._shut = False
        disk.live.add(id(self))
        disk.fds[self.fileno()] = spath
        if "w" in mode or new:
            disk.touch(spath, new)

    def write(self, data):
        if self._disk.off or self.closed:
            return super().write(data)
        return self._disk.write(self._path, super().write, data)

    def readinto(self, buf):
        if self.closed:
            return super().readinto(buf)
        view = memoryview(buf).cast("B")
        self._disk.op("read", self._path, "read")
        return super().readinto(view[: self._disk.limit_read(len(view))])

    def read(self, size=-1):
        if self.closed:
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        self._disk.op("read", self._path, "read")
        return super().read(self._disk.limit_read(size))

    def readall(self):
        out = bytearray()
        while True:
            chunk = self.read(65536)
            if not chunk:
                return bytes(out)
            out += chunk

    def truncate(self, size=None):
        self._disk.op("change", self._path, "truncate")
        self._disk.touch(self._path)
        return super().truncate(size)

    def close(self):
        if self._shut:
            return super().close()
        self._shut = True
        self._disk.live.discard(id(self))
        self._disk.fds.pop(self.fileno(), None)
        if self._disk.off:
            return super().close()
        self._disk.closing(self._path, super().close)
        return None


def _exists(p) -> bool:
    try:
        _real["lstat"](p)
    except OSError:
        return False
    return True


class _Scan:
    """os.scandir over the simulated disk, in the simulator's order."""

    def __init__(self, disk: Disk, path: str, it) -> None:
        with it:
            self._entries = sorted(it, key=lambda e: e.name)
        if "shuffle" in disk.plan:
            random.Random(f"ls/{disk.plan['shuffle']}/{len(self._entries)}").shuffle(
                self._entries)
        self._disk, self._path = disk, path
        self._i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self._i and not self._disk.off:
            self._disk.op("scandir", self._path, "readdir")
        if self._i >= len(self._entries):
            raise StopIteration
        self._i += 1
        return self._entries[self._i - 1]

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return None

    def close(self):
        return None


def _open(disk: Disk):
    """io.open for the simulated disk, everything else to the real one."""

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                 closefd=True, opener=None):
        spath = None if disk.off else disk.mine(file)
        if spath is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd,
                              opener)
        binary = "b" in mode
        raw_mode = mode.replace("b", "").replace("t", "")
        if not set(raw_mode) <= set("rwax+") or (binary and "t" in mode) or (
                binary and (encoding or errors or newline)):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = RawFile(disk, file, spath, raw_mode, opener, closefd)
        try:
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            size = buffering if buffering > 1 else disk.plan.get("buf") or 8192
            if "+" in raw_mode:
                buf = io.BufferedRandom(raw, size)
            elif raw_mode == "r":
                buf = io.BufferedReader(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline,
                                    buffering == 1)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    return sim_open


def _patches(disk: Disk) -> dict:
    """Replacements for the functions of os that reach the disk."""

    def simple(name, cls, touches=()):
        real = _real[name]

        def f(*a, **k):
            if disk.off or not a:
                return real(*a, **k)
            ps = [disk.mine(x) if isinstance(x, (int, str, bytes, os.PathLike)) else None
                  for x in a[:2]]
            hit = next((p for p in ps if p), None)
            if hit is None:
                return real(*a, **k)
            disk.op(cls, hit, name)
            r = real(*a, **k)
            if name in ("rename", "replace") and ps[0] and ps[1]:
                disk.dirty[ps[1]] = disk.dirty.pop(ps[0], {"new": False})
            elif name in ("remove", "unlink"):
                disk.dirty.pop(hit, None)
            elif name in ("fsync", "fdatasync"):
                disk.dirty.pop(hit, None)
            elif name in ("truncate", "ftruncate", "sendfile"):
                disk.touch(hit)
            return r

        f.__name__ = name
        return f

    def s_open(path, flags, mode=0o777, *, dir_fd=None):
        p = None if disk.off or dir_fd is not None else disk.mine(path)
        if p is None:
            return _real["open"](path, flags, mode, dir_fd=dir_fd)
        w = flags & (os.O_WRONLY | os.O_RDWR)
        disk.op("open_w" if w else "open_r", p, "open")
        new = bool(w) and not _exists(p)
        fd = _real["open"](path, flags, mode)
        disk.fds[fd] = p
        if new or flags & os.O_TRUNC:
            disk.touch(p, new)
        return fd

    def s_close(fd):
        p = disk.fds.pop(fd, None)
        if p is None or disk.off:
            return _real["close"](fd)
        return disk.closing(p, lambda: _real["close"](fd))

    def s_write(fd, data):
        p = disk.fds.get(fd)
        if p is None or disk.off:
            return _real["write"](fd, data)
        return disk.write(p, lambda v: _real["write"](fd, v), data)

    def s_read(fd, n):
        p = disk.fds.get(fd)
        if p is None or disk.off:
            return _real["read"](fd, n)
        disk.op("read", p, "read")
        return _real["read"](fd, disk.limit_read(n))

    def s_scandir(path="."):
        p = None if disk.off else disk.mine(path)
        if p is None:
            return _real["scandir"](path)
        disk.op("scandir", p, "scandir")
        return _Scan(disk, p, _real["scandir"](path))

    def s_listdir(path="."):
        p = None if disk.off else disk.mine(path)
        if p is None:
            return _real["listdir"](path)
        disk.op("scandir", p, "listdir")
        names = sorted(_real["listdir"](path))
        if "shuffle" in disk.plan:
            random.Random(f"ls/{disk.plan['shuffle']}/{len(names)}").shuffle(names)
        return names

    out = {"open": s_open, "close": s_close, "write": s_write, "read": s_read,
           "scandir": s_scandir, "listdir": s_listdir}
    for n in ("stat", "lstat", "access"):
        out[n] = simple(n, "stat")
    for n in ("mkdir", "rmdir", "remove", "unlink", "rename", "replace", "truncate",
              "ftruncate", "link", "symlink", "chmod", "utime"):
        out[n] = simple(n, "change")
    for n in ("fsync", "fdatasync"):
        out[n] = simple(n, "sync")

    # Zero-copy goes through write, as where the kernel does not offer it.
    def no_sendfile(*a, **k):
        if disk.off:
            return _real["sendfile"](*a, **k)
        raise OSError(errno.ENOTSOCK, "not offered by the simulated disk")

    out["sendfile"] = no_sendfile
    return out


@contextlib.contextmanager
def mounted(disk: Disk):
    """Route the process's file access below disk.root through the simulated disk."""
    new = _patches(disk)
    sim_open = _open(disk)
    for n, f in new.items():
        setattr(os, n, f)
    saved = builtins.open
    builtins.open = io.open = _io.open = sim_open
    try:
        yield disk
    finally:
        disk.off += 1
        builtins.open = saved
        io.open = _io.open = _real_open
        for n in new:
            setattr(os, n, _real[n])


def in_child(fn, wall: float = 60):
    """Run fn(report fd) in a forked child: ('exit', code, report text) or ('hang', ...)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            fn(w)
            code = 0
        except BaseException as e:  # noqa: BLE001
            with contextlib.suppress(BaseException):
                _real["write"](w, json.dumps({"raised": type(e).__name__,
                                              "text": str(e)[:200]}).encode())
            code = 71
        finally:
            _real_exit(code)
    os.close(w)
    chunks, end = [], _real_mono() + wall
    hung = False
    while True:
        ready, _, _ = select.select([r], [], [], max(0.0, end - _real_mono()))
        if not ready:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        c = os.read(r, 65536)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    text = b"".join(chunks).decode()
    info = json.loads(text) if text.startswith("{") else {}
    if hung:
        return ("hang", None, info)
    return ("exit", os.waitstatus_to_exitcode(st), info)


def gen_knobs(rng: random.Random) -> dict:
    """Buffer sizes, short transfers and directory order: legal whatever they are."""
    plan: dict = {"seed": rng.getrandbits(30)}
    if rng.random() < 0.5:
        plan["buf"] = rng.choice([16, 64, 256, 1000, 8192, 65536])
    if rng.random() < 0.4:
        plan["short_w"] = rng.choice([0.05, 0.3, 0.9])
    if rng.random() < 0.4:
        plan["short_r"] = rng.choice([0.05, 0.3, 0.9])
    if rng.random() < 0.5:
        plan["shuffle"] = rng.getrandbits(20)
    return plan


def gen_fault(rng: random.Random, plan: dict, kinds: list) -> dict:
    """Add one kind of fault; positions are fractions of the operations of a clean run."""
    kind = rng.choice(kinds)
    if kind == "errors":
        plan["errs"] = [{"frac": rng.random(), "pick": rng.randrange(8),
                         "lose": rng.random() < 0.5, "sticky": rng.random() < 0.3}
                        for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    elif kind == "close":
        # Errors that strike when a file is closed, some after losing what was written.
        plan["closes"] = [{"frac": rng.random(), "pick": rng.randrange(8),
                           "lose": rng.random() < 0.6, "sticky": rng.random() < 0.2}
                          for _ in range(rng.choice([1, 1, 2]))]
    elif kind == "listing":
        plan["lists"] = [rng.random()]
    elif kind == "full":
        plan["fill"] = rng.random()
    elif kind in ("interrupt", "memory"):
        plan[kind] = {"frac": rng.random()}
    elif kind == "crash":
        plan["crash"] = {"frac": rng.random(), "power": rng.random() < 0.6}
    return plan


def place(plan: dict, ops: list, size: int) -> dict:
    """Turn the fractions of a plan into operation numbers and bytes of a clean run."""
    p = dict(plan)
    total = max(1, len(ops))
    at = lambda f: 1 + min(total - 1, int(f * total))  # noqa: E731
    if "errs" in p:
        p["errs"] = [dict(e, at=at(e["frac"])) for e in p["errs"]]
    if "closes" in p:
        where = [i + 1 for i, o in enumerate(ops) if o[0] == "close"] or [1]
        p["errs"] = p.get("errs", []) + [
            dict(e, at=where[min(len(where) - 1, int(e["frac"] * len(where)))])
            for e in p.pop("closes")]
    for k in ("crash", "interrupt", "memory"):
        if p.get(k):
            p[k] = dict(p[k], at=at(p[k]["frac"]))
    if "fill" in p:
        p["capacity"] = int(p["fill"] * size)
    return p


def shrink_plan(plan: dict):
    """Simpler plans that still may fail."""
    for k in ("short_w", "short_r", "shuffle", "buf", "memory", "interrupt", "fill", "errs",
              "closes", "crash"):
        if k in plan:
            yield {x: v for x, v in plan.items() if x != k}
    for k in ("errs", "closes"):
        for i in range(len(plan.get(k, []))):
            if len(plan[k]) > 1:
                yield {**plan, k: plan[k][:i] + plan[k][i + 1:]}
            for f in ("sticky", "lose"):
                if plan[k][i].get(f):
                    e = [dict(x) for x in plan[k]]
                    e[i][f] = False
                    yield {**plan, k: e}


def injected(e: BaseException | None) -> bool:
    """Whether an exception is, or comes from, a fault of the simulator."""
    seen = []
    while e is not None and all(e is not s for s in seen):
        if getattr(e, "injected", False) or isinstance(e, Interrupted) or (
                isinstance(e, MemoryError) and e.args == ("injected",)):
            return True
        seen.append(e)
        e = e.__cause__ or e.__context__
    return False
