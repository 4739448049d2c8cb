"""A second interpreter with another hash seed, forking a pristine process per request.

The check's process asks it for the result of a function of a JSON case, computed with
nothing but that case in its history. Requests and answers are length-free JSON lines and
pickles over two pipes.
"""

from __future__ import annotations

import importlib
import itertools
import json
import os
import pickle
import struct
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


class Zygote:
    def __init__(self, module: str, hashseed: int) -> None:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.proc = subprocess.Popen(
            [sys.executable, "-P", os.path.join(HERE, "zygote.py"), module], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            cwd=tempfile.gettempdir())
        self.ids = itertools.count()

    def call(self, case):
        rid = f"{os.getpid()}.{next(self.ids)}"
        data = (json.dumps([rid, case]) + "\n").encode()
        fd = self.proc.stdin.fileno()
        while data:
            data = data[os.write(fd, data):]
        while True:
            head = self._read(8)
            body = self._read(struct.unpack("<Q", head)[0])
            got, status, value = pickle.loads(body)
            if got == rid:
                if status != "ok":
                    raise RuntimeError(f"the reference process failed: {value}")
                return value

    def _read(self, n):
        out = b""
        fd = self.proc.stdout.fileno()
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise RuntimeError("the reference interpreter ended")
            out += b
        return out


def serve(module: str) -> None:
    sys.path.insert(0, os.path.dirname(HERE))
    from sim import core, loader

    loader.install()
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    mod = importlib.import_module(module)
    with core.quiet():
        mod.warm_reference()
    buf = b""
    while True:
        while b"\n" not in buf:
            b = os.read(0, 1 << 16)
            if not b:
                return
            buf += b
        line, buf = buf.split(b"\n", 1)
        rid, case = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    value = ("ok", mod.reference(case))
                except BaseException as e:  # noqa: BLE001
                    import traceback

                    value = ("failed", repr(e) + traceback.format_exc()[-1500:])
                data = pickle.dumps((rid, *value))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            data = pickle.dumps((rid, "failed", "the reference child died"))
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(out, data):]


if __name__ == "__main__":
    serve(sys.argv[1])
