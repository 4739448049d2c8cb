"""Canonical description of values, so results can be compared exactly."""

from __future__ import annotations

import dataclasses
import hashlib
from pathlib import PurePath

import numpy as np
import pandas as pd


def canon(x, depth=0, seen=()):
    """A nested tuple that is equal exactly when the values are equal."""
    if depth > 40:
        return "deep"
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x if not isinstance(x, bool) else ("bool", x)
    if isinstance(x, float):
        return ("f", x.hex() if x == x else "nan")
    if isinstance(x, np.generic):
        return ("np", str(x.dtype), x.tobytes() if x.dtype != object else canon(x.item()))
    if id(x) in seen:
        return "cycle"
    seen = (*seen, id(x))
    d = depth + 1
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("arr", "O", x.shape, tuple(canon(v, d, seen) for v in x.ravel().tolist()))
        data = np.ascontiguousarray(x)
        if data.dtype.kind == "f":
            data = np.where(np.isnan(data), np.nan, data)
        return ("arr", str(x.dtype), x.shape, hashlib.md5(data.tobytes()).hexdigest())
    if isinstance(x, pd.Series):
        return ("series", str(x.dtype), canon(x.name, d, seen),
                canon(x.index.to_numpy(), d, seen), canon(x.to_numpy(), d, seen))
    if isinstance(x, pd.Index):
        return ("index", canon(x.to_numpy(), d, seen))
    if isinstance(x, pd.DataFrame):
        return ("frame", tuple(canon(c, d, seen) for c in x.columns.tolist()),
                canon(x.index.to_numpy(), d, seen),
                tuple(canon(x.iloc[:, i].to_numpy(), d, seen) for i in range(x.shape[1])))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v, d, seen) for v in x))
    if isinstance(x, dict):
        items = [(canon(k, d, seen), canon(v, d, seen)) for k, v in x.items()]
        return ("dict", tuple(sorted(items, key=repr)))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((canon(v, d, seen) for v in x), key=repr)))
    if isinstance(x, PurePath):
        return ("path", str(x))
    if isinstance(x, type) or callable(x) and hasattr(x, "__qualname__"):
        return ("ref", x.__module__, x.__qualname__)
    if hasattr(x, "wkb") and hasattr(x, "geom_type"):
        return ("geom", x.geom_type, x.wkb)
    if isinstance(x, np.random.RandomState):
        return ("rs", canon(x.get_state(legacy=False), d, seen))
    if isinstance(x, np.random.Generator):
        return ("rng", canon(x.bit_generator.state, d, seen))
    if dataclasses.is_dataclass(x):
        return ("dc", type(x).__name__, tuple(
            (f.name, canon(getattr(x, f.name), d, seen)) for f in dataclasses.fields(x)))
    if type(x).__module__.startswith(("scipy.sparse",)):
        return ("sparse", canon(x.toarray(), d, seen))
    if hasattr(x, "__dict__"):
        return ("obj", type(x).__name__, canon(dict(vars(x)), d, seen))
    if hasattr(x, "__getstate__"):
        try:
            return ("state", type(x).__name__, canon(x.__getstate__(), d, seen))
        except Exception:  # noqa: BLE001
            pass
    return ("repr", type(x).__name__, repr(x))


def digest(x) -> str:
    return hashlib.md5(repr(canon(x)).encode()).hexdigest()


def diff(a, b, path="", out=None, limit=6):
    """Where two canonical descriptions differ."""
    out = [] if out is None else out
    if len(out) >= limit or a == b:
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        n = len(out)
        for i, (x, y) in enumerate(zip(a, b)):
            tag = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
            diff(x, y, f"{path}/{tag}", out, limit)
        if len(out) > n:
            return out
    out.append(f"{path}: {_short(a)} != {_short(b)}")
    return out


def _short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."
