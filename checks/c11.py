"""C11: a save that returns without an error has written everything, complete and true."""

from __future__ import annotations

import hashlib
import os
from pathlib import Path

from sim import core, faultfs, saves
from sim.core import Violation

PLAN = {"quick": {"runs": 2400, "batch": 24}, "thorough": {"runs": 120000, "batch": 48}}
RULE = ("A run takes the model of a real build (22-36 instances, 2-4 features, 2-3 "
        "algorithms, odd labels, missing values, dropped instances, features and algorithms), "
        "saves it in one format through the simulated disk with drawn buffer sizes and short "
        "transfers and, in most runs, faults at drawn operations (error at open, write, close, "
        "stat; data lost at close; disk full; memory error), into an empty or used folder. If "
        "the save returns, every file is compared with the model and the metadata by label. "
        "Non-trivial: a fault fired or the folder had older files; distinct by case.")
STATE_MEASURE = "distinct (operation, file, fault kind, outcome)"
REAL = ["instancespace._serialisers and model (all of it)", "pandas, numpy, scipy.io, "
        "matplotlib, Pillow, csv and io Python code", "the build that made the model"]
STUB = ["open files and directory operations below the output folder (simulated disk)"]
ASSUMPTIONS = ["C code that writes to a file descriptor itself bypasses the simulated disk; "
               "none of the formats does"]
MUST_FIRE = ["disk_full", "short_write", "memory_error", "returned_after_fault", "raised",
             "reported_in_print", "old_files", "graphs", "dir_in_the_way", "big"]
WALL_LIMIT = 200
CPU_LIMIT = 60
_DRY: dict = {}


def warm(tier):
    saves.warm()


def gen(rng, index, tier):
    case = {"k": index // PLAN[tier]["batch"], "fmt": rng.choice(
        ["csv"] * 10 + ["web"] * 7 + ["mat"] * 3 + ["graphs"]),
        "path": rng.choice(["Path", "str", "relative"]),
        "before": rng.choice(["empty", "empty", "older", "older", "foreign", "blocked",
                              "missing"] if rng.random() < 0.6 else ["empty"]),
        "old_size": rng.choice([0, 10, 100000])}
    if case["fmt"] in ("csv", "web") and rng.random() < 0.06:
        case["big"] = rng.choice([10, 40, 120])
    plan = faultfs.gen_knobs(rng)
    if rng.random() < 0.8:
        faultfs.gen_fault(rng, plan, ["errors", "errors", "close", "full", "full", "memory"])
    case["plan"] = plan
    return case


def model(case):
    return saves.big_model_of(case["k"], case["big"]) if case.get("big") else \
        saves.model_of(case["k"])


def dry(case, fmt, plan):
    """Operations and bytes of a clean save with these buffer sizes, and what it left."""
    knobs = {x: plan[x] for x in ("seed", "buf", "short_w", "short_r", "shuffle") if x in plan}
    k = (case["k"], case.get("big"))
    key = (k, fmt) if fmt == "graphs" else (k, fmt, repr(knobs))
    if key in _DRY:
        return _DRY[key]
    m, df = model(case)
    d = saves.scratch()
    try:
        disk = faultfs.Disk(d, knobs)
        with faultfs.mounted(disk):
            try:
                out = saves.save(m, fmt, Path(d))
            except Exception as e:  # noqa: BLE001
                raise Violation("failed", f"saving {fmt} of a built model into an empty folder "
                                f"raises {type(e).__name__}: {e}"[:300]) from None
        if "rror" in out and fmt == "mat":
            raise Violation("failed", f"saving {fmt} of a built model reports {out[-150:]!r}")
        saves.CHECK[fmt](d, m, df)
        extra = set(os.listdir(d)) - saves.NAMES[fmt](m)
        if extra:
            raise Violation("remnant", f"saving {fmt} leaves {sorted(extra)}")
        files = saves.listing(d)
    finally:
        saves.drop(d)
    size = sum(len(v) for v in files.values() if isinstance(v, bytes))
    _DRY.clear()
    _DRY[key] = (disk.ops, size, files)
    return _DRY[key]


def run(case, env):
    fmt = case["fmt"]
    m, df = model(case)
    ops, size, files = dry(case, fmt, case["plan"])
    if case.get("big"):
        env.probe("big")
    env.probe(fmt)
    d = saves.scratch()
    here = os.getcwd()
    try:
        foreign = {}
        name = sorted(files)[len(files) // 2]
        if case["before"] == "older":
            env.probe("old_files")
            for f in files:
                with open(os.path.join(d, f), "wb") as h:
                    h.write(b"x,\"old\n" * (case["old_size"] // 7))
        elif case["before"] == "foreign":
            for f in ("notes.txt", "Coordinates.CSV", ".hidden"):
                foreign[f] = b"mine " * 7
                with open(os.path.join(d, f), "wb") as h:
                    h.write(foreign[f])
        elif case["before"] == "blocked":
            env.probe("dir_in_the_way")
            os.mkdir(os.path.join(d, name))
        target = d
        if case["before"] == "missing":
            target = os.path.join(d, "nowhere")
        plan = faultfs.place(case["plan"], ops, size)
        disk = faultfs.Disk(d, plan, env)
        if case["path"] == "relative":
            os.chdir(os.path.dirname(d))
            arg = Path(os.path.relpath(target))
        else:
            arg = Path(target)
        env.log("save", fmt, case["before"], case["path"])
        err, out = None, ""
        try:
            with faultfs.mounted(disk):
                out = saves.save(m, fmt, arg, as_str=case["path"] == "str")
        except Exception as e:  # noqa: BLE001
            err = type(e).__name__, str(e).replace(d, "DIR")[:200], faultfs.injected(e)
            e.__traceback__ = None
            del e
        os.chdir(here)
        said = fmt == "mat" and "rror" in out
        hard = [f for f in disk.fired if f[0] not in ("short_write", "short_read")]
        env.log("ended", err[0] if err else None, said, disk.n, len(disk.fired))
        for kind, n in disk.fired[:20]:
            op = disk.ops[n - 1] if 0 < n <= len(disk.ops) else None
            env.state((op, kind, bool(err)))
        if hard or case["before"] != "empty":
            env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
        left = saves.listing(d)
        for f, data in foreign.items():
            if left.get(f) != data:
                raise Violation("foreign", f"saving {fmt} changed {f}, which is not its own")
        if err or said:
            env.probe("raised" if err else "reported_in_print")
            if not hard and case["before"] not in ("blocked", "missing"):
                raise Violation("failed", f"saving {fmt} into a {case['before']} folder without "
                                f"any fault fails: {err or out[-150:]}")
            return
        if case["before"] in ("missing", "blocked"):
            env.probe("returned_where_it_cannot")
            if case["before"] == "missing" and os.path.isdir(target):
                d2 = target
            else:
                raise Violation("unreported", f"saving {fmt} returned though it could not write "
                                f"({case['before']})")
        else:
            d2 = d
        if hard:
            env.probe("returned_after_fault")
        try:
            saves.CHECK[fmt](d2, m, df)
        except Violation as v:
            what = ", ".join(f"{f} at operation {n} {disk.ops[n - 1] if n <= len(disk.ops) else ''}"
                             for f, n in hard[:3]) or "no fault"
            raise Violation("unreported", f"saving {fmt} returned ({what}) but {v.kind}: "
                            f"{v.message}") from None
    finally:
        os.chdir(here)
        saves.drop(d)


def shrink(case):
    for p in faultfs.shrink_plan(case["plan"]):
        yield {**case, "plan": p}
    for key, v in (("big", None), ("before", "empty"), ("path", "Path"), ("k", 0)):
        if case.get(key) != v:
            yield {**case, key: v}


__all__ = ["core", "gen", "run", "shrink"]
