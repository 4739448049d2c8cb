"""C12: a save cut short by a crash or error can be repeated to a clean result."""

from __future__ import annotations

import hashlib
import os
import pickle
from pathlib import Path

from sim import faultfs, saves
from sim.core import Violation

PLAN = {"quick": {"runs": 2400, "batch": 24}, "thorough": {"runs": 120000, "batch": 48}}
RULE = ("A run saves a real model in one to four formats and perhaps as an archive, through "
        "the simulated disk, one to three times cut short at a drawn operation: the process "
        "killed (buffers lost), power lost (each unsynced file kept, cut, zeroed or gone), an "
        "I/O error, full disk, interrupt or memory error. Then it saves again without faults, "
        "with the same or a reloaded model, and compares the folder with that of a first save. "
        "Non-trivial: at least one save was cut short; distinct by case.")
STATE_MEASURE = "distinct (operation, file, way of being cut short, damage)"
REAL = ["instancespace._serialisers and model (all of it)", "zipfile, pandas, numpy, "
        "scipy.io, matplotlib, Pillow, csv and io Python code", "a really killed process"]
STUB = ["open files and directory operations below the output folder (simulated disk)"]
ASSUMPTIONS = ["power loss acts on whole files: kept, prefix, zero-filled, empty or gone"]
MUST_FIRE = ["crash", "power_loss", "error", "interrupt", "memory_error", "torn_by_power",
             "repeated_ok", "reloaded", "graphs", "zip"]
WALL_LIMIT = 240
CPU_LIMIT = 90
_FRESH: dict = {}


def warm(tier):
    saves.warm()


def gen(rng, index, tier):
    case = {"k": index // PLAN[tier]["batch"], "foreign": rng.random() < 0.3,
            "reload": rng.random() < 0.25}
    if rng.random() < 0.035:
        case["fmts"] = ["graphs"]
    else:
        n = rng.choice([1, 1, 2, 3])
        case["fmts"] = sorted(rng.sample(["csv", "csv", "web", "mat"], n))
    case["fmts"] = list(dict.fromkeys(case["fmts"]))
    if rng.random() < 0.4:
        case["fmts"].append("zip:output.zip")
    case["cuts"] = [faultfs.gen_fault(rng, faultfs.gen_knobs(rng),
                                      ["crash", "crash", "crash", "errors", "close", "full",
                                       "interrupt", "memory"])
                    for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    return case


FOREIGN = {"notes.txt": b"mine\n" * 9, "coordinates.csv.bak": b"old", "footprint_mine.csv":
           b"Row,z_1\n1,2\n", "tmp1234": b"", ".gitignore": b"*\n"}


def folder(case) -> str:
    d = saves.scratch()
    if case["foreign"]:
        for f, data in FOREIGN.items():
            with open(os.path.join(d, f), "wb") as h:
                h.write(data)
    return d


def save_all(m, fmts, d) -> None:
    for f in fmts:
        out = saves.save(m, f, Path(d))
        if f == "mat" and "rror" in out:
            raise OSError("reported: " + out[-100:])


def fresh(case, m) -> tuple:
    """What a first save leaves, and the operations and bytes of it."""
    key = (case["k"], tuple(case["fmts"]), case["foreign"])
    if key not in _FRESH:
        d = folder(case)
        try:
            disk = faultfs.Disk(d, {"seed": 0})
            with faultfs.mounted(disk):
                try:
                    save_all(m, case["fmts"], d)
                except Exception as e:  # noqa: BLE001
                    raise Violation("failed", f"a first save {case['fmts']} raises "
                                    f"{type(e).__name__}: {e}"[:300]) from None
            files = saves.listing(d)
            size = sum(os.path.getsize(os.path.join(d, f)) for f in files
                       if not f.endswith("/") and f not in FOREIGN)
        finally:
            saves.drop(d)
        if len(_FRESH) > 6:
            _FRESH.clear()
        _FRESH[key] = (files, disk.ops, size)
    return _FRESH[key]


def run(case, env):
    m, _df = saves.model_of(case["k"])
    want, ops, size = fresh(case, m)
    d = folder(case)
    cut = 0
    for f in case["fmts"]:
        env.probe(f.split(":")[0])
    try:
        for plan in case["cuts"]:
            p = faultfs.place(plan, ops, size)
            if "crash" in p:
                env.fault("power_loss" if p["crash"]["power"] else "crash")

                def go(report, p=p):
                    disk = faultfs.Disk(d, p)
                    disk.report = report
                    with faultfs.mounted(disk):
                        save_all(m, case["fmts"], d)

                how, code, info = faultfs.in_child(go)
                env.log("child", how, code, info.get("crashed"), info.get("damage"))
                if how == "hang":
                    raise Violation("hang", f"saving {case['fmts']} does not end")
                if code == faultfs.CRASHED:
                    cut += 1
                    env.state(("crash", info["crashed"], tuple(info["damage"])))
                    if any(x in ("prefix", "zeros", "empty", "gone") for x in info["damage"]):
                        env.probe("torn_by_power")
                elif code != 0:
                    raise Violation("failed", f"saving again {case['fmts']} after {cut} cut "
                                    f"saves fails: {info}")
                continue
            disk = faultfs.Disk(d, p, env)
            err = None
            try:
                with faultfs.mounted(disk):
                    save_all(m, case["fmts"], d)
            except (Exception, faultfs.Interrupted) as e:  # noqa: BLE001
                err = type(e).__name__, str(e).replace(d, "DIR")[:200]
                e.__traceback__ = None
                del e
            hard = [f for f in disk.fired if f[0] not in ("short_write", "short_read")]
            env.log("ended", err, disk.n, len(disk.fired))
            if err and not hard:
                raise Violation("failed", f"saving again {case['fmts']} after {cut} cut saves "
                                f"fails without a fault: {err}")
            if err:
                cut += 1
                env.probe("interrupt" if err[0] == "Interrupted" else "error")
                for kind, n in hard[:3]:
                    env.state((disk.ops[n - 1] if n <= len(disk.ops) else None, kind))
        if cut:
            env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
        if case["reload"]:
            env.probe("reloaded")
            m = pickle.loads(pickle.dumps(m))
        try:
            save_all(m, case["fmts"], d)
        except Exception as e:  # noqa: BLE001
            raise Violation("failed", f"saving {case['fmts']} again after {cut} saves were cut "
                            f"short raises {type(e).__name__}: {e}"[:300]) from None
        got = saves.listing(d)
        for f in FOREIGN:
            if want.get(f) is not None and got.get(f) != want[f]:
                raise Violation("foreign", f"{f}, which no save writes, was changed")
        saves.compare(want, got, f"after {cut} saves were cut short, saving {case['fmts']} "
                      "again")
        env.probe("repeated_ok")
    finally:
        saves.drop(d)


def shrink(case):
    cuts = case["cuts"]
    for i in range(len(cuts)):
        if len(cuts) > 1:
            yield {**case, "cuts": cuts[:i] + cuts[i + 1:]}
    for i, p in enumerate(cuts):
        for q in faultfs.shrink_plan(p):
            yield {**case, "cuts": [*cuts[:i], q, *cuts[i + 1:]]}
    for i in range(len(case["fmts"])):
        if len(case["fmts"]) > 1:
            yield {**case, "fmts": case["fmts"][:i] + case["fmts"][i + 1:]}
    for key, v in (("foreign", False), ("reload", False), ("k", 0)):
        if case[key] != v:
            yield {**case, key: v}
