"""C15: save_zip archives every saved file byte for byte, or raises."""

from __future__ import annotations

import hashlib
import os
import random
import zipfile
from pathlib import Path

from sim import faultfs, saves
from sim.core import Violation

PLAN = {"quick": {"runs": 6000, "batch": 60}, "thorough": {"runs": 400000, "batch": 200}}
RULE = ("A run fills a folder with drawn files (sizes 0 to 300000 bytes, odd names, "
        ".gitignore files, subfolders, older archives good or broken) or with a real save, "
        "lists it in a drawn order, and calls save_zip one to three times through the "
        "simulated disk with short reads and writes and, in most runs, faults at drawn "
        "operations (error at open, read, write, close, stat, directory listing; data lost at "
        "close; disk full; kill; power loss; interrupt). Every return is checked against the "
        "folder byte for byte, then a call without faults must give a good archive. "
        "Non-trivial: a fault fired; distinct by case.")
STATE_MEASURE = "distinct (operation, fault kind, outcome, folder size)"
REAL = ["instancespace.model.Model.save_zip", "zipfile, os.walk, shutil and io Python code",
        "a really killed process"]
STUB = ["open files and directory operations below the output folder (simulated disk)"]
ASSUMPTIONS = ["nobody else changes the folder during the call",
               "files in subfolders have names of their own"]
MUST_FIRE = ["disk_full", "short_read", "crash", "power_loss", "returned_after_fault",
             "raised", "good_archive", "existing_archive", "listing_fault", "real_save",
             "similar_names"]
WALL_LIMIT = 120
CPU_LIMIT = 40


def warm(tier):
    saves.warm()
    saves.model_of(0)


NAMES = ["coordinates.csv", "a b.png", "é.csv", "x", ".hidden", "model.mat", "old.zip",
         "gitignore", "z" * 60, "output", "Output.ZIP", "-", "#1.csv", "q'uote.csv"]


def gen(rng, index, tier):
    names = rng.sample(NAMES, rng.choice([0, 1, 2, 4, 7, 12]))
    case = {"zip": rng.choice(["output.zip", "output.zip", "a é.zip", "data"]),
            "files": {n: [rng.choice([0, 1, 50, 5000, 8192, 65536, 300000]),
                          rng.getrandbits(20)] for n in names},
            "git": rng.random() < 0.4, "real": rng.random() < 0.06,
            "sub": rng.choice([0, 0, 1, 2]), "empty_sub": rng.random() < 0.2,
            "existing": rng.choice(["no", "no", "good", "broken", "large"]),
            "str": rng.random() < 0.5, "calls": []}
    if rng.random() < 0.3:  # names like those that are left out
        z = case["zip"]
        near = ["old-" + z, z + ".bak", z.upper(), z[:-1], z + "x", "a.gitignore",
                ".gitignore.bak", ".gitignores", ".GITIGNORE"]
        for n in rng.sample(near, rng.randint(1, 3)):
            case["files"][n] = [rng.choice([0, 3, 5000]), rng.getrandbits(20)]
        case["near"] = True
    for _ in range(rng.choice([1, 1, 2, 3])):
        plan = faultfs.gen_knobs(rng)
        if rng.random() < 0.85:
            faultfs.gen_fault(rng, plan, ["errors", "errors", "listing", "close", "full",
                                          "memory", "interrupt", "crash", "crash"])
            if rng.random() < 0.15 and "crash" not in plan:
                plan["lists"] = [rng.random()]
        case["calls"].append(plan)
    return case


def build_folder(case, d) -> None:
    for n, (size, seed) in case["files"].items():
        r = random.Random(seed)
        data = r.randbytes(size) if seed % 2 else (b"1.25,abc\n" * (size // 9 + 1))[:size]
        with open(os.path.join(d, n), "wb") as f:
            f.write(data)
    if case["git"]:
        with open(os.path.join(d, ".gitignore"), "wb") as f:
            f.write(b"*\n!.gitignore\n")
    for i in range(case["sub"]):
        os.makedirs(os.path.join(d, f"sub{i}"))
        with open(os.path.join(d, f"sub{i}", f"nested{i}.csv"), "wb") as f:
            f.write(b"n" * (i * 700))
    if case["empty_sub"]:
        os.mkdir(os.path.join(d, "nothing"))
    if case["real"]:
        saves.save(saves.model_of(0)[0], "csv", Path(d))
    z = os.path.join(d, case["zip"])
    if case["existing"] == "good":
        with zipfile.ZipFile(z, "w") as f:
            f.writestr("output/stale.csv", "old" * 50)
    elif case["existing"] == "broken":
        with open(z, "wb") as f:
            f.write(b"PK\x03\x04 broken")
    elif case["existing"] == "large":
        with open(z, "wb") as f:
            f.write(b"\xff" * 2_000_000)


def folder(d, zipname) -> dict:
    out = {}
    for root, _dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            if p == os.path.join(d, zipname):
                continue
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def check_archive(d, case, files, what) -> None:
    p = os.path.join(d, case["zip"])
    if not os.path.isfile(p):
        raise Violation("missing", f"{what} returned but there is no {case['zip']}")
    try:
        with zipfile.ZipFile(p) as z:
            bad = z.testzip()
            got: dict = {}
            for i in z.infolist():
                if i.filename in got:
                    raise Violation("twice", f"{what}: {i.filename} is in the archive twice")
                got[i.filename] = z.read(i)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation("bad-zip", f"{what} returned but the archive is not valid: {e!r}"
                        ) from None
    if bad:
        raise Violation("bad-zip", f"{what} returned but {bad} in the archive is broken")
    left = dict(got)
    for rel, data in files.items():
        if os.path.basename(rel) == ".gitignore":
            continue
        name = next((n for n in (f"output/{rel}", f"output/{os.path.basename(rel)}")
                     if n in left), None)
        if name is None:
            raise Violation("lost", f"{what} returned but {rel} is not in the archive")
        if left.pop(name) != data:
            raise Violation("content", f"{what} returned but {rel} differs in the archive")
    left = [n for n in left if not n.endswith("/")]
    if left:
        raise Violation("extra", f"{what}: the archive also holds {left[:4]}")


def run(case, env):
    m = saves.model_of(0)[0]
    d = saves.scratch()
    if case["real"]:
        env.probe("real_save")
    if case.get("near"):
        env.probe("similar_names")
    if case["existing"] != "no":
        env.probe("existing_archive")
    fmt = "zip:" + case["zip"]
    try:
        build_folder(case, d)
        files = folder(d, case["zip"])
        twin = saves.scratch()
        try:
            build_folder(case, twin)
            probe = faultfs.Disk(twin, {"seed": 0})
            with faultfs.mounted(probe):
                try:
                    saves.save(m, fmt, Path(twin))
                except Exception as e:  # noqa: BLE001
                    raise Violation("failed", f"save_zip without a fault raises "
                                    f"{type(e).__name__}: {e}"[:300]) from None
            check_archive(twin, case, files, "save_zip without a fault")
            size = os.path.getsize(os.path.join(twin, case["zip"]))
        finally:
            saves.drop(twin)
        cut = 0
        for plan in [*case["calls"], {"seed": 0}]:
            p = faultfs.place(plan, probe.ops, size)
            if "lists" in p:
                where = [i + 1 for i, o in enumerate(probe.ops)
                         if o[0] in ("scandir", "readdir", "listdir")] or [1]
                p["errs"] = p.get("errs", []) + [
                    {"at": where[int(f * len(where))], "pick": 1} for f in p["lists"]]
            if "crash" in p:
                env.fault("power_loss" if p["crash"]["power"] else "crash")

                def go(report, p=p):
                    disk = faultfs.Disk(d, p)
                    disk.report = report
                    with faultfs.mounted(disk):
                        saves.save(m, fmt, Path(d))

                how, code, info = faultfs.in_child(go)
                env.log("child", how, code, info.get("crashed"), info.get("damage"))
                if how == "hang":
                    raise Violation("hang", "save_zip does not end")
                if code == faultfs.CRASHED:
                    cut += 1
                    env.state((info["crashed"][0], tuple(info["damage"])))
                    env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
                elif code == 0:
                    check_archive(d, case, files, "save_zip")
                else:
                    raise Violation("failed", f"save_zip fails without a fault: {info}")
            else:
                disk = faultfs.Disk(d, p, env)
                err = None
                try:
                    with faultfs.mounted(disk):
                        saves.save(m, fmt, Path(d), as_str=case["str"])
                except (Exception, faultfs.Interrupted) as e:  # noqa: BLE001
                    err = type(e).__name__, str(e).replace(d, "DIR")[:200]
                    e.__traceback__ = None
                    del e
                hard = [f for f in disk.fired if f[0] not in ("short_write", "short_read")]
                env.log("ended", err, disk.n, len(disk.fired))
                if any(k.startswith(("scandir", "readdir")) for k, _ in hard):
                    env.probe("listing_fault")
                if hard:
                    env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
                for kind, n in hard[:5]:
                    env.state((disk.ops[n - 1][0] if n <= len(disk.ops) else None, kind,
                               bool(err), len(files)))
                if err:
                    cut += 1
                    env.probe("raised")
                    if not hard:
                        raise Violation("failed", f"save_zip without a fault, after {cut - 1} "
                                        f"calls that were cut short, raises {err}")
                else:
                    what = "save_zip" + (f" (with {hard[0][0]} at operation {hard[0][1]})"
                                         if hard else "")
                    if hard:
                        env.probe("returned_after_fault")
                    check_archive(d, case, files, what)
                    env.probe("good_archive")
            now = folder(d, case["zip"])
            if now != files:
                bad = [f for f in {*now, *files} if now.get(f) != files.get(f)]
                raise Violation("changed", f"save_zip changed or left behind {sorted(bad)[:4]}")
    finally:
        saves.drop(d)


def shrink(case):
    calls = case["calls"]
    for i in range(len(calls)):
        yield {**case, "calls": calls[:i] + calls[i + 1:]}
    for i, p in enumerate(calls):
        for q in faultfs.shrink_plan(p):
            yield {**case, "calls": [*calls[:i], q, *calls[i + 1:]]}
        if "lists" in p:
            yield {**case, "calls": [*calls[:i], {a: b for a, b in p.items() if a != "lists"},
                                     *calls[i + 1:]]}
    for n in case["files"]:
        yield {**case, "files": {a: b for a, b in case["files"].items() if a != n}}
    for n, (size, seed) in case["files"].items():
        if size > 1:
            yield {**case, "files": {**case["files"], n: [1, seed]}}
    for key, v in (("git", False), ("real", False), ("sub", 0), ("empty_sub", False),
                   ("existing", "no"), ("str", False), ("zip", "output.zip")):
        if case[key] != v:
            yield {**case, key: v}
