"""C13: saving has no side effects on the model or on the process."""

from __future__ import annotations

import gc
import hashlib
import json
import os
from pathlib import Path

from sim import ambient, canon, faultfs, procstate, saves
from sim.core import HarnessError, Violation

PLAN = {"quick": {"runs": 1204, "batch": 14}, "thorough": {"runs": 80000, "batch": 28}}
RULE = ("A run sets up a caller's process (pyplot figures with content, a current figure, "
        "seeded global generators, changed settings, working directory, open files), then "
        "performs one to four saves of real models in drawn formats, half of them failing at "
        "a drawn disk operation or line of the library, and compares everything of the "
        "process and every value of the model before and after each; at the end the files of "
        "one more save are compared with those a process that saved nothing before writes. "
        "Non-trivial: every run; distinct by case.")
STATE_MEASURE = "distinct (formats saved so far, fault, figures open)"
REAL = ["instancespace._serialisers and model (all of it)", "zipfile, pandas, numpy, "
        "scipy.io, matplotlib and pyplot, Pillow, csv and io Python code"]
STUB = ["open files and directory operations below the output folder (simulated disk)"]
ASSUMPTIONS = ["lazily filled caches inside third-party libraries are not side effects"]
MUST_FIRE = ["saves_ok", "saves_failed", "line_fault", "figures", "no_figures", "graphs",
             "files_equal"]
WALL_LIMIT = 240
CPU_LIMIT = 90


def warm(tier):
    saves.warm()
    m, _ = saves.model_of(0)
    d = saves.scratch()
    for f in saves.FORMATS:  # lazy imports and caches of matplotlib and pandas
        try:
            saves.save(m, f, Path(d))
        except Exception:  # noqa: BLE001, S112
            continue
    saves.drop(d)
    procstate.snapshot()
    gc.collect()
    gc.freeze()  # later collections look only at what the runs made


def gen(rng, index, tier):
    case = {"k": index // PLAN[tier]["batch"], "figs": rng.choice([0, 1, 2, 3]),
            "current": rng.random(), "seed": rng.getrandbits(30), "cwd": rng.random() < 0.4,
            "rc": rng.choice(["none", "none", "grid", "font", "interactive"]),
            "other_model": rng.random() < 0.15, "steps": []}
    graphs = rng.random() < 0.12
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        fmt = "graphs" if graphs and rng.random() < 0.5 else rng.choice(
            ["csv", "csv", "web", "mat", "zip:o.zip"])
        st = {"fmt": fmt, "str": rng.random() < 0.3}
        r = rng.random()
        if r < 0.35:
            st["plan"] = faultfs.gen_fault(rng, faultfs.gen_knobs(rng),
                                           ["errors", "errors", "close", "full", "interrupt",
                                            "memory"])
        elif r < 0.55:
            st["line"] = rng.randint(1, {"csv": 140, "web": 60, "graphs": 700}.get(fmt, 25))
            st["exc"] = rng.choice(["LineFault", "MemoryError", "KeyboardInterrupt"])
        case["steps"].append(st)
    if graphs and not any(s["fmt"] == "graphs" for s in case["steps"]):
        case["steps"][0]["fmt"] = "graphs"
    case["last"] = "graphs" if graphs and rng.random() < 0.6 else rng.choice(
        ["csv", "web", "mat"])
    return case


EXC = {"LineFault": ambient.LineFault, "MemoryError": MemoryError,
       "KeyboardInterrupt": KeyboardInterrupt}


def digests(files: dict) -> dict:
    return {f: hashlib.md5(repr(v).encode()).hexdigest() for f, v in files.items()}


_REF: dict = {}


def reference(k: int, fmt: str, m, rc) -> dict:
    """What a process that saved nothing before and has no figures writes."""
    if (k, fmt, rc) not in _REF:
        def go(report):
            d = saves.scratch()
            try:
                saves.save(m, fmt, Path(d))
                faultfs._real["write"](report, json.dumps(digests(saves.listing(d))).encode())
            finally:
                saves.drop(d)

        how, code, info = faultfs.in_child(go, 120)
        if how != "exit" or code != 0:
            raise Violation("failed", f"saving {fmt} of a built model fails: {info}")
        _REF[k, fmt, rc] = info
    return _REF[k, fmt, rc]


def setup(case, d):
    import matplotlib as mpl
    import matplotlib.pyplot as plt

    plt.close("all")
    mpl.rcParams["axes.grid"] = case["rc"] == "grid"
    mpl.rcParams["font.size"] = 12.0 if case["rc"] == "font" else 10.0
    plt.ion() if case["rc"] == "interactive" else plt.ioff()
    ref_rc = case["rc"] if case["rc"] in ("grid", "font") else ""
    return ref_rc


def figures(case):
    import matplotlib.pyplot as plt

    nums = []
    for i in range(case["figs"]):
        fig = plt.figure(num=1 + 2 * i)
        ax = fig.subplots()
        ax.plot([0, i], [1, 2])
        ax.set_title(f"mine {i}")
        nums.append(fig.number)
    if nums:
        plt.figure(nums[int(case["current"] * len(nums))])


def run(case, env):
    m, _df = saves.model_of(case["k"])
    m2 = saves.model_of(case["k"] + 1)[0] if case["other_model"] else m
    before_model = canon.canon(m)
    d = saves.scratch()
    here = os.getcwd()
    ref_rc = setup(case, d)
    want = reference(case["k"], case["last"], m, ref_rc)
    figures(case)
    env.probe("figures" if case["figs"] else "no_figures")
    caller = open(os.path.join(d, "caller.txt"), "w")  # noqa: SIM115
    caller.write("x")
    work = os.path.join(d, "work")
    os.mkdir(work)
    if case["cwd"]:
        os.chdir(work)
    ambient.seed_globals(case["seed"])
    done = []
    try:
        env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
        for st in case["steps"]:
            fmt = st["fmt"]
            env.probe(fmt.split(":")[0])
            out = os.path.join(d, "out")
            os.makedirs(out, exist_ok=True)
            plan = {"seed": 0}
            if "plan" in st:
                plan = faultfs.place(st["plan"], *size_of(case["k"], fmt, m))
            gc.collect()
            disk = faultfs.Disk(out, plan, env)
            state, open_before = procstate.snapshot(), procstate.fds()
            err = None
            try:
                with faultfs.mounted(disk):
                    arg = out if st["str"] else Path(out)
                    if "line" in st:
                        exc = EXC[st["exc"]]("injected")
                        with ambient.fail_at_line(st["line"], exc) as left:
                            saves.save(m2 if fmt != case["last"] else m, fmt, arg)
                        del exc
                    else:
                        saves.save(m2 if fmt != case["last"] else m, fmt, arg)
            except HarnessError:
                raise
            except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                err = type(e).__name__
                e.__traceback__ = None
                e.__context__ = None
                del e
            if "line" in st and left[0] <= 0:
                env.probe("line_fault")
                env.faults[f"line_{st['exc']}"] += 1
            env.probe("saves_failed" if err else "saves_ok")
            done.append((fmt.split(":")[0], bool(err)))
            env.log("saved", fmt, err, disk.n, len(disk.fired))
            env.state((tuple(done), [k for k, _ in disk.fired[-1:]], case["figs"], err))
            if err:
                gc.collect()
            after, open_after = procstate.snapshot(), procstate.fds()
            what = f"saving {fmt}" + (f" (which failed with {err})" if err else "")
            for key, how in procstate.changes(state, after):
                raise Violation("process", f"{what} changed {key}" + (f": {how}" if how
                                                                      else ""))
            extra = procstate.left_open(open_before, open_after)
            if extra or disk.live:
                names = [p.replace(d, "DIR") for p in extra]
                raise Violation("open-files", f"{what} left files open: {names}")
            gone = [n for n in open_before if n not in open_after]
            if gone:
                raise Violation("open-files", f"{what} closed files of the caller")
            now = canon.canon(m)
            if now != before_model:
                raise Violation("model", f"{what} changed the model: "
                                + "; ".join(canon.diff(before_model, now))[:300])
        last = os.path.join(d, "last")
        os.mkdir(last)
        try:
            saves.save(m, case["last"], Path(last))
        except Exception as e:  # noqa: BLE001
            raise Violation("failed", f"saving {case['last']} after {done} raises "
                            f"{type(e).__name__}: {e}"[:300]) from None
        got = digests(saves.listing(last))
        for f in sorted(set(got) | set(want)):
            if got.get(f) != want.get(f):
                raise Violation("history", f"{f} saved after {done} with {case['figs']} "
                                "figures open is not the file a fresh process writes")
        env.probe("files_equal")
    finally:
        os.chdir(here)
        caller.close()
        saves.drop(d)


_SIZE: dict = {}


def size_of(k, fmt, m) -> tuple:
    """(operations, bytes) of a clean save, measured in a child so as to leave no trace."""
    if (k, fmt) not in _SIZE:
        def go(report):
            d = saves.scratch()
            try:
                disk = faultfs.Disk(d, {"seed": 0})
                with faultfs.mounted(disk):
                    saves.save(m, fmt, Path(d))
                size = sum(e.stat().st_size for e in os.scandir(d))
                faultfs._real["write"](report, json.dumps(
                    {"ops": disk.ops, "size": size}).encode())
            finally:
                saves.drop(d)

        how, code, info = faultfs.in_child(go, 120)
        if how != "exit" or code != 0:
            raise Violation("failed", f"saving {fmt} of a built model fails: {info}")
        _SIZE[k, fmt] = ([tuple(o) for o in info["ops"]], info["size"])
    return _SIZE[k, fmt]


def shrink(case):
    st = case["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield {**case, "steps": st[:i] + st[i + 1:]}
    for i, s in enumerate(st):
        for key in ("plan", "line"):
            if key in s:
                yield {**case, "steps": [*st[:i], {a: b for a, b in s.items() if a != key},
                                         *st[i + 1:]]}
        if "plan" in s:
            for q in faultfs.shrink_plan(s["plan"]):
                yield {**case, "steps": [*st[:i], {**s, "plan": q}, *st[i + 1:]]}
    for key, v in (("figs", 0), ("rc", "none"), ("other_model", False), ("cwd", False),
                   ("last", "mat"), ("k", 0)):
        if case[key] != v:
            yield {**case, key: v}
