"""C26: building leaves the caller's process, and what the caller handed in, as they were."""

from __future__ import annotations

import contextlib
import copy
import decimal
import gc
import hashlib
import logging
import os
import random
import signal
import sys
import warnings

import numpy as np

from checks import c24
from sim import ambient, canon, core, loader, pipeline, procpool, procstate, saves, threads
from sim.core import HarnessError, Violation

PLAN = {"quick": {"runs": 240, "batch": 3}, "thorough": {"runs": 20000, "batch": 6,
                                                         "soft_wall": 3 * 3600}}
RULE = ("A run prepares a caller's process (seeded global generators, changed NumPy, pandas, "
        "decimal, logging and matplotlib settings and warning filters, figures, a working "
        "directory, open files), then makes a small instance space and performs two to five "
        "drawn operations on it: whole builds, builds that fail with a drawn exception at a "
        "drawn line, iterations abandoned after a drawn stage, parallel builds whose workers "
        "may die, single stages run by themselves, and loads of good and bad files. Before and after each - and whenever an "
        "iteration hands control back - the state of the process, the folders around it and "
        "the data frame, metadata and options handed in must be the same. Non-trivial: every "
        "run; distinct by the whole case.")
STATE_MEASURE = "distinct (operation, point of failure or stage reached, settings of the caller)"
REAL = ["all of instancespace except saving", "numpy, scipy, pandas, sklearn, pygad, skopt, "
        "alphashape, shapely, joblib's Python code", "memory of each worker process (forked)"]
STUB = ["clock, thread scheduling, CPU count, OS entropy, process pools (simulated)",
        "skopt's surrogate model (random search in place of the Gaussian process)"]
ASSUMPTIONS = ["lazily filled caches inside third-party libraries are not side effects, nor are "
               "the idle worker processes joblib keeps for later"]
MUST_FIRE = ["built", "failed_build", "abandoned", "parallel", "loaded", "load_gave_none",
             "genetic_selection", "bayes", "between_stages", "worker_process_dies",
             "in_try_block", "in_altered_block", "figures", "stage_alone"]
WALL_LIMIT = 200
CPU_LIMIT = 120
MIN_S = 100


def warm(tier):
    c24.warm(tier)
    saves.warm()
    procstate.snapshot()
    gc.collect()
    gc.freeze()


SETTINGS = {"numpy": ["default", "over_ignored", "print"], "pandas": ["default", "precision",
            "max_rows"], "warn": ["default", "mine"], "decimal": ["default", "precise"],
            "logging": ["default", "debug"], "mpl": ["default", "grid", "interactive"]}


def gen(rng, index, tier):
    spec = c24.gen_spec(rng, rng.choice(["sifted", "sifted", "pilot", "all", "all", "pythia"]))
    if spec["kind"] in ("all", "pythia") and rng.random() < 0.35:
        spec["pythia"]["use_grid_search"] = False
    case = {"spec": spec, "seed": rng.getrandbits(31), "shared": rng.random() < 0.6,
            "settings": {k: rng.choice(v) for k, v in SETTINGS.items()},
            "figs": rng.choice([0, 0, 1, 2]), "steps": [],
            "plan": {"seed": rng.getrandbits(40), "rate": rng.choice([0.0, 0.0, 0.0005]),
                     "policy": rng.choice(["random", "prio", "newest", "oldest"]),
                     "opcodes": False, "stall": 0}}
    for _ in range(rng.randint(2, 5)):
        op = rng.choices(["fail", "iter", "load", "stage", "parallel", "build"],
                         [6, 3, 2, 3, 1, 1])[0]
        st: dict = {"op": op}
        if op == "fail":
            st.update(c24.gen_fault(rng))
            if rng.random() < 0.4:  # where something of the process is not as before
                st["where"] = "altered"
        elif op == "iter":
            st.update(stop=rng.randint(1, 6), drop=rng.random() < 0.5)
        elif op == "load":
            st.update(call=rng.choice(["csv", "json", "files", "directory"]),
                      bad=rng.choice(["", "", "missing", "undecodable", "empty", "folder"]),
                      line=rng.choice([0, 0, rng.randint(1, 60)]),
                      exc=rng.choice(sorted(c24.KINDS)))
        elif op == "stage":
            st.update(of=rng.random(), line=rng.choice([0, 0, 10, 100, 1000]),
                      exc=rng.choice(sorted(c24.KINDS)))
            st["line"] += st["line"] and rng.randint(0, 9 * st["line"])
        elif op == "parallel":
            st.update(cores=rng.choice([2, 3, 4]), procs={"slow": 0.05, "fresh": False})
            if rng.random() < 0.5:
                st["procs"]["die"] = {str(rng.randint(1, 8)): rng.choice(["before", "after"])}
        case["steps"].append(st)
    return case


@contextlib.contextmanager
def caller(case):
    """The process of the caller: settings, figures, files, a folder of its own."""
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import pandas as pd

    s = case["settings"]
    here, level, tmp = os.getcwd(), logging.getLogger().level, os.environ.get("TMPDIR")
    import tempfile

    tempdir = tempfile.tempdir
    d = saves.scratch()
    with contextlib.ExitStack() as stack:
        stack.callback(saves.drop, d)
        stack.callback(os.chdir, here)
        stack.enter_context(warnings.catch_warnings())
        stack.enter_context(np.errstate())
        stack.enter_context(np.printoptions())
        stack.enter_context(decimal.localcontext())
        stack.enter_context(mpl.rc_context())
        stack.enter_context(pd.option_context("display.precision", 6, "display.max_rows", 60))
        stack.callback(logging.getLogger().setLevel, level)
        stack.callback(plt.close, "all")
        stack.callback(plt.ioff)

        def untmp():
            tempfile.tempdir = tempdir
            os.environ.pop("TMPDIR", None)
            if tmp is not None:
                os.environ["TMPDIR"] = tmp

        stack.callback(untmp)
        for n in ("work", "tmp", "in"):
            os.mkdir(os.path.join(d, n))
        os.environ["TMPDIR"] = os.path.join(d, "tmp")
        tempfile.tempdir = os.path.join(d, "tmp")
        os.chdir(os.path.join(d, "work"))
        f = open(os.path.join(d, "work", "mine.txt"), "w")  # noqa: SIM115
        stack.callback(f.close)
        f.write("x")
        f.flush()
        if s["numpy"] == "over_ignored":
            np.seterr(over="ignore", invalid="warn", divide="ignore")
        elif s["numpy"] == "print":
            np.set_printoptions(precision=3, suppress=True)
        if s["pandas"] == "precision":
            pd.set_option("display.precision", 3)
        elif s["pandas"] == "max_rows":
            pd.set_option("display.max_rows", 7)
        if s["warn"] == "mine":
            warnings.filterwarnings("always", message="mine")
        if s["decimal"] == "precise":
            decimal.getcontext().prec = 50
        if s["logging"] == "debug":
            logging.getLogger().setLevel(logging.DEBUG)
        plt.close("all")
        mpl.rcParams["axes.grid"] = s["mpl"] == "grid"
        plt.ion() if s["mpl"] == "interactive" else plt.ioff()
        for i in range(case["figs"]):
            fig = plt.figure(num=1 + 2 * i)
            fig.subplots().plot([0, i], [1, 2])
        yield d


def attempt(fn):
    """As c24.attempt, but under the caller's own NumPy error settings."""
    try:
        return "ok", fn()
    except (core.NoProgress, threads.SimDeadlock, HarnessError):
        raise
    except BaseException as e:  # noqa: BLE001
        return "err", e


@contextlib.contextmanager
def recorded(into: list):
    """Notes each stage that runs, with what it is given."""
    stages = pipeline.stage_list()
    saved = [(st, vars(st)["_run"]) for st in stages]

    def wrap(st, real):
        def run_it(inputs):
            into.append((st, copy.deepcopy(inputs)))
            return real(inputs)
        return staticmethod(run_it)

    for st, _ in saved:
        st._run = wrap(st, st._run)
    try:
        yield
    finally:
        for st, was in saved:
            st._run = was


def brief() -> dict:
    """Parts of the process state that are quick to look at."""
    g = np.random.get_state(legacy=False)["state"]
    return {"warnings": tuple(map(id, warnings.filters)), "numpy": tuple(np.geterr().items()),
            "folder": os.getcwd(), "environ": hash(frozenset(os.environ._data.items())),
            "random": hash(random.getstate()), "np.random": (g["pos"], int(g["key"][0])),
            "logging": (logging.root.manager.disable, logging.root.level),
            "recursion": sys.getrecursionlimit(), "gc": gc.isenabled(),
            "streams": (id(sys.stdout), id(sys.stderr)),
            "signals": tuple(map(signal.getsignal, (signal.SIGINT, signal.SIGTERM)))}


class Build(c24.Build):
    def __init__(self, spec, shared) -> None:
        self.frame = pipeline.make_frame(spec)
        self.frame_was = canon.canon(self.frame)
        self.ran: list = []  # (stage, its inputs)
        self.before = brief()
        self.altered: dict = {}  # what -> [(point, execution)] while it is not as before
        with recorded(self.ran):
            super().__init__(spec, shared)
        order = [st.__name__ for st in pipeline.stage_list()]
        self.ran.sort(key=lambda r: order.index(r[0].__name__))

    def note(self, code, line) -> None:
        k = c24.where(code, line)
        n = self.counts[k] = self.counts.get(k, 0) + 1
        if n <= 4 or n & (n - 1) == 0:
            for c in c24.cover(sys._getframe(1)):
                self.covered[c].append((k, n - 1))
            now = brief()
            if now != self.before:
                for what, v in now.items():
                    if v != self.before[what]:
                        self.altered.setdefault(what, []).append((k, n - 1))

    def pick(self, f, env) -> tuple:
        if f["where"] != "altered" or not self.altered:
            return super().pick(f, env)
        kinds = sorted(self.altered)
        i, at = divmod(f["at"] * len(kinds), 1)
        self.covered["altered"] = self.altered[kinds[int(i)]]
        return super().pick({**f, "at": at}, env)

    def make(self):
        md = pipeline._M["Metadata"].from_data_frame(self.frame)
        self.md = md
        return pipeline.make_space(self.spec, md=md, opts=self.opts)

    def go(self):
        return attempt(lambda: pipeline.run_space(self.space, self.spec))

    def handed(self) -> dict:
        return {"data frame": canon.canon(self.frame), "metadata": canon.canon(self.md),
                "options": canon.canon(self.opts)}


class Watch:
    """Compares the process and the caller's objects with what they were."""

    def __init__(self, d, b) -> None:
        self.d, self.b = d, b
        self.take()

    def take(self) -> None:
        self.state, self.fds = procstate.snapshot(), procstate.fds()
        self.folders = self.listing()
        self.given = self.b.handed() if self.b else {}

    def listing(self) -> list:
        out = []
        for root, dirs, files in os.walk(self.d):
            out += sorted(os.path.relpath(os.path.join(root, f), self.d)
                          for f in [*dirs, *files])
        return sorted(out)

    def check(self, what) -> None:
        for k, how in procstate.changes(self.state, procstate.snapshot()):
            raise Violation("process", f"{what} changed {k}" + (f": {how}" if how else ""))
        now = procstate.fds()
        extra = procstate.left_open(self.fds, now)
        if extra:
            raise Violation("open-files", f"{what} left files open: "
                            f"{[p.replace(self.d, 'DIR') for p in extra]}")
        if set(self.fds) - set(now):
            raise Violation("open-files", f"{what} closed files of the caller")
        files = self.listing()
        if files != self.folders:
            raise Violation("files", f"{what} changed the folders around it: "
                            f"{sorted(set(files) ^ set(self.folders))}")
        if self.b:
            for k, v in self.b.handed().items():
                if v != self.given[k]:
                    raise Violation("handed-in", f"{what} changed the {k} the caller handed in: "
                                    + "; ".join(canon.diff(self.given[k], v))[:600])


def run(case, env):
    env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
    with core.quiet(), caller(case) as d, ambient.entropy(1), \
            threads.simulated(case["plan"], env, 2) as sched:
        ambient.seed_globals(case["seed"])
        if case["figs"]:
            env.probe("figures")
        w = Watch(d, None)
        for k in range(3):  # some data has no good features, or too few
            b = Build({**case["spec"], "seed": case["spec"]["seed"] + k}, case["shared"])
            env.steps += sum(b.counts.values())
            if b.ref[0] == "ok":
                break
        if canon.canon(b.frame) != b.frame_was:
            raise Violation("handed-in", "making and building a space changed the data frame "
                            "the caller handed in: "
                            + "; ".join(canon.diff(b.frame_was, canon.canon(b.frame)))[:600])
        w.check("making and building a space"
                + ("" if b.ref[0] == "ok" else f" (failed with {b.ref[1]!r})"))
        env.log("reference", b.ref[0])
        env.probe("built" if b.ref[0] == "ok" else "reference_error")
        if any(p[1].endswith("cost_fcn") for p in b.counts):
            env.probe("genetic_selection")
        if any(p[1].endswith("_bayes") or "bayes" in p[1] for p in b.counts) or (
                case["spec"]["kind"] in ("all", "pythia") and b.ref[0] == "ok"
                and not case["spec"]["pythia"]["use_grid_search"]):
            env.probe("bayes")
        for st in case["steps"]:
            w = Watch(d, b)
            what = OPS[st["op"]](st, b, case, sched, env, w)
            gc.collect()
            if what:
                w.check(what)
                env.state((st["op"], what.split(":")[0], tuple(case["settings"].values())))
                env.log(st["op"], what)


def op_build(st, b, case, sched, env, w):
    got = b.go()
    if got[0] == "ok":
        env.probe("built")
    return "a build"


def op_fail(st, b, case, sched, env, w):
    if b.ref[0] == "err":
        return None
    point, nth = b.pick(st, env)
    if point[0] == "cloister.py" and issubclass(c24.KINDS[st["exc"]], ValueError):
        st = {**st, "exc": "MemoryError"}
    left, fired = [nth], []

    def strike(code, line):
        if fired or c24.where(code, line) != point:
            return
        if left[0]:
            left[0] -= 1
            return
        if loader.in_cleanup(sys._getframe(1)):
            return
        fired.append(1)
        raise c24.KINDS[st["exc"]]("injected")

    with c24.lines(strike):
        got = b.go()
    name = type(got[1]).__name__ if got[0] == "err" else None
    del got
    if not fired:
        env.probe("not_reached")
        return "a build"
    env.fault(st["exc"])
    env.probe("failed_build")
    return (f"a build that failed with {name} at {point[0]}:{point[1]}+{point[2]}, "
            f"execution {nth + 1}")


def op_iter(st, b, case, sched, env, w):
    if b.ref[0] == "err":
        return None
    it = b.space.run_iter()
    seen = []
    for _ in range(st["stop"]):
        got = attempt(lambda: next(it, None))
        if got[0] == "err" or got[1] is None:
            break
        seen.append(got[1].stage.__name__)
        env.probe("between_stages")
        w.check(f"stepping through a build: running {seen[-1]}")
    if not st["drop"]:
        it.close()
    del it
    env.probe("abandoned")
    return f"a build stepped through and abandoned after {seen[-1] if seen else 'nothing'}"


def op_stage(st, b, case, sched, env, w):
    if not b.ran:
        return None
    stage, inputs = b.ran[int(st["of"] * len(b.ran))]
    inputs = copy.deepcopy(inputs)
    given = canon.canon(inputs)
    fault = ambient.fail_at_line(st["line"], c24.KINDS[st["exc"]]("injected")) \
        if st["line"] else contextlib.nullcontext([1])
    with fault as left:
        got = attempt(lambda: stage._run(inputs))
    what = f"running {stage.__name__} by itself"
    if st["line"] and left[0] <= 0:
        env.fault(st["exc"])
        what += f" (which failed with {type(got[1]).__name__})" if got[0] == "err" else ""
    del got
    env.probe("stage_alone")
    now = canon.canon(inputs)
    if now != given:
        raise Violation("handed-in", f"{what} changed what it was given: "
                        + "; ".join(canon.diff(given, now))[:600])
    return what


def op_parallel(st, b, case, sched, env, w):
    if case["spec"]["kind"] == "pilot":
        return None
    opts = pipeline.make_options(case["spec"], (True, st["cores"]))
    with procpool.processes(st["procs"], sched, env) as world:
        got = attempt(lambda: pipeline.run_space(
            pipeline.make_space(case["spec"], md=b.md, opts=opts), case["spec"]))
        name = type(got[1]).__name__ if got[0] == "err" else None
        del got
        gc.collect()
    if world.tasks:
        env.probe("parallel")
    if world.open_pools:
        raise Violation("process", "a parallel build left a pool of worker processes open")
    return "a parallel build" + (f" that failed with {name}" if name else "")


CALLS = {"csv": lambda p: _f("metadata", "from_csv_file")(os.path.join(p, "metadata.csv")),
         "json": lambda p: _f("options", "from_json_file")(os.path.join(p, "options.json")),
         "files": lambda p: _f(None, "instance_space_from_files")(
             _path(p, "metadata.csv"), _path(p, "options.json")),
         "directory": lambda p: _f(None, "instance_space_from_directory")(_path(p))}


def _f(mod, name):
    from instancespace import instance_space
    from instancespace.data import metadata, options

    return getattr({"metadata": metadata, "options": options, None: instance_space}[mod], name)


def _path(*a):
    from pathlib import Path

    return Path(os.path.join(*a))


def op_load(st, b, case, sched, env, w):
    p = os.path.join(w.d, "in")
    for n in os.listdir(p):
        q = os.path.join(p, n)
        os.rmdir(q) if os.path.isdir(q) else os.unlink(q)
    b.frame.to_csv(os.path.join(p, "metadata.csv"), index=False)
    with open(os.path.join(p, "options.json"), "w") as f:
        f.write("{}")
    names = ["metadata.csv", "options.json"]
    bad = os.path.join(p, names[st["call"] == "json" or (st["call"] != "csv" and
                                                         case["seed"] % 2)])
    if st["bad"]:
        os.unlink(bad)
        if st["bad"] == "folder":
            os.mkdir(bad)
        elif st["bad"] != "missing":
            with open(bad, "wb") as f:
                f.write(b"" if st["bad"] == "empty" else b"Inst\xff\xfe,feature_a\n")
    gc.collect()
    w.take()
    go = CALLS[st["call"]]
    if st["line"]:
        with ambient.fail_at_line(st["line"], c24.KINDS[st["exc"]]("injected")):
            got = attempt(lambda: go(p))
    else:
        got = attempt(lambda: go(p))
    env.probe("loaded" if got[0] == "ok" and got[1] is not None else
              "load_gave_none" if got[0] == "ok" else "load_failed")
    how = f"{got[0]} {type(got[1]).__name__}"
    del got
    return f"loading ({st['call']}, {st['bad'] or 'good file'}, {how})"


OPS = {"build": op_build, "stage": op_stage, "fail": op_fail, "iter": op_iter, "parallel": op_parallel,
       "load": op_load}


def shrink(case):
    for steps in core.shrink_list(case["steps"], 0):
        yield {**case, "steps": steps}
    s = case["spec"]
    for k in ("sifted", "pilot"):
        if s["kind"] != k and s["kind"] != "sifted":
            yield {**case, "spec": {**s, "kind": k}}
    for k, v in case["settings"].items():
        if v != "default":
            yield {**case, "settings": {**case["settings"], k: "default"}}
    for key, v in (("figs", 0), ("plan", {**case["plan"], "rate": 0.0})):
        if case[key] != v:
            yield {**case, key: v}
    for i, f in enumerate(case["steps"]):
        if f["op"] == "fail" and f["where"] != "any":
            yield {**case, "steps": [*case["steps"][:i], {**f, "where": "any"},
                                     *case["steps"][i + 1:]]}
