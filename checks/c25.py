"""C25: InstanceSpaces used from different threads do not affect each other."""

from __future__ import annotations

import hashlib
import os
import shutil
import tempfile
import threading

import numpy as np

from sim import ambient, canon, core, pipeline, saves, threads
from sim.core import Violation

PLAN = {"quick": {"runs": 280, "batch": 2}, "thorough": {"runs": 20000, "batch": 6,
                                                         "soft_wall": 3 * 3600}}
RULE = ("A run gives two or three simulated threads a list each of one to three jobs - build "
        "a small instance space (own or shared metadata and options objects), run its stages "
        "one at a time, save an own model in any format into an own directory, load metadata "
        "and options - does each list alone, and then all at once under a drawn schedule that "
        "preempts threads at lines of the library. Non-trivial: at least one preemption "
        "switched threads between two lists; distinct by the whole case.")
STATE_MEASURE = "distinct (function, line) at which a thread was preempted, by kind of job"
REAL = ["all of instancespace", "numpy, scipy, pandas, sklearn, pygad, matplotlib, shapely",
        "concurrent.futures and threading Python code"]
STUB = ["locks, thread start, clock, CPU count (simulated)",
        "skopt's surrogate model (random search in place of the Gaussian process)"]
ASSUMPTIONS = ["threads are preempted at lines of instancespace and at lock operations, not "
               "inside numpy, matplotlib or other packages",
               "the caller's threads do not change numpy's error state or warning filters"]
MUST_FIRE = ["preempted", "job_build", "job_iter", "job_save", "job_load", "shared_objects",
             "two_builds", "two_saves", "build_and_save", "two_genetic"]
WALL_LIMIT = 200
CPU_LIMIT = 150
MIN_S = 100
MODELS = 4
GENETIC: list = []  # the lists that reached the genetic selection


def warm(tier):
    from checks import c09

    c09.warm_reference()
    saves.warm()
    for k in range(MODELS):
        saves.model_of(k)


def gen(rng, index, tier):
    lists = []
    files = rng.random() < 0.5  # only short jobs, with many preemptions
    for _ in range(rng.choice([2, 2, 3])):
        jobs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random() if not files else 0.4 + 0.6 * rng.random()
            if r < 0.4:
                spec = gen_spec(rng, rng.choice(["sifted", "sifted", "pilot", "all", "all"]))
                jobs.append({"job": rng.choice(["build", "iter"]), "spec": spec})
            elif r < 0.85:
                jobs.append({"job": "save", "model": rng.randrange(MODELS),
                             "fmt": rng.choice(["csv", "web", "graphs", "mat"]),
                             "rel": rng.random() < 0.3})
            else:
                jobs.append({"job": "load", "model": rng.randrange(MODELS)})
        lists.append(jobs)
    shared = None
    if not files and rng.random() < 0.4:
        shared = gen_spec(rng, rng.choice(["sifted", "all"]))
        for jobs in lists[:2]:
            jobs[rng.randrange(len(jobs))] = {"job": rng.choice(["build", "iter"]),
                                              "spec": None}
    return {"lists": lists, "shared": shared, "seed": rng.getrandbits(31),
            "plan": {"seed": rng.getrandbits(40),
                     "policy": rng.choice(["random", "prio", "newest", "oldest"]),
                     "rate": rng.choice([0.02, 0.1, 0.5] if files
                                        else [0.0005, 0.003, 0.02]),
                     "opcodes": False, "stall": 0}}


def gen_spec(rng, kind):
    spec = pipeline.gen_spec(rng, kind)
    spec["nf"] = rng.choice([2, 3, 3, 5, 6] if kind != "sifted" else [5, 6, 7])
    if kind == "sifted":
        spec["selvars"], spec["missing"] = {}, 0.0
    spec["noise"] = min(spec["noise"], 0.4)
    spec["sifted"]["rho"] = 0.1
    return spec


def do_list(case, i, top, common, out):
    """One thread's jobs; appends the canonical result of each to out."""
    for j, job in enumerate(case["lists"][i]):
        try:
            out.append(("ok", do_job(job, os.path.join(top, f"{i}.{j}"), common)))
        except (core.NoProgress, threads.SimDeadlock):
            raise
        except Exception as e:  # noqa: BLE001
            out.append(("err", type(e).__name__, str(e)[:300]))


def do_job(job, where, common):
    if job["job"] in ("build", "iter"):
        spec = job["spec"] or common["spec"]
        if job["spec"] is None:
            space = pipeline.make_space(spec, md=common["md"], opts=common["opts"])
        else:
            space = pipeline.make_space(spec)
        if job["job"] == "iter" or spec["kind"] != "all":
            steps = [(o.stage.__name__, o.output) for o in space.run_iter()]
            if any(getattr(o, "clust", None) is not None for _, o in steps):
                GENETIC.append(os.path.basename(where).split(".")[0])
            return canon.canon(steps)
        return canon.canon((space.build(), space.model))
    model, df = saves.model_of(job["model"])
    os.mkdir(where)
    if job["job"] == "save":
        from pathlib import Path

        to = os.path.relpath(where) if job["rel"] else where
        getattr(model, saves.METHOD[job["fmt"]])(Path(to))
        return {n: digest(os.path.join(where, n)) for n in sorted(os.listdir(where))}
    from instancespace.data.metadata import from_csv_file
    from pathlib import Path

    p = Path(where) / "metadata.csv"
    df.to_csv(p, index=False)
    return canon.canon(from_csv_file(p))


def digest(path):
    with open(path, "rb") as f:
        data = f.read()
    if path.endswith(".mat"):
        data = data[128:]  # the header holds the time
    return hashlib.md5(data).hexdigest()


def run(case, env):
    top = tempfile.mkdtemp(prefix="c25.")
    try:
        os.chdir(top)  # a child process of its own: nothing to restore
        _run(case, env, top)
    finally:
        os.chdir("/")
        shutil.rmtree(top, ignore_errors=True)


def common_of(case):
    if not case["shared"]:
        return None
    s = case["shared"]
    return {"spec": s, "md": pipeline.make_metadata(s), "opts": pipeline.make_options(s)}


def _run(case, env, top):
    n = len(case["lists"])
    want: list = [[] for _ in range(n)]
    GENETIC.clear()
    ambient.seed_globals(case["seed"])
    quiet_plan = {**case["plan"], "rate": 0.0, "policy": "oldest"}
    for i in range(n):
        d = os.path.join(top, f"alone{i}")
        os.mkdir(d)
        with core.quiet(), np.errstate(all="ignore"), \
                threads.simulated(quiet_plan, core.Env(), 2):
            do_list(case, i, d, common_of(case), want[i])
    got: list = [[] for _ in range(n)]
    lost: list = []
    d = os.path.join(top, "together")
    os.mkdir(d)
    common = common_of(case)

    def body(i):
        try:
            with np.errstate(all="ignore"):
                do_list(case, i, d, common, got[i])
        except BaseException as e:  # noqa: BLE001
            lost.append((i, repr(e)))

    with core.quiet(), threads.simulated(case["plan"], env, 2) as sched:
        ts = [threading.Thread(target=body, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if lost:
        raise Violation("lost", f"thread {lost[0][0]} died of {lost[0][1]}")
    if sched.alive():
        raise Violation("thread-left", f"threads {sched.alive()} still run at the end")
    kinds = {j["job"] for jobs in case["lists"] for j in jobs}
    for k in kinds:
        env.probe(f"job_{k}")
    has = [{("build" if j["job"] == "iter" else j["job"]) for j in jobs}
           for jobs in case["lists"]]
    if sum("build" in h for h in has) > 1:
        env.probe("two_builds")
    if sum("save" in h for h in has) > 1:
        env.probe("two_saves")
    if any("build" in a and "save" in b for a in has for b in has if a is not b):
        env.probe("build_and_save")
    if case["shared"]:
        env.probe("shared_objects")
    for f in sched.preempted:
        env.state(f)
    if len(set(GENETIC)) > 1:
        env.probe("two_genetic")
    if sched.preempted and n > 1:
        env.probe("preempted")
        env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
    for i in range(n):
        for j, (a, b) in enumerate(zip(want[i], got[i], strict=True)):
            env.log(i, j, a[0], canon.digest(b))
            if a != b:
                what = describe(case["lists"][i][j])
                others = ", ".join(describe(x) for k, jobs in enumerate(case["lists"])
                                   if k != i for x in jobs)
                raise Violation("affected", f"{what} gave another result while another thread "
                                f"did: {others}: {explain(a, b)}")


def describe(job):
    return job["job"] + (f" {job['fmt']}" if "fmt" in job else "")


def explain(a, b):
    if a[0] == b[0] == "ok":
        return "; ".join(canon.diff(a[1], b[1]))[:1000]
    return f"alone {a[0]} {a[1:] if a[0] == 'err' else ''}, together {b[0]} " \
           f"{b[1:] if b[0] == 'err' else ''}"[:600]


def shrink(case):
    lists = case["lists"]
    for i in range(len(lists)):
        if len(lists) > 2:
            yield {**case, "lists": lists[:i] + lists[i + 1:]}
        for j in range(len(lists[i])):
            if len(lists[i]) > 1:
                yield {**case, "lists": [*lists[:i], lists[i][:j] + lists[i][j + 1:],
                                         *lists[i + 1:]]}
    if case["shared"]:
        yield {**case, "shared": None, "lists": [
            [{**j, "spec": case["shared"]} if j.get("spec", 1) is None else j for j in jobs]
            for jobs in lists]}
    if case["plan"]["policy"] != "oldest":
        yield {**case, "plan": {**case["plan"], "policy": "oldest"}}
    yield {**case, "plan": {**case["plan"], "rate": case["plan"]["rate"] / 4}}
