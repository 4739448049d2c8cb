"""C24: a failure anywhere inside a build surfaces, and the next build is unharmed."""

from __future__ import annotations

import contextlib
import dis
import hashlib
import sys

import numpy as np

from sim import ambient, canon, core, loader, pipeline, threads
from sim.core import Violation

PLAN = {"quick": {"runs": 220, "batch": 2}, "thorough": {"runs": 20000, "batch": 4,
                                                         "soft_wall": 3 * 3600}}
RULE = ("A run draws one or two small instance spaces and options, builds each once and "
        "notes which lines of the library that executes and how often, then builds again and "
        "again with one failure each: an exception of a drawn kind at a drawn line and "
        "execution of it, often where one of the library's except, finally or with blocks is "
        "in force. Each failing build must raise that very failure; .model must then still "
        "be what it was; and last builds without a failure must give the first models again. "
        "Non-trivial: at least one failure was raised inside a stage; distinct by the whole "
        "case.")
STATE_MEASURE = "distinct (function, line, kind of exception) that failed"
REAL = ["all of instancespace.stages, instance_space, stage_builder, stage_runner, data",
        "numpy, scipy, pandas, sklearn, pygad, alphashape, shapely"]
STUB = ["clock, thread scheduling, CPU count, OS entropy (simulated)",
        "skopt's surrogate model (random search in place of the Gaussian process)"]
ASSUMPTIONS = ["failures strike at lines of instancespace; a failing allocation inside a C "
               "extension surfaces at the calling line",
               "failures inside scikit-learn's own cross-validation loops are scikit-learn's "
               "to report (it scores them as NaN)"]
MUST_FIRE = ["PreprocessingStage", "PrelimStage", "SiftedStage", "PilotStage",
             "CloisterStage", "PythiaStage", "TraceStage", "retry_ok", "model_kept",
             "failure_in_genetic_selection", "failure_in_trace_worker", "in_try_block",
             "two_spaces"]
WALL_LIMIT = 200
CPU_LIMIT = 120
MIN_S = 100


CODES: set = set()


class BuildFault(Exception):
    pass


KINDS = {"BuildFault": BuildFault, "MemoryError": MemoryError, "OSError": OSError,
         "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError,
         "ZeroDivisionError": ZeroDivisionError, "ValueError": ValueError,
         "LinAlgError": np.linalg.LinAlgError, "FloatingPointError": FloatingPointError,
         "TimeoutError": TimeoutError}


def warm(tier):
    from checks import c09

    c09.warm_reference()
    CODES.update(loader.CODES)


def gen(rng, index, tier):
    spec = gen_spec(rng, rng.choice(["sifted", "pilot", "all", "all", "all"]))
    other = gen_spec(rng, rng.choice(["sifted", "pilot", "pilot"])) \
        if rng.random() < 0.4 else None
    if other and rng.random() < 0.5:
        other = {**other, "pilot": {"analytic": False, "n_tries": rng.choice([2, 3])}}
        spec["pilot"] = {"analytic": False, "n_tries": rng.choice([2, 3])}
    faults = [gen_fault(rng) for _ in range(rng.randint(3, 6))]
    for f in faults:
        f["other"] = bool(other) and rng.random() < 0.6
    return {"spec": spec, "other": other, "faults": faults,
            "seed": rng.getrandbits(31), "shared": rng.random() < 0.7,
            "plan": {"seed": rng.getrandbits(40), "rate": 0.0, "policy": "random",
                     "opcodes": False, "stall": 0}}


def gen_spec(rng, kind):
    spec = pipeline.gen_spec(rng, kind)
    if kind == "sifted":
        spec["nf"], spec["na"] = rng.randint(5, 7), rng.randint(3, 4)
        spec["selvars"] = {}
    elif spec["nf"] == 4:
        spec["nf"] = 3
    spec["noise"] = min(spec["noise"], 0.4)  # fewer spaces that end with too few features
    spec["sifted"]["rho"] = 0.1
    if rng.random() < 0.7:
        spec["selvars"], spec["missing"] = {}, 0.0
    if kind == "all" and rng.random() < 0.2:
        spec["pythia"]["use_grid_search"] = False
    return spec


def gen_fault(rng):
    # "try" and "with": where a handler of the library or a context manager is in force, if
    # anywhere; a failure elsewhere can only be lost by whoever calls the library
    return {"at": rng.random(), "nth": rng.random() ** 2, "exc": rng.choice(sorted(KINDS)),
            "where": rng.choices(["any", "try", "with"], [6, 3, 1])[0]}


SPANS: dict = {}  # code -> [(start, end, "try" | "with")]


def spans(code):
    """The ranges of a code object that an except, finally or with block covers."""
    if code not in SPANS:
        ops = {i.offset: i.opname for i in dis.get_instructions(code)}
        order = sorted(ops)
        out = []
        for e in dis._parse_exception_table(code):
            if ops.get(e.target) != "PUSH_EXC_INFO":
                continue
            nxt = ops[order[order.index(e.target) + 1]]
            out.append((e.start, e.end, "with" if nxt == "WITH_EXCEPT_START" else "try"))
        SPANS[code] = out
    return SPANS[code]


def cover(frame):
    """Which of the library's blocks are in force in a frame and its callers."""
    got = set()
    while frame is not None:
        if frame.f_code in CODES:
            for a, b, k in spans(frame.f_code):
                if a <= frame.f_lasti < b:
                    got.add(k)
        frame = frame.f_back
    return got


def within(frame, name):
    while frame is not None:
        if frame.f_code.co_filename.endswith(name):
            return True
        frame = frame.f_back
    return False


@contextlib.contextmanager
def lines(hook):
    mon = sys.monitoring
    mon.use_tool_id(3, "fault")
    mon.register_callback(3, mon.events.LINE, hook)
    for c in loader.CODES:
        mon.set_local_events(3, c, mon.events.LINE)
    try:
        yield
    finally:
        for c in loader.CODES:
            mon.set_local_events(3, c, 0)
        mon.register_callback(3, mon.events.LINE, None)
        mon.free_tool_id(3)


def where(code, line):
    f = code.co_filename.rsplit("/", 1)[-1]
    return (f, code.co_qualname, line - code.co_firstlineno)


def chain(e):
    seen, todo = [], [e]
    while todo:
        x = todo.pop()
        if x is None or any(x is s for s in seen):
            continue
        seen.append(x)
        todo += [x.__cause__, x.__context__, *getattr(x, "exceptions", ())]
    return seen


def attempt(fn):
    """('ok', value) or ('err', exception), whatever the exception."""
    try:
        with core.quiet(), np.errstate(all="ignore"):
            return "ok", fn()
    except (core.NoProgress, threads.SimDeadlock):
        raise
    except BaseException as e:  # noqa: BLE001
        return "err", e


class Build:
    """One instance space: its undisturbed result and the lines that lead to it."""

    def __init__(self, spec, shared) -> None:
        self.spec, self.shared = spec, shared
        self.md, self.opts = pipeline.make_metadata(spec), pipeline.make_options(spec)
        self.space = self.make()
        self.counts: dict = {}
        self.covered: dict = {"try": [], "with": []}  # [(point, execution)]
        with lines(self.note):
            self.ref = self.go()
        if self.ref[0] == "ok":
            self.want = canon.canon(self.ref[1])
            self.points = sorted(self.counts)
            if not shared:
                self.space = self.make()

    def make(self):
        return pipeline.make_space(self.spec, md=self.md, opts=self.opts)

    def go(self):
        return attempt(lambda: pipeline.run_space(self.space, self.spec))

    def note(self, code, line) -> None:
        k = where(code, line)
        n = self.counts[k] = self.counts.get(k, 0) + 1
        if n <= 4 or n & (n - 1) == 0:
            for c in cover(sys._getframe(1)):
                self.covered[c].append((k, n - 1))

    def pick(self, f, env) -> tuple:
        point = self.points[int(f["at"] * len(self.points))]
        nth = int(f["nth"] * self.counts[point])
        among: dict = {}
        for k, n in self.covered.get(f["where"], ()):
            among.setdefault(k, []).append(n)
        if among:
            point = sorted(among)[int(f["at"] * len(among))]
            nth = among[point][int(f["nth"] * len(among[point]))]
            env.probe(f"in_{f['where']}_block")
        return point, nth


def run(case, env):
    ambient.seed_globals(case["seed"])
    with ambient.entropy(1), threads.simulated(case["plan"], env, 2) as sched:
        builds = []
        for spec in [case["spec"], case["other"]]:
            if not spec:
                continue
            for k in range(3):  # some data has no good features, or too few
                b = Build({**spec, "seed": spec["seed"] + k}, case["shared"])
                env.steps += sum(b.counts.values())
                if b.ref[0] == "ok":
                    break
            builds.append(b)
        for b in builds:
            if b.ref[0] == "err":
                env.probe("reference_error")
                env.log("reference", type(b.ref[1]).__name__)
                return
        for f in case["faults"]:
            one_fault(f, builds[f["other"]], case, sched, env)
        for b in reversed(builds):
            again = b.go()
            if again[0] == "err":
                raise Violation("retry", "a build after failed ones raised "
                                f"{type(again[1]).__name__}: {again[1]}"[:400])
            same(again[1], b.want, "a build after failed ones")
        env.probe("retry_ok")
        if case["other"] and len({f["other"] for f in case["faults"]}) == 2:
            env.probe("two_spaces")


def one_fault(f, b, case, sched, env) -> None:
    point, nth = b.pick(f, env)
    if point[0] == "cloister.py" and issubclass(KINDS[f["exc"]], ValueError):
        f = {**f, "exc": "MemoryError"}  # CLOISTER takes it for a degenerate hull
    left = [nth]
    fired: list = []
    worker: list = []

    def strike(code, line):
        if fired or where(code, line) != point:
            return
        if left[0]:
            left[0] -= 1
            return
        if loader.in_cleanup(sys._getframe(1)):
            return  # fail at its next execution that is no cleanup, if any
        if issubclass(KINDS[f["exc"]], ValueError) and within(sys._getframe(1),
                                                              "/cloister.py"):
            return
        exc = KINDS[f["exc"]]("injected")
        fired.append(exc)
        me = sched.me()
        if me is not None and me.num:
            worker.append(me.num)
        raise exc

    with lines(strike):
        got = b.go()
    if not fired:
        env.probe("not_reached")
        return
    env.fault(f["exc"])
    env.state((*point, f["exc"]))
    env.log("fault", point, f["exc"], got[0])
    what = f"{f['exc']} at {point[0]}:{point[1]}+{point[2]}, execution {nth + 1}"
    judge(what, f["exc"], fired[0], got, b.want)
    for st in ("Preprocessing", "Prelim", "Sifted", "Pilot", "Cloister", "Pythia", "Trace"):
        if point[0] == st.lower() + ".py":
            env.probe(st + "Stage")
    if point[1] in ("SiftedStage.cost_fcn", "SiftedStage.fitness_function"):
        env.probe("failure_in_genetic_selection")
    if worker:
        env.probe("failure_in_trace_worker")
    if sched.alive():
        raise Violation("thread-left", f"after {what}, worker threads "
                        f"{sched.alive()} still run")
    if b.spec["kind"] == "all" and case["shared"]:
        m = attempt(lambda: b.space.model)
        if m[0] == "err":
            raise Violation("model-lost", f"after {what} in a second build, .model "
                            f"raised {type(m[1]).__name__}: {m[1]}")
        same(m[1], b.want, f".model after {what}")
        env.probe("model_kept")
    env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()


def same(value, want, what):
    got = canon.canon(value)
    if got != want:
        raise Violation("differs", f"{what} differs from the first build: "
                        + "; ".join(canon.diff(want, got))[:1200])


def judge(what, kind, exc, got, want):
    if got[0] == "ok":
        if canon.canon(got[1]) == want:
            return  # nothing was lost: the failing step did not matter
        raise Violation("swallowed", f"{what}: the build went on and returned something else: "
                        + "; ".join(canon.diff(want, canon.canon(got[1])))[:900])
    if not any(exc is s or (type(exc) is type(s) and s.args == exc.args)
               for s in chain(got[1])):
        raise Violation("masked", f"{what}: the build raised "
                        f"{type(got[1]).__name__}: {got[1]}"[:500])


def shrink(case):
    for fs in core.shrink_list(case["faults"], 1):
        yield {**case, "faults": fs}
    if case["other"]:
        if not any(f["other"] for f in case["faults"]):
            yield {**case, "other": None}
        yield {**case, "other": None,
               "faults": [{**f, "other": False} for f in case["faults"]]}
    s = case["spec"]
    for k in ("sifted", "pilot"):
        if s["kind"] == "all" or (s["kind"] == "pilot" and k == "sifted"):
            yield {**case, "spec": {**s, "kind": k}}
    for i, f in enumerate(case["faults"]):
        if f["where"] != "any":
            yield {**case, "faults": [*case["faults"][:i], {**f, "where": "any"},
                                      *case["faults"][i + 1:]]}
        if f["exc"] != "BuildFault":
            yield {**case, "faults": [*case["faults"][:i], {**f, "exc": "BuildFault"},
                                      *case["faults"][i + 1:]]}
