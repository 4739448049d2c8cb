"""Histories of runner operations, checked against a provenance model.

The model knows nothing of schedule steps, rollback or storage. It keeps, per runner,
which execution of each stage is current, and demands of every execution that each of
its inputs is the override given, or the current output of the stage that supplies that
input in a straight run (or the current initial argument) - and that this output is
itself still based on current inputs. After an injected failure two states are possible
(the interrupted operation took effect, or did not); both are kept until an observation
tells them apart. A state in which neither explains what was observed is a violation.
"""

from __future__ import annotations

import random
import sys

from checks import c01
from sim import core, loader, model_ref, stages
from sim.core import Violation

EXC = {"StageFault": stages.StageFault, "MemoryError": MemoryError, "OSError": OSError,
       "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError,
       "KeyError": KeyError}


class State:
    """What is current in one runner, in one possible world."""

    __slots__ = ("init", "res")

    def __init__(self, init=None, res=None):
        self.init = init
        self.res = res or {}

    def key(self):
        return (self.init, tuple(sorted((n, r["id"]) for n, r in self.res.items())))


class Machine:
    def __init__(self, case: dict, env: core.Env) -> None:
        self.case = case
        self.env = env
        self.spec = case["spec"]
        self.world = stages.World(self.spec, case["hash"], env)
        verdict, self.rounds = model_ref.resolve(self.spec)
        if verdict != "ok":
            raise core.HarnessError("specification does not resolve")
        self.src: dict = {}
        self.byname = self.world.byname
        self.t = 0
        self.watch: list = []  # (description, live object, snapshot)
        self.uid_log: dict[str, tuple] = {}
        self.runners: list = []
        self.beliefs: list[list[State]] = []
        self.epoch: list[int] = []
        self.iters: list[dict] = []
        self.check_logs = case.get("isolation", False)
        self.fault_fired = None
        self.armed = None

    # ---------------------------------------------------------------- real side

    def build_runner(self):
        runner, err = c01.build(self.world, self.case["order"])
        if err is not None:
            raise Violation("rejected", f"build refused a resolvable set of stages: {err}")
        return runner

    def learn(self) -> None:
        """Learn, from one undisturbed run, who supplies what."""
        runner = self.build_runner()
        init = self.world.initial("learn")
        try:
            result = runner.run_all(init)
        except Exception as e:  # noqa: BLE001
            raise Violation("run-failed", f"a first, undisturbed run_all raised "
                            f"{type(e).__name__}: {e}") from e
        self.order = [e["stage"] for e in self.world.execs]
        if sorted(self.order) != sorted(self.byname):
            raise Violation("not-once", f"a first run_all ran {self.order}")
        made = {f"learn.{a}": None for a, _ in self.spec["init"]}
        for e in self.world.execs:
            for _, (uid, _) in e["outs"].items():
                made[uid] = e["stage"]
        for e in self.world.execs:
            self.src[e["stage"]] = {}
            for a, (uid, _) in e["ins"].items():
                if uid not in made:
                    raise Violation("dataflow", f"{e['stage']} was given {uid} as {a}")
                self.src[e["stage"]][a] = made[uid]
        self.note_logs(self.world.execs)
        self.watch_result("the data returned by the first run_all", result)
        self.world.execs.clear()
        self.world.odd = self.case.get("odd", False)

    def add_runner(self) -> None:
        self.runners.append(self.build_runner())
        self.beliefs.append([State()])
        self.epoch.append(0)

    # --------------------------------------------------------------- model side

    def fresh(self, st: State, name: str, seen=()) -> bool:
        r = st.res.get(name)
        if r is None:
            return False
        for a, uid in r["ins"].items():
            if a in r["ovr"]:
                continue
            p = self.src[name][a]
            if p is None:
                if uid != self.world.name_of(f"{st.init}.{a}"):
                    return False
            elif p not in st.res or st.res[p]["outs"].get(a) != uid or not self.fresh(st, p):
                return False
        return True

    def explain(self, st: State, e: dict, ovr: dict) -> str | None:
        """None if this execution's inputs are right in this state, else why not."""
        name = e["stage"]
        for a, (uid, _) in e["ins"].items():
            if a in ovr:
                if uid != ovr[a]:
                    return f"{name} was given {uid} as '{a}' instead of the override {ovr[a]}"
                continue
            p = self.src[name][a]
            if p is None:
                want = self.world.name_of(f"{st.init}.{a}")
                if uid != want:
                    return f"{name} was given {uid} as '{a}', not the initial {want}"
                continue
            cur = st.res.get(p)
            if cur is None:
                return (f"{name} ran on {uid} as '{a}' although {p}, which supplies it, has "
                        f"no current result")
            if uid != cur["outs"].get(a):
                return (f"{name} was given {uid} as '{a}', not {cur['outs'].get(a)}, the "
                        f"current output of {p}")
            if not self.fresh(st, p):
                return (f"{name} was given {uid} as '{a}', but {p} made it from values that "
                        f"are no longer current")
        return None

    def commit(self, st: State, e: dict, ovr: dict) -> State:
        self.t += 1
        rec = {"id": f"{e['stage']}#{e['k']}", "ins": {a: u for a, (u, _) in e["ins"].items()},
               "outs": {a: u for a, (u, _) in e["outs"].items()}, "ovr": set(ovr), "t": self.t}
        return State(st.init, {**st.res, e["stage"]: rec})

    def data(self, st: State, executed) -> dict:
        """What the runner holds after these stages, by argument."""
        cur = {a: self.world.name_of(f"{st.init}.{a}") for a, _ in self.spec["init"]}
        for n in self.order:
            if n in executed:
                cur.update(st.res[n]["outs"])
        return cur

    def must_succeed(self, r: int, name: str) -> bool:
        """Whether every stage before `name` was run, in order, and nothing since."""
        for st in self.beliefs[r]:
            if st.init is None:
                return False
            last = -1
            for n in self.order:
                if n == name:
                    break
                rec = st.res.get(n)
                if rec is None or rec["t"] <= last or not self.fresh(st, n):
                    return False
                last = rec["t"]
        return True

    # -------------------------------------------------------------- bookkeeping

    def note_logs(self, execs) -> None:
        for e in execs:
            for a, (uid, log) in e["ins"].items():
                want = self.uid_log.get(uid, ())
                if self.check_logs and tuple(log) != want:
                    raise Violation("leaked-mutation", f"{e['stage']} was given {uid} as "
                                    f"'{a}' already changed in place by {list(log)} "
                                    f"(made as {list(want)})")
            for uid, log in e["outs"].values():
                if uid != "None":
                    self.uid_log[uid] = tuple(log)

    def watch_result(self, what: str, result) -> None:
        if isinstance(result, dict):
            self.watch.append((what, result, self.snap(result)))
        elif hasattr(result, "_asdict"):
            self.watch.append((what, result, self.snap(result)))

    @staticmethod
    def snap(result):
        d = result if isinstance(result, dict) else result._asdict()
        return sorted((k, v.snap() if isinstance(v, stages.Box) else repr(v))
                      for k, v in d.items())

    def check_watched(self) -> None:
        if not self.check_logs:
            return
        for what, obj, was in self.watch:
            now = self.snap(obj)
            if now != was:
                diff = [x for x in was + now if (x in was) != (x in now)]
                raise Violation("changed-afterwards", f"{what} changed after it was handed "
                                f"over: {diff[:4]}")

    # ------------------------------------------------------------------- faults

    def arm(self, fault: dict | None):
        self.fault_fired = None
        self.armed = fault
        self.world.on_exec = None
        if not fault:
            return
        if fault["kind"] == "stage":
            left = [fault["nth"]]

            def hook(name, k, phase):
                if phase != fault["at"]:
                    return
                if left[0] == 0:
                    left[0] -= 1
                    exc = EXC[fault["exc"]](f"injected in {name}")
                    self.fault_fired = exc
                    self.env.fault(f"stage_raises_{phase}")
                    raise exc
                left[0] -= 1

            self.world.on_exec = hook
        elif fault["kind"] == "line":
            left = [fault["nth"]]

            def local(frame, event, arg):
                if event == "line":
                    if left[0] == 0 and loader.in_cleanup(frame):
                        return local
                    if left[0] == 0:
                        left[0] -= 1
                        exc = EXC[fault["exc"]]("injected")
                        self.fault_fired = exc
                        self.env.fault(f"interrupt_{fault['exc']}")
                        self.env.log("interrupt", frame.f_code.co_name,
                                     frame.f_lineno - frame.f_code.co_firstlineno)
                        self.env.state(("interrupt", frame.f_code.co_name,
                                        frame.f_lineno - frame.f_code.co_firstlineno))
                        sys.settrace(None)
                        raise exc
                    left[0] -= 1
                return local

            def tracer(frame, event, arg):
                if loader.in_repo(frame.f_code.co_filename):
                    return local
                return None

            sys.settrace(tracer)

    def disarm(self) -> None:
        sys.settrace(None)
        self.world.on_exec = None

    # --------------------------------------------------------------- operations

    def run(self) -> None:
        with core.quiet():
            self.learn()
            for _ in range(self.case["runners"]):
                self.add_runner()
            for n, op in enumerate(self.case["ops"]):
                self.step(n, op)
                self.check_watched()
                self.env.state(tuple(st.key() for b in self.beliefs for st in b))

    def step(self, n: int, op: dict) -> None:
        kind = op["op"]
        self.env.log("op", n, kind, op.get("r"), op.get("s"), op.get("i"))
        self.world.execs.clear()
        if kind == "iter":
            r = op["r"]
            self.epoch[r] += 1
            tag = f"r{r}e{self.epoch[r]}"
            init = self.world.initial(tag)
            self.watch_result("initial arguments", init)
            self.iters.append({"r": r, "tag": tag, "it": self.runners[r].run_iter(init),
                               "started": False, "clean": True, "done": False,
                               "ran": []})
            return
        if kind in ("next", "close"):
            if op["i"] >= len(self.iters):
                return
            it = self.iters[op["i"]]
            r = it["r"]
            if kind == "close":
                it["it"].close()
                it["done"] = True
                return
            if it["done"]:
                return
        else:
            it = None
            r = op["r"]
        runner = self.runners[r]
        must = True
        ovr: dict[str, str] = {}
        reset = None
        if kind in ("all", "until"):
            self.epoch[r] += 1
            reset = f"r{r}e{self.epoch[r]}"
            init = self.world.initial(reset)
            self.watch_result("initial arguments", init)
            if kind == "all":
                call = lambda: runner.run_all(init)  # noqa: E731
            else:
                call = lambda: runner.run_until_stage(  # noqa: E731
                    self.world.stages[op["s"]], init)
        elif kind == "stage":
            boxes = {a: self.world.value(f"ovr{n}.{a}") for a in op["ovr"]}
            ovr = {a: getattr(b, "uid", "None") for a, b in boxes.items()}
            if "None" in ovr.values():
                self.env.probe("none_override")
            self.watch_result("override arguments", boxes)
            must = self.must_succeed(r, op["s"])
            call = lambda: runner.run_stage(  # noqa: E731
                self.world.stages[op["s"]], **boxes)
        else:
            if not it["started"]:
                reset = it["tag"]
            else:
                must = it["clean"]
            call = lambda: next(it["it"])  # noqa: E731
        value, err, stop = None, None, False
        self.arm(op.get("fault"))
        try:
            try:
                value = call()
            finally:
                self.disarm()
        except StopIteration as e:
            value, stop = e.value, True
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            err = e
        fired = self.fault_fired
        execs = list(self.world.execs)
        self.env.steps += len(execs)
        self.env.log("result", type(err).__name__ if err else "ok", bool(fired))
        if fired is not None and err is None:
            raise Violation("swallowed", f"op {n} {kind}: {type(fired).__name__} raised inside "
                            f"was swallowed")
        if fired is not None and err is not None:
            chain, seen = err, False
            while chain is not None:
                seen = seen or chain is fired
                chain = chain.__cause__ or chain.__context__
            if not seen:
                raise Violation("swallowed", f"op {n} {kind}: {type(fired).__name__} raised "
                                f"inside surfaced as {type(err).__name__}: {err}")
        self.note_logs(execs)
        for other in self.iters:
            if other["r"] == r and other is not it:
                other["clean"] = False
        if it is not None:
            it["started"] = True
            if err is not None or stop:
                it["done"] = True
            elif len(execs) == 1:
                it["ran"].append(execs[0]["stage"])
        if err is not None and fired is None and must:
            raise Violation("refused", f"op {n} {self.describe(op)} raised "
                            f"{type(err).__name__}: {err} although everything before it had "
                            f"been run")
        if fired is None:
            self.env.probe(f"{kind}_{'ok' if err is None else 'refused'}")
        why = None
        after: list[State] = []
        for b in self.beliefs[r]:
            st = prev = State(reset) if reset is not None else b
            bad = None
            for e in execs:
                bad = self.explain(st, e, ovr)
                if bad:
                    break
                if e["done"]:
                    prev, st = st, self.commit(st, e, ovr)
            if bad is None and err is None:
                bad = self.check_value(op, kind, st, execs, value, stop, it)
            if bad:
                why = why or bad
                continue
            after.append(st)
            if err is not None:
                after += [prev, b]  # the last stage, or all of it, may not have counted
        if not after:
            k = "incoherent" if len(self.beliefs[r]) == 1 else "half-applied"
            raise Violation(k, f"op {n} {self.describe(op)}: {why}")
        uniq = {s.key(): s for s in after}
        self.beliefs[r] = list(uniq.values())[:64]
        if err is None:
            if isinstance(value, dict):
                self.watch_result(f"the data returned by op {n} ({kind})", value)
            elif value is not None:
                out = getattr(value, "output", value)
                self.watch_result(f"the output returned by op {n} ({kind})", out)

    def describe(self, op: dict) -> str:
        return " ".join(str(v) for k, v in op.items() if k in ("op", "s", "i", "r"))

    def check_value(self, op, kind, st, execs, value, stop, it) -> str | None:
        ran = [e["stage"] for e in execs]
        done = [e for e in execs if e["done"]]
        if kind == "all":
            if sorted(ran) != sorted(self.order):
                return f"run_all ran {ran}"
            return self.check_data(value, self.data(st, set(self.order)))
        if kind == "until":
            s = op["s"]
            if ran.count(s) != 1 or ran[-1] != s:
                return f"run_until_stage({s}) ran {ran}"
            if len(set(ran)) != len(ran):
                return f"run_until_stage({s}) ran {ran}"
            for p in self.needs(s):
                if p not in ran:
                    return f"run_until_stage({s}) ran {ran}, without {p}"
            return self.check_data(value, self.data(st, set(ran)))
        if kind == "stage":
            if ran != [op["s"]]:
                return f"run_stage({op['s']}) ran {ran}"
            return self.check_data(value._asdict(), {
                a: u for a, (u, _) in done[0]["outs"].items()})
        if stop:
            if ran:
                return f"the iterator ended and yet ran {ran}"
            if sorted(it["ran"]) != sorted(self.order):
                return f"the iterator ended after {it['ran']}"
            if it["clean"]:
                return self.check_data(value, self.data(st, set(self.order)))
            return None
        if len(ran) != 1:
            return f"one step of the iterator ran {ran}"
        if value.stage is not self.world.stages[ran[0]]:
            return f"the iterator ran {ran[0]} but named {value.stage.__name__}"
        return self.check_data(value.output._asdict(), {
            a: u for a, (u, _) in done[0]["outs"].items()})

    def needs(self, s: str, seen=None) -> set:
        """Everything that has to run before s: data, restrictions."""
        seen = set() if seen is None else seen
        direct = {p for p in self.src[s].values() if p}
        direct |= set(self.byname[s].get("after", []))
        direct |= {t["name"] for t in self.spec["stages"] if s in t.get("before", [])}
        for p in direct - seen:
            seen.add(p)
            self.needs(p, seen)
        return seen

    @staticmethod
    def check_data(got, want: dict) -> str | None:
        have = {a: getattr(v, "uid", repr(v)) for a, v in got.items()}
        if have != want:
            diff = {a: (have.get(a), want.get(a)) for a in sorted(set(have) | set(want))
                    if have.get(a) != want.get(a)}
            return f"returned data differs, argument: (got, current): {diff}"
        return None


# ---------------------------------------------------------------------- generation


def gen_case(rng: random.Random, *, faults=False, isolation=False, max_ops=14) -> dict:
    for _ in range(200):
        if rng.random() < 0.05:
            spec = stages.gen_real_plus_plugins(rng)
        else:
            spec = stages.gen_spec(rng, max_stages=rng.choice([3, 5, 7]), errors=0.0,
                                   overwrite=0.5, mutating=0.6)
        if model_ref.resolve(spec)[0] == "ok":
            break
    else:
        raise core.HarnessError("no resolvable specification")
    if isolation:
        stages.decorate(spec, rng, 0.6)
    names = [s["name"] for s in spec["stages"]]
    order = names[:]
    rng.shuffle(order)
    straight = [n for r in model_ref.resolve(spec)[1] for n in r]
    runners = 2 if rng.random() < 0.35 else 1
    ins = {s["name"]: [a for a, _ in s["ins"]] for s in spec["stages"]}
    ops: list[dict] = []
    niter = 0
    mix = {k: rng.random() ** 2 + 0.05 for k in
           ("all", "iter", "next", "close", "stage", "until", "walk", "rerun")}
    kinds = list(mix)
    pos = [0] * runners
    for _ in range(rng.randint(3, max_ops)):
        r = rng.randrange(runners)
        k = rng.choices(kinds, [mix[x] for x in kinds])[0]
        if not ops:
            k = rng.choice(["all", "iter", "until", "walk"])
        if k == "all":
            ops.append({"op": "all", "r": r})
            pos[r] = len(straight)
        elif k == "iter":
            ops.append({"op": "iter", "r": r})
            niter += 1
            for _ in range(rng.randint(0, len(names) + 1)):
                ops.append({"op": "next", "i": niter - 1})
        elif k == "next" and niter:
            i = rng.randrange(niter)
            ops += [{"op": "next", "i": i}] * rng.randint(1, 3)
        elif k == "close" and niter:
            ops.append({"op": "close", "i": rng.randrange(niter)})
        elif k == "until":
            i = rng.randrange(len(straight))
            ops.append({"op": "until", "r": r, "s": straight[i]})
            pos[r] = i + 1
        elif k == "rerun" or k == "stage":
            i = rng.randrange(len(straight))
            s = straight[i]
            ovr = [a for a in ins[s] if rng.random() < 0.2]
            ops.append({"op": "stage", "r": r, "s": s, "ovr": ovr})
            pos[r] = i + 1
        elif k == "walk":
            for _ in range(rng.randint(1, 4)):
                if pos[r] < len(straight):
                    ops.append({"op": "stage", "r": r, "s": straight[pos[r]], "ovr": []})
                    pos[r] += 1
    case = {"spec": spec, "order": order, "hash": rng.getrandbits(40), "ops": ops,
            "runners": runners}
    if isolation:
        case["isolation"] = True
    case["odd"] = rng.random() < 0.4
    if faults:
        out = []
        for op in ops:
            op = dict(op)
            if op["op"] in ("all", "next", "stage", "until") and rng.random() < 0.35:
                op["fault"] = gen_fault(rng, len(names) if op["op"] in ("all", "until") else 1)
                out.append(op)
                if rng.random() < 0.6 and op["op"] != "next":
                    out.append({k: v for k, v in op.items() if k != "fault"})
                continue
            out.append(op)
        for r in range(runners):
            out.append({"op": "all", "r": r})
        case["ops"] = out
    return case


def gen_fault(rng: random.Random, nstages: int) -> dict:
    if rng.random() < 0.5:
        return {"kind": "stage", "at": rng.choice(["start", "middle", "end"]),
                "nth": rng.randrange(nstages),
                "exc": rng.choice(["StageFault", "MemoryError", "OSError", "ValueError",
                                   "KeyError", "KeyboardInterrupt"])}
    return {"kind": "line", "nth": rng.randrange(6 + 40 * nstages),
            "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}


def shrink(case: dict):
    """Fewer operations and faults first, then a smaller set of stages."""
    if case.get("odd"):
        yield {**case, "odd": False}
    for ops in core.shrink_list(case["ops"], 1):
        yield {**case, "ops": ops}
    for i, op in enumerate(case["ops"]):
        if op.get("fault"):
            yield {**case, "ops": [*case["ops"][:i],
                                   {k: v for k, v in op.items() if k != "fault"},
                                   *case["ops"][i + 1:]]}
        if op.get("ovr"):
            yield {**case, "ops": [*case["ops"][:i], {**op, "ovr": []}, *case["ops"][i + 1:]]}
    if case["runners"] > 1 and all(op.get("r", 0) == 0 for op in case["ops"]):
        yield {**case, "runners": 1}
    for spec in stages.shrink_spec(case["spec"]):
        names = {s["name"] for s in spec["stages"]}
        if model_ref.resolve(spec)[0] != "ok":
            continue
        ins = {s["name"]: [a for a, _ in s["ins"]] for s in spec["stages"]}
        ops = [op if "s" not in op else
               {**op, **({"ovr": [a for a in op["ovr"] if a in ins[op["s"]]]}
                         if "ovr" in op else {})}
               for op in case["ops"] if "s" not in op or op["s"] in names]
        yield {**case, "spec": spec, "ops": ops,
               "order": [n for n in case["order"] if n in names]}
