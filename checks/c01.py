"""C01: stage order resolution is safe, for every set of stages and every order."""

from __future__ import annotations

import contextlib

from sim import core, model_ref, stages
from sim.core import Violation

PLAN = {"quick": {"runs": 16000, "batch": 100}, "thorough": {"runs": 800000, "batch": 100}}
RULE = ("A run builds a random set of 2-8 stages (or the library's own wiring plus up to 3 "
        "plugins) with simulator-chosen registration order and set iteration order, then "
        "runs it. Non-trivial: at least two stages and (an ordering restriction, a "
        "mutating stage, an overwritten argument, or a resolution error); distinct by "
        "specification and order.")
STATE_MEASURE = "distinct (model outcome, observed execution order) pairs"
REAL = ["instancespace.stage_builder", "instancespace.stage_runner",
        "instancespace.stages.stage"]
STUB = ["stage bodies are synthetic and carry provenance",
        "hashes of stage classes and argument types are chosen by the simulator"]
ASSUMPTIONS = ["every generated stage has at least one output",
               "ties the documentation leaves open (order inside one step) are not judged"]
MUST_FIRE = ["order_shuffled", "model_ok", "model_error", "restricted", "mutating",
             "overwrite", "real_wiring", "missing_restriction", "initial_set"]


def warm(tier):
    stages.real_pipeline_spec()


def gen(rng, index, tier):
    if rng.random() < 0.08:
        spec = stages.gen_real_plus_plugins(rng)
        real = True
    else:
        spec = stages.gen_spec(rng)
        real = False
    order = [s["name"] for s in spec["stages"]]
    rng.shuffle(order)
    return {"spec": spec, "order": order, "hash": rng.getrandbits(40), "real": real,
            "as_set": rng.random() < 0.5}


def build(world, order, as_set=False, early=None, times=1):
    """Build the real runner; returns (runner, None) or (None, exception).

    With `early`, the builder is also asked to build when only that many stages have
    been added; with `times`, it builds that often, and the last outcome counts. The
    initial arguments are given as a NamedTuple type, or as a set of arguments.
    """
    from instancespace.stage_builder import StageBuilder

    b = StageBuilder()
    init = world.init_type
    if as_set:
        from instancespace.stage_runner import _StageArgument

        fields = [_StageArgument(n, t) for n, t in init.__annotations__.items()]
        init = set(fields)
    try:
        for i, n in enumerate(order):
            if i == early:
                with contextlib.suppress(Exception):
                    b.build(init)
            b.add_stage(world.stages[n])
        for _ in range(times - 1):
            with contextlib.suppress(Exception):
                b.build(init)
        return b.build(init), None
    except Exception as e:  # noqa: BLE001
        return None, e
    finally:
        if as_set and init != set(fields):
            raise Violation("changed-input", f"building changed the set of initial "
                            f"arguments it was given: {sorted(a.parameter_name for a in init)}")


def features(spec):
    f = []
    if any(s.get("before") or s.get("after") for s in spec["stages"]):
        f.append("restricted")
    if any(t == "Gone" for s in spec["stages"] for t in s["after"]):
        f.append("missing_restriction")
    if any({tuple(a) for a in s["ins"]} & {tuple(a) for a in s["outs"]}
           for s in spec["stages"]):
        f.append("mutating")
    outs = [a for s in spec["stages"] for a, _ in s["outs"]] + [a for a, _ in spec["init"]]
    if len(set(outs)) != len(outs):
        f.append("overwrite")
    return f


def check_straight(world, execs, result, spec, rounds, tag):
    """A complete run: every stage once, in a legal order, on the right values."""
    src, final = model_ref.producers(spec, rounds)
    seq = [e["stage"] for e in execs]
    names = sorted(s["name"] for s in spec["stages"])
    if sorted(seq) != names:
        raise Violation("not-once", f"stages run {seq}, wanted each of {names} once")
    pos = {n: i for i, n in enumerate(seq)}
    for s in spec["stages"]:
        for b in s.get("before", []):
            if b in pos and pos[s["name"]] > pos[b]:
                raise Violation("restriction", f"{s['name']} is RunBefore {b}, ran {seq}")
        for a in s.get("after", []):
            if a in pos and pos[s["name"]] < pos[a]:
                raise Violation("restriction", f"{s['name']} is RunAfter {a}, ran {seq}")
    by = {e["stage"]: e for e in execs}
    for n, e in by.items():
        for a, (uid, _) in e["ins"].items():
            p = src[n][a]
            want = f"{tag}.{a}" if p is None else by[p]["outs"][a][0]
            if uid != want:
                raise Violation("dataflow", f"{n} was given {uid} as '{a}', not {want}; "
                                f"ran {seq}")
    want_final = {a: (f"{tag}.{a}" if p is None else by[p]["outs"][a][0])
                  for a, p in final.items()}
    got = {a: getattr(v, "uid", repr(v)) for a, v in result.items()}
    if got != want_final:
        diff = {a: (got.get(a), want_final.get(a)) for a in set(got) | set(want_final)
                if got.get(a) != want_final.get(a)}
        raise Violation("final-data", f"returned data differs (got, wanted): "
                        f"{sorted(diff.items())}; ran {seq}")


def run(case, env):
    spec = case["spec"]
    world = stages.World(spec, case["hash"], env)
    verdict, rounds = model_ref.resolve(spec)
    if case.get("real"):
        env.probe("real_wiring")
    for f in features(spec):
        env.probe(f)
    env.probe("model_" + verdict)
    env.fault("order_shuffled")
    if case.get("as_set"):
        env.probe("initial_set")
    with core.quiet():
        runner, err = build(world, case["order"], case.get("as_set"))
        if err is not None and world.execs:
            raise Violation("ran-during-build", "a stage ran while the order was resolved")
        env.log("build", type(err).__name__ if err else "ok", verdict)
        if verdict == "error":
            env.state(("error", str(rounds)))
            env.nontrivial = core.hashlib.md5(repr(case).encode()).hexdigest()
            if err is None:
                raise Violation("no-error", f"build accepted an order that is {rounds}")
            return
        if err is not None:
            raise Violation("rejected", f"build refused a resolvable set of stages: "
                            f"{type(err).__name__}: {str(err)[:300]}")
        try:
            result = runner.run_all(world.initial("init"))
        except Exception as e:  # noqa: BLE001
            raise Violation("run-failed", f"run_all of a resolved order raised "
                            f"{type(e).__name__}: {str(e)[:300]}") from e
    seq = [e["stage"] for e in world.execs]
    env.steps += len(seq)
    env.state(("ok", seq))
    if features(spec):
        env.nontrivial = core.hashlib.md5(repr(case).encode()).hexdigest()
    check_straight(world, world.execs, result, spec, rounds, "init")


def shrink(case):
    for spec in stages.shrink_spec(case["spec"]):
        names = {s["name"] for s in spec["stages"]}
        yield {**case, "spec": spec, "order": [n for n in case["order"] if n in names],
               "real": False}
    if case["order"] != sorted(case["order"]):
        yield {**case, "order": sorted(case["order"])}
    if case["hash"] != 0:
        yield {**case, "hash": 0}
