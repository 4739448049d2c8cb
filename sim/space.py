"""Simulated InstanceSpaces: the real class over cheap synthetic stages."""

from __future__ import annotations

import dataclasses
import inspect
import random
import sys
import zlib

import numpy as np
import pandas as pd

from sim import canon, core, loader, machine, model_ref, stages
from sim.core import Violation

# Where each field of a Model comes from, by the names of the stage outputs.
MODEL_KEYS = {
    "data": {k: k for k in ("inst_labels", "feat_labels", "algo_labels", "x", "y", "x_raw",
                            "y_raw", "y_bin", "y_best", "p", "num_good_algos", "beta", "s")},
    "feat_sel": {"idx": "idx"},
    "prelim": {k: k for k in ("med_val", "iq_range", "hi_bound", "lo_bound", "min_x",
                              "lambda_x", "mu_x", "sigma_x", "min_y", "lambda_y", "sigma_y",
                              "mu_y")},
    "sifted": {k: k for k in ("selvars", "idx", "rho", "pval", "silhouette_scores",
                              "clust")},
    "pilot": {**{k: k for k in ("X0", "alpha", "eoptim", "perf", "a", "z", "c", "b", "error",
                                "r2")}, "summary": "pilot_summary"},
    "cloister": {"z_edge": "z_edge", "z_ecorr": "z_ecorr"},
    "pythia": {**{k: k for k in ("mu", "sigma", "cp", "svm", "cvcmat", "y_sub", "y_hat",
                                 "pr0_sub", "pr0_hat", "box_consnt", "k_scale", "precision",
                                 "recall", "accuracy", "selection0", "selection1")},
               "summary": "pythia_summary"},
    "trace": {**{k: k for k in ("space", "good", "best", "hard")}, "summary": "trace_summary"},
}
ALL_KEYS = sorted({v for d in MODEL_KEYS.values() for v in d.values()})

_INIT: dict | None = None


def initial_fields() -> dict:
    """Name -> annotation of what every InstanceSpace passes to its stages."""
    global _INIT
    if _INIT is None:
        from instancespace import instance_space as m
        from instancespace.instance_space import InstanceSpace

        for v in vars(m).values():
            if (isinstance(v, type) and issubclass(v, tuple) and hasattr(v, "_fields")
                    and hasattr(v, "from_metadata_and_options")):
                _INIT = dict(v.__annotations__)
        if _INIT is None:
            sts = inspect.signature(InstanceSpace.__init__).parameters["stages"].default
            outs = {a for s in sts for a in s._outputs().__annotations__}
            _INIT = {a: t for s in sts for a, t in s._inputs().__annotations__.items()
                     if a not in outs}
    return _INIT


def warm() -> None:
    initial_fields()
    from instancespace.data.metadata import Metadata  # noqa: F401
    from instancespace.data.options import InstanceSpaceOptions  # noqa: F401
    from instancespace.model import Model  # noqa: F401


def make_metadata(seed: int):
    from instancespace.data.metadata import Metadata

    rng = np.random.default_rng(seed)
    n, m, k = int(rng.integers(3, 8)), int(rng.integers(2, 5)), int(rng.integers(2, 4))
    src = pd.Series([f"src{int(v)}" for v in rng.integers(0, 2, n)])
    return Metadata(
        feature_names=[f"feature_{i}" for i in range(m)],
        algorithm_names=[f"algo_{i}" for i in range(k)],
        instance_labels=pd.Series([f"i{i}" for i in range(n)]),
        instance_sources=None if rng.random() < 0.4 else src,
        features=rng.random((n, m)), algorithms=rng.random((n, k)))


def make_options():
    from instancespace.data.options import InstanceSpaceOptions, SelvarsOptions

    kw = {f.name: None for f in dataclasses.fields(InstanceSpaceOptions)}
    kw["selvars"] = SelvarsOptions.default(feats=["feature_0", "feature_1"]) \
        if "feats" in inspect.signature(SelvarsOptions.default).parameters else None
    return InstanceSpaceOptions.default(**kw)


# ------------------------------------------------------------------- C05: scribble


def scribble(x, seen=None):
    """Change everything reachable in place, as hard as Python allows."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fiub" and x.flags.writeable:
            x += np.ones_like(x) if x.dtype.kind != "b" else 0
            if x.dtype.kind == "b":
                np.logical_not(x, out=x)
    elif isinstance(x, pd.Series):
        if len(x):
            x.iloc[0] = "scribbled" if x.dtype == object else x.iloc[-1]
        x.name = "scribbled"
    elif isinstance(x, pd.DataFrame):
        x.drop(x.columns, axis=1, inplace=True)
    elif isinstance(x, list):
        for v in x:
            scribble(v, seen)
        x.append("scribbled")
        x.reverse()
    elif isinstance(x, dict):
        x["scribbled"] = 1
    elif dataclasses.is_dataclass(x) and not isinstance(x, type):
        for f in dataclasses.fields(x):
            v = getattr(x, f.name)
            scribble(v, seen)
            if isinstance(v, (int, float, str)) or v is None:
                object.__setattr__(x, f.name, "scribbled")


def gen_scribble(rng: random.Random) -> dict:
    init = sorted(initial_fields())
    n = rng.randint(2, 4)
    sts = []
    prev: list[str] = []
    for i in range(n):
        ins = rng.sample(init, rng.randint(2, len(init)))
        dep = rng.sample(prev, min(len(prev), rng.randint(0, 2)))
        sts.append({"name": f"Plug{i}", "init": ins, "dep": dep, "outs": [f"p{i}", f"q{i}"],
                    "passes": rng.random() < 0.5})
        prev += [f"p{i}", f"q{i}"]
    ops = [rng.choice(["build", "iter", "until", "stage"]) for _ in range(rng.randint(1, 4))]
    return {"space": True, "meta": rng.getrandbits(30), "stages": sts,
            "ops": ["iter", *ops], "pick": rng.getrandbits(20)}


def run_scribble(case, env) -> None:
    from typing import Any, NamedTuple

    from instancespace.instance_space import InstanceSpace
    from instancespace.stages.stage import Stage

    init = initial_fields()
    metadata, options = make_metadata(case["meta"]), make_options()
    seen: dict = {}

    def make(s):
        ins = NamedTuple(f"In{s['name']}", [(a, init[a]) for a in s["init"] if a in init]
                         + [(d, Any) for d in s["dep"]])
        outs = NamedTuple(f"Out{s['name']}", [(o, Any) for o in s["outs"]])

        def _run(inputs):
            env.log("exec", s["name"])
            now = {a: canon.canon(getattr(inputs, a)) for a in ins._fields}
            for a, c in now.items():
                if a in want and c != want[a]:
                    raise Violation("leaked-mutation", f"{s['name']} was given '{a}' already "
                                    f"changed: {canon.diff(c, want[a])}")
            values = {o: [np.arange(3.0), {"by": s["name"]}] for o in s["outs"]}
            if s["passes"]:
                values[s["outs"][0]] = [getattr(inputs, a) for a in s["init"][:2]]
            for a in ins._fields:
                scribble(getattr(inputs, a))
                env.probe("space_scribbled")
            for o, v in values.items():
                want[o] = canon.canon(v)
            return outs(**values)

        return stages._SimMeta(s["name"], (Stage,), {
            "_simhash": zlib.crc32(f"{case['pick']}/{s['name']}".encode()),
            "_inputs": staticmethod(lambda: ins), "_outputs": staticmethod(lambda: outs),
            "_run": staticmethod(_run)})

    classes = [make(s) for s in case["stages"]]
    space = InstanceSpace(metadata, options, stages=classes)
    want: dict = {}

    def originals():
        return canon.canon((metadata, options))

    from_inputs = {
        "feature_names": metadata.feature_names, "algorithm_names": metadata.algorithm_names,
        "instance_labels": metadata.instance_labels,
        "instance_sources": metadata.instance_sources, "features": metadata.features,
        "algorithms": metadata.algorithms, "sifted_options": options.sifted,
        "pilot_options": options.pilot, "selvars_options": options.selvars,
        "trace_options": options.trace, "pythia_options": options.pythia,
        "parallel_options": options.parallel, "outputs_options": options.outputs,
        "cloister_options": options.cloister, "perf_options": options.perf}
    base = {a: canon.canon(v) for a, v in from_inputs.items()}
    want.update(base)
    was = originals()
    kept = []
    with core.quiet():
        for op in case["ops"]:
            env.log("op", op)
            if op == "build":
                try:
                    space.build()
                except (KeyError, AttributeError):
                    pass  # these plugins do not make a Model
            elif op == "iter":
                for step in space.run_iter():
                    kept.append((step.output, canon.canon(step.output)))
            elif op == "until":
                r = space.run_until_stage(classes[case["pick"] % len(classes)])
                kept.append((r, canon.canon(r)))
            else:
                try:
                    r = space.run_stage(classes[case["pick"] % len(classes)])
                except Exception as e:  # noqa: BLE001
                    if isinstance(e, Violation):
                        raise
                else:
                    kept.append((r, canon.canon(r)))
            env.steps += 1
            now = originals()
            if now != was:
                raise Violation("caller-data-changed", f"after {op} the caller's metadata or "
                                f"options changed: {canon.diff(was, now)}")
            for r, c in kept:
                now = canon.canon(r)
                if now != c:
                    raise Violation("changed-afterwards", f"data handed out changed during "
                                    f"{op}: {canon.diff(c, now)}")
    env.state(("space", tuple(case["ops"])))
    del seen


def shrink_scribble(case):
    for ops in core.shrink_list(case["ops"], 1):
        yield {**case, "ops": ops}
    for i, s in enumerate(case["stages"]):
        for ins in core.shrink_list(s["init"], 1):
            yield {**case, "stages": [*case["stages"][:i], {**s, "init": ins},
                                      *case["stages"][i + 1:]]}
    if len(case["stages"]) > 1:
        last = case["stages"][-1]
        rest = case["stages"][:-1]
        if not any(set(s["dep"]) & set(last["outs"]) for s in rest):
            yield {**case, "stages": rest}


# ------------------------------------------------------------------ C06: lifecycle


def gen_life(rng: random.Random) -> dict:
    keys = ALL_KEYS[:]
    rng.shuffle(keys)
    n = rng.randint(2, 5)
    cuts = sorted(rng.sample(range(1, len(keys)), n - 1))
    parts = [keys[a:b] for a, b in zip([0, *cuts], [*cuts, len(keys)])]
    init = sorted(initial_fields())
    sts = []
    made: list[str] = []
    for i, part in enumerate(parts):
        ins = [[a, f"real:{a}"] for a in rng.sample(init, rng.randint(0, 3))]
        ins += [[a, "K"] for a in rng.sample(made, min(len(made), rng.randint(0, 3)))]
        outs = [[a, "K"] for a in part]
        if made and rng.random() < 0.35:
            a = rng.choice(made)
            if [a, "K"] not in outs:
                outs.append([a, "K"])
        if not ins:
            ins = [[rng.choice(init), None]]
            ins[0][1] = f"real:{ins[0][0]}"
        sts.append({"name": f"L{i}", "ins": ins, "outs": outs, "before": [], "after": []})
        made += part
    spec = {"stages": sts, "init": [[a, f"real:{a}"] for a in init]}
    if model_ref.resolve(spec)[0] != "ok":
        return gen_life(rng)
    order = [s["name"] for s in sts]
    rng.shuffle(order)
    ops = []
    spaces = 2 if rng.random() < 0.3 else 1
    mix = {k: rng.random() ** 2 + 0.05 for k in
           ("build", "model", "stage", "until", "iter", "edit")}
    for _ in range(rng.randint(3, 10)):
        k = rng.choices(list(mix), list(mix.values()))[0]
        op = {"op": k, "r": rng.randrange(spaces)}
        if k in ("stage", "until"):
            op["s"] = rng.choice(order)
        if k == "iter":
            op["n"] = rng.randint(1, n + 1)
            op["keep"] = rng.random() < 0.6
        if k in ("build", "stage", "until", "iter") and rng.random() < 0.3:
            op["fault"] = machine.gen_fault(rng, n)
            if op["fault"]["kind"] == "line":
                op["fault"]["nth"] = rng.randrange(60 + 60 * n)
        ops.append(op)
        if rng.random() < 0.4:
            ops.append({"op": "model", "r": op["r"]})
        if any(o["op"] == "iter" for o in ops) and rng.random() < 0.5:
            ops.append({"op": "next", "r": rng.randrange(spaces), "n": rng.randint(1, 2)})
    ops += [{"op": "build", "r": 0}, {"op": "model", "r": 0}]
    return {"spec": spec, "order": order, "hash": rng.getrandbits(40), "ops": ops,
            "spaces": spaces, "meta": rng.getrandbits(30)}


def model_uids(model) -> dict:
    out = {}
    for part, fields in MODEL_KEYS.items():
        obj = getattr(model, part)
        for f, key in fields.items():
            v = getattr(obj, f)
            out[f"{part}.{f}"] = getattr(v, "uid", repr(v)[:60])
    return out


def expect_uids(final: dict) -> dict:
    return {f"{part}.{f}": final[key] for part, fields in MODEL_KEYS.items()
            for f, key in fields.items()}


def run_life(case, env) -> None:
    from instancespace.instance_space import InstanceSpace

    init = initial_fields()
    world = stages.World(case["spec"], case["hash"], env,
                         real_types={f"real:{a}": t for a, t in init.items()},
                         value_uid=canon.digest)
    verdict, rounds = model_ref.resolve(case["spec"])
    src, final_src = model_ref.producers(case["spec"], rounds)
    metas = [make_metadata(case["meta"] + i) for i in range(case["spaces"])]
    opts = make_options()
    with core.quiet():
        spaces = [InstanceSpace(metas[i], opts, stages=[world.stages[n] for n in case["order"]])
                  for i in range(case["spaces"])]
    complete: list[list[dict]] = [[] for _ in spaces]  # final uids of complete runs
    latest: list[dict | None] = [None] * len(spaces)
    exact = [True] * len(spaces)  # whether `latest` is certain
    owner: dict[str, int] = {}  # which space's run made a value
    iters: list = [None] * len(spaces)
    m = machine.Machine.__new__(machine.Machine)
    m.world, m.env = world, env
    for n, op in enumerate(case["ops"]):
        r = op["r"]
        sp = spaces[r]
        env.log("op", n, op["op"], r, op.get("s"))
        world.execs.clear()
        if op["op"] == "edit":
            metas[r].features[0, 0] += 1.0
            continue
        if op["op"] == "next" and iters[r] is None:
            continue
        value, err = None, None
        m.arm(op.get("fault"))
        try:
            with core.quiet():
                try:
                    if op["op"] == "build":
                        value = sp.build()
                    elif op["op"] == "model":
                        value = sp.model
                    elif op["op"] == "stage":
                        value = sp.run_stage(world.stages[op["s"]])
                    elif op["op"] == "until":
                        value = sp.run_until_stage(world.stages[op["s"]])
                    else:
                        it = sp.run_iter() if op["op"] == "iter" else iters[r]
                        iters[r] = it if op.get("keep", True) else None
                        for _ in range(op["n"]):
                            if next(it, None) is None:
                                break
                        if iters[r] is None:
                            it.close()
                finally:
                    m.disarm()
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            err = e
        fired = m.fault_fired
        env.steps += len(world.execs)
        for j, md in enumerate(metas):
            owner[canon.digest(md.features)] = owner[canon.digest(md.algorithms)] = j
        for e in world.execs:
            for a, (uid, _) in e["ins"].items():
                if owner.get(uid, r) != r:
                    raise Violation("foreign-value", f"op {n} {op['op']} of InstanceSpace {r}: "
                                    f"{e['stage']} was given {uid} as '{a}', which was made "
                                    f"by a run of InstanceSpace {owner[uid]}")
            for uid, _ in e["outs"].values():
                owner[uid] = r
        if any(i is not None for j, i in enumerate(iters) if j != r) and world.execs:
            env.probe("interleaved_spaces")
        env.log("result", type(err).__name__ if err else "ok", bool(fired))
        if fired is not None and err is None:
            raise Violation("swallowed", f"op {n} {op['op']}: {type(fired).__name__} was "
                            f"swallowed")
        if op["op"] == "build":
            done = {e["stage"]: e for e in world.execs if e["done"]}
            want = None
            if len(done) == len(case["order"]):
                want = expect_uids({
                    a: (done[p]["outs"][a][0] if p else None)
                    for a, p in final_src.items() if a in ALL_KEYS})
            if err is None:
                if want is None:
                    raise Violation("incomplete-build", f"op {n}: build returned a model after "
                                    f"running only {sorted(done)}")
                seq = [e["stage"] for e in world.execs]
                if len(seq) != len(case["order"]):
                    raise Violation("incomplete-build", f"op {n}: build ran {seq}")
                for e in world.execs:
                    for a, (uid, _) in e["ins"].items():
                        p = src[e["stage"]][a]
                        w = done[p]["outs"][a][0] if p else None
                        if a == "features":
                            w = canon.digest(metas[r].features)
                        elif a == "algorithms":
                            w = canon.digest(metas[r].algorithms)
                        elif a == "instance_labels":
                            w = canon.digest(metas[r].instance_labels)
                        elif a == "pilot_options":
                            w = canon.digest(opts.pilot)
                        if w is not None and uid != w:
                            raise Violation("stale-input", f"op {n}: build ran {e['stage']} on "
                                            f"an old or foreign '{a}'")
                check_model(n, "build returned", value, want, opts)
                latest[r], exact[r] = want, True
                complete[r].append(want)
                env.probe("build_ok")
            else:
                if fired is None:
                    raise Violation("refused", f"op {n}: build raised "
                                    f"{type(err).__name__}: {err} with no fault injected")
                env.probe("build_failed")
                if want:
                    exact[r] = False  # the model is the one before, or this one
                    complete[r].append(want)
                elif latest[r] is not None:
                    env.probe("failed_after_model")
        elif op["op"] == "model":
            if err is not None:
                if latest[r] is not None:
                    raise Violation("model-lost", f"op {n}: .model raised "
                                    f"{type(err).__name__} after a complete build")
                if not complete[r]:
                    from instancespace.stage_runner import StageRunningError
                    if not isinstance(err, StageRunningError):
                        raise Violation("wrong-error", f"op {n}: .model of a space that was "
                                        f"not built raised {type(err).__name__}: {err}")
                    env.probe("model_refused")
            else:
                got = model_uids(value)
                if exact[r] and latest[r] is not None:
                    check_model(n, ".model gave", value, latest[r], opts)
                elif not any(got == w for w in complete[r]):
                    raise Violation("torn-model", f"op {n}: .model gave a model that belongs "
                                    f"to no complete build: {_mixed(got, complete[r])}")
                env.probe("model_ok")
        env.state((op["op"], bool(fired), err is None, latest[r] is not None, exact[r]))


def _mixed(got, complete):
    if not complete:
        return sorted(got.items())[:4]
    w = complete[-1]
    return [(k, got[k], w[k]) for k in got if got[k] != w[k]][:5]


def check_model(n, what, model, want, opts) -> None:
    got = model_uids(model)
    bad = [(k, got[k], want[k]) for k in want if got[k] != want[k]]
    if bad:
        raise Violation("wrong-model", f"op {n}: {what} a model whose (field, value, latest "
                        f"run's value) differ: {bad[:5]}")
    if model.opts is not opts and canon.canon(model.opts) != canon.canon(opts):
        raise Violation("wrong-model", f"op {n}: {what} a model with other options")


def shrink_life(case):
    for ops in core.shrink_list(case["ops"], 1):
        yield {**case, "ops": ops}
    for i, op in enumerate(case["ops"]):
        if op.get("fault"):
            yield {**case, "ops": [*case["ops"][:i],
                                   {k: v for k, v in op.items() if k != "fault"},
                                   *case["ops"][i + 1:]]}
    if case["spaces"] > 1 and all(op["r"] == 0 for op in case["ops"]):
        yield {**case, "spaces": 1}
