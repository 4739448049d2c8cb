"""Whole builds of small instance spaces with the library's real stages."""

from __future__ import annotations

import random

import numpy as np
import pandas as pd

from sim import canon, core

_M: dict = {}


def order_stages() -> None:
    """Stage classes get hashes from their names, so sets of them have one order per seed."""
    import abc

    if "__hash__" in vars(abc.ABCMeta):
        return
    plain = type.__hash__

    def by_name(cls):
        if cls.__module__.startswith("instancespace.stages."):
            return hash(("stage", cls.__qualname__))
        return plain(cls)

    abc.ABCMeta.__hash__ = by_name


def warm() -> None:
    if _M:
        return
    order_stages()
    import joblib  # noqa: F401
    from loguru import logger
    import pygad  # noqa: F401
    import skopt  # noqa: F401

    import logging
    import warnings

    logger.remove()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from instancespace import instance_space
    from instancespace.data import options
    from instancespace.data.metadata import Metadata

    _M.update(opt=options, Metadata=Metadata, IS=instance_space.InstanceSpace)


def stage_list() -> list:
    """The stages of a default InstanceSpace, in dependency order."""
    import inspect

    return list(inspect.signature(_M["IS"].__init__).parameters["stages"].default)


PREFIX = {"sifted": 3, "pilot": 4, "pythia": 5, "all": 7}


def gen_spec(rng: random.Random, kind: str | None = None) -> dict:
    """A small space. kind: sifted | pilot | all (how far the pipeline runs)."""
    kind = kind or rng.choice(["sifted", "pilot", "all", "all"])
    nf = rng.choice([2, 3, 4, 5, 5, 6, 6, 7])
    spec = {
        "kind": kind, "seed": rng.getrandbits(30), "n": rng.randint(26, 46), "nf": nf,
        "na": rng.choice([2, 3, 3, 4, 5]), "noise": rng.choice([0.1, 0.4, 1.0]),
        "missing": rng.choice([0.0, 0.0, 0.0, 0.0, 0.05]), "dup": rng.choice([0, 0, 3]),
        "source": rng.random() < 0.6, "ids": rng.choice(["str", "str", "int", "odd"]),
        "junk_rows": rng.choice([0, 0, 2]),
        "ties": rng.random() < 0.3,
        "selnames": rng.choice(["in order", "reversed", "twice", "with unknown"]),
        "perf": {"epsilon": rng.choice([0.2, 0.4, 0.6]), "abs_perf": False,
                 "max_perf": rng.random() < 0.4, "beta_threshold": rng.choice([0.4, 0.55])},
        "auto": rng.random() < 0.85, "bound": rng.random() < 0.85,
        "norm": rng.random() < 0.85,
        "selvars": rng.choice([{}, {}, {"small_scale_flag": True, "small_scale": 0.7},
                               {"density_flag": True, "min_distance": 0.05,
                                "selvars_type": rng.choice(["Ftr", "Ftr&AP", "Ftr&Good",
                                                            "Ftr&AP&Good"])},
                               {"feats": "some"}, {"algos": "some"}]),
        "sifted": {"rho": rng.choice([0.1, 0.3]), "k": rng.choice([2, 3, 3]),
                   "num_generations": rng.choice([1, 2]), "sol_per_pop": 4,
                   "replicates": 2, "max_iter": 30, "k_tournament": 2,
                   "keep_elitism": rng.choice([0, 1]),
                   "mutation_probability": rng.choice([0.05, 0.5]),
                   "parent_selection_type": rng.choice(["tournament", "sss", "rws"]),
                   "crossover_type": rng.choice(["scattered", "single_point", "uniform"]),
                   "stop_criteria": rng.choice(["saturate_5", "reach_0"])},
        "pilot": {"analytic": rng.random() < 0.3, "n_tries": rng.choice([1, 2])},
        "cloister": {"p_val": 0.05, "c_thres": rng.choice([0.4, 0.7])},
        "pythia": {"use_grid_search": True, "cv_folds": rng.choice([2, 3]),
                   "is_poly_krnl": rng.random() < 0.3, "use_weights": rng.random() < 0.4},
        "trace": {"use_sim": rng.random() < 0.5, "purity": rng.choice([0.55, 0.75])},
    }
    if rng.random() < 0.25:
        spec["perf"].update(abs_perf=True, epsilon=rng.choice([1.0, 1.4]))
    if spec["selvars"].get("density_flag") and rng.random() < 0.6:
        spec["selvars"] = {}
    spec["zeros"] = rng.random() < 0.15
    return spec


def make_frame(spec: dict) -> pd.DataFrame:
    rng = np.random.default_rng(spec["seed"])
    n, nf, na = spec["n"], spec["nf"], spec["na"]
    lat = rng.normal(size=(n, 2))
    feats = lat @ rng.normal(size=(2, nf)) + spec["noise"] * rng.normal(size=(n, nf))
    angle = 2 * np.pi * (np.arange(na) + rng.random()) / na
    centre = 1.5 * np.stack([np.cos(angle), np.sin(angle)], 1)
    perf = np.stack([np.linalg.norm(lat - c, axis=1) for c in centre], 1)
    perf = perf + 0.05 + 0.1 * rng.random((n, na))
    if spec.get("ties"):
        perf = np.round(perf, 1)
    if spec.get("zeros"):
        perf[np.random.default_rng(spec["seed"] + 1).random((n, na)) < 0.05] = 0.0
    if spec["missing"]:
        perf[rng.random((n, na)) < spec["missing"]] = np.nan
        feats[rng.random((n, nf)) < spec["missing"] / 2] = np.nan
    if spec["dup"]:
        feats[: spec["dup"]] = feats[n - spec["dup"]:]
    if spec["junk_rows"]:
        j = spec["junk_rows"]
        feats[-j:] = np.nan
        perf[-j:] = np.nan
    if spec["ids"] == "int":
        ids = [100 + 7 * i for i in range(n)]
    elif spec["ids"] == "odd":
        odd = ["x,y", 'q"t', "a b", "é", "tab\tx", "#7", "07", "1e3", "-", "ünï,\"x\""]
        ids = [odd[i % len(odd)] + str(i) for i in range(n)]
    else:
        ids = [f"i{i}" for i in range(n)]
    cols: dict = {"Instances": ids}
    if spec["source"]:
        cols["Source"] = [f"src{i % 3}" for i in range(n)]
    for j in range(nf):
        cols[f"feature_f{j}"] = feats[:, j]
    for j in range(na):
        cols[f"algo_a{j}"] = perf[:, j]
    return pd.DataFrame(cols)


def make_metadata(spec: dict):
    return _M["Metadata"].from_data_frame(make_frame(spec))


def make_options(spec: dict, parallel: tuple | None = None):
    o = _M["opt"]
    md = make_metadata(spec)
    sel = dict(spec["selvars"])
    if sel.get("feats"):
        sel["feats"] = list(md.feature_names[: max(2, len(md.feature_names) - 1)])
    if sel.get("algos"):
        sel["algos"] = list(md.algorithm_names[: max(2, len(md.algorithm_names) - 1)])
    for k in ("feats", "algos"):
        how = spec.get("selnames", "in order")
        if sel.get(k) and how == "reversed":
            sel[k] = sel[k][::-1]
        elif sel.get(k) and how == "twice":
            sel[k] = [*sel[k][1:], *sel[k]]
        elif sel.get(k) and how == "with unknown":
            sel[k] = [*sel[k], "not_there"]
    par = o.ParallelOptions.default(flag=parallel[0], n_cores=parallel[1]) if parallel else \
        o.ParallelOptions.default()
    return o.InstanceSpaceOptions.default(
        parallel=par,
        perf=o.PerformanceOptions.default(**spec["perf"]),
        auto=o.AutoOptions.default(preproc=spec["auto"]),
        bound=o.BoundOptions.default(flag=spec["bound"]),
        norm=o.NormOptions.default(flag=spec["norm"]),
        selvars=o.SelvarsOptions.default(**sel),
        sifted=o.SiftedOptions.default(**spec["sifted"]),
        pilot=o.PilotOptions.default(**spec["pilot"]),
        cloister=o.CloisterOptions.default(**spec["cloister"]),
        pythia=o.PythiaOptions.default(**spec["pythia"]),
        trace=o.TraceOptions.default(**spec["trace"]), outputs=None)


def make_space(spec: dict, parallel=None, md=None, opts=None):
    """An InstanceSpace over as many of its default stages as the spec asks for."""
    md = md if md is not None else make_metadata(spec)
    opts = opts if opts is not None else make_options(spec, parallel)
    n = PREFIX[spec["kind"]]
    if spec["kind"] == "all":
        return _M["IS"](md, opts)
    return _M["IS"](md, opts, stages=stage_list()[:n])


def run_space(space, spec: dict):
    """Build or, when only some stages run, iterate; the canonical result."""
    if spec["kind"] == "all":
        return space.build()
    return [(o.stage.__name__, o.output) for o in space.run_iter()]


def outcome(fn) -> tuple:
    """('ok', canon, value) or ('err', type name, exception)."""
    try:
        with core.quiet(), np.errstate(all="ignore"):
            v = fn()
    except core.NoProgress:
        raise
    except Exception as e:  # noqa: BLE001
        return ("err", type(e).__name__, e)
    return ("ok", canon.canon(v), v)
