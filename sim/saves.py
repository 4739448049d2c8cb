"""Models of real builds, ways to save them, and what the saved files must hold."""

from __future__ import annotations

import csv
import math
import os
import random
import re
import shutil
import sys
import tempfile
import zipfile

import numpy as np

from sim import core, pipeline
from sim.core import HarnessError, Violation

FORMATS = ["csv", "web", "graphs", "mat"]
METHOD = {"csv": "save_to_csv", "web": "save_for_web", "graphs": "save_graphs",
          "mat": "save_to_mat"}
_POOL: dict = {}


def warm() -> None:
    pipeline.warm()
    sys.unraisablehook = lambda *_: None
    import matplotlib as mpl

    mpl.rcParams["savefig.dpi"] = 25
    import matplotlib.pyplot  # noqa: F401
    from matplotlib.figure import Figure

    fig = Figure()
    fig.subplots().set_title("warm")
    with tempfile.TemporaryDirectory() as d:
        fig.savefig(os.path.join(d, "warm.png"))
    import scipy.io  # noqa: F401


def spec_of(k: int, attempt: int) -> dict:
    rng = random.Random(f"models/{k}/{attempt}")
    s = pipeline.gen_spec(rng, "all")
    s["nf"] = rng.choice([2, 2, 3, 4])
    s["na"] = rng.choice([2, 2, 3])
    s["n"] = rng.randint(22, 36)
    s["missing"] = rng.choice([0.0, 0.0, 0.05])
    s["names"] = rng.choice(["plain", "plain", "odd"])
    s["pilot"] = {"analytic": rng.random() < 0.3, "n_tries": 1}
    s["pythia"]["cv_folds"] = 2
    if k % 5 == 0:
        s["selvars"] = {"small_scale_flag": True, "small_scale": 0.7}
    if k % 7 == 3:
        s["nf"], s["selvars"] = 4, {"feats": "some"}
    return s


ODD = ["a b", "é_x", "c,d", 'q"t', "x.y", "ß'", "#1", "(z)"]


def frame_of(spec: dict):
    df = pipeline.make_frame(spec)
    if spec["names"] == "odd":
        ren = {}
        for i, c in enumerate(c for c in df.columns if c.startswith(("feature_", "algo_"))):
            ren[c] = c + " " + ODD[(i + spec["seed"]) % len(ODD)]
        df = df.rename(columns=ren)
    return df


def model_of(k: int):
    """The k-th model: the first of its specs that builds. Returns (model, frame)."""
    if k not in _POOL:
        for attempt in range(12):
            spec = spec_of(k, attempt)
            df = frame_of(spec)
            md = pipeline._M["Metadata"].from_data_frame(df.copy())
            try:
                opts = _options(spec, md)
            except Exception as e:  # noqa: BLE001
                raise HarnessError(f"options: {e!r}") from e
            r = pipeline.outcome(lambda: pipeline.make_space(spec, md=md, opts=opts).build())
            if r[0] == "ok":
                _POOL[k] = (r[2], df)
                break
        else:
            raise HarnessError(f"no spec of model {k} builds: {r[2]!r}")
    return _POOL[k]


def big_model_of(k: int, times: int):
    """The k-th model with its instances repeated under other labels and with wider values."""
    import dataclasses

    import pandas as pd

    m, df = model_of(k)
    n = len(m.data.inst_labels)
    labs = [str(x) for x in m.data.inst_labels]
    new_labs = [f"{lab}~{t}" for t in range(times) for lab in labs]

    def tile(obj):
        out = {}
        for f in dataclasses.fields(obj):
            v = getattr(obj, f.name)
            if isinstance(v, np.ndarray) and v.ndim and len(v) == n:
                out[f.name] = np.concatenate([v] * times)
            elif isinstance(v, pd.Series) and len(v) == n:
                out[f.name] = pd.Series(list(v) * times)
        return dataclasses.replace(obj, **out)

    data = dataclasses.replace(tile(m.data), inst_labels=pd.Series(new_labs))
    at = {str(x): i for i, x in enumerate(df["Instances"])}
    wide = df.iloc[[at[lab] for lab in labs] * times].reset_index(drop=True)
    wide["Instances"] = new_labs
    m2 = dataclasses.replace(m, data=data, data_dense=data, pilot=tile(m.pilot),
                             pythia=tile(m.pythia))
    return m2, wide


def _options(spec, md):
    opts = pipeline.make_options({**spec, "selvars": {}})
    sel = dict(spec["selvars"])
    if sel.get("feats"):
        sel["feats"] = list(md.feature_names[:-1])
    if sel.get("algos"):
        sel["algos"] = list(md.algorithm_names[:max(2, len(md.algorithm_names) - 1)])
    o = pipeline._M["opt"]
    import dataclasses

    return dataclasses.replace(opts, selvars=o.SelvarsOptions.default(**sel))


def save(model, fmt: str, path, as_str: bool = False) -> str:
    """Save; returns what was printed."""
    with core.quiet() as out:
        if fmt.startswith("zip:"):
            model.save_zip(fmt[4:], str(path) if as_str else path)
        else:
            getattr(model, METHOD[fmt])(str(path) if as_str else path)
    return out.getvalue()


# ---------------------------------------------------------------- expected content


def _cell_ok(text: str, value) -> bool:
    if isinstance(value, (bool, np.bool_)):
        return text in ((("True", "1", "1.0") if value else ("False", "0", "0.0")))
    if isinstance(value, str):
        return text == value
    if value is None:
        return text == ""
    if isinstance(value, (np.float16, np.float32)) and np.isfinite(value):
        try:
            return type(value)(text) == value
        except ValueError:
            return False
    v = float(value)
    if math.isnan(v):
        return text == "" or text.lower() == "nan"
    try:
        return float(text) == v
    except ValueError:
        return False


def _read(path: str) -> list:
    with open(path, newline="", encoding="utf-8") as f:
        return list(csv.reader(f, strict=True))


def check_table(d: str, name: str, cols: list, rows, values, corner: str = "Row") -> None:
    """One CSV file against row labels, column labels and a 2-D table of values."""
    p = os.path.join(d, name)
    if not os.path.isfile(p):
        raise Violation("missing", f"{name} was not written")
    try:
        got = _read(p)
    except (OSError, UnicodeDecodeError, csv.Error) as e:
        raise Violation("unreadable", f"{name} cannot be read back: {e!r}") from None
    head = [*([corner] if rows is not None else []), *[str(c) for c in cols]]
    if not got or got[0] != head:
        raise Violation("header", f"{name} has columns {got[0] if got else None}, not {head}")
    body = got[1:]
    n = len(values)
    if len(body) != n:
        raise Violation("rows", f"{name} has {len(body)} rows, the model has {n}")
    for i, line in enumerate(body):
        lab = None
        if rows is not None:
            lab, line = line[0], line[1:]
            if lab != str(rows[i]):
                raise Violation("labels", f"{name} row {i} is labelled {lab!r}, "
                                f"not {str(rows[i])!r}")
        if len(line) != len(cols) or any(not _cell_ok(t, values[i][j])
                                         for j, t in enumerate(line)):
            raise Violation("values", f"{name} row {i} ({lab}) holds {line}, the model "
                            f"{[values[i][j] for j in range(len(cols))]}"[:400])


def _table(a) -> list:
    a = np.asarray(a)
    return a.reshape(len(a), -1).tolist() if a.dtype != object else [
        list(r) if np.ndim(r) else [r] for r in a]


def _parts(poly) -> list:
    if poly.geom_type == "Polygon":
        return [list(poly.exterior.coords)]
    return [list(g.exterior.coords) for g in poly.geoms]


def _check_footprint(d: str, name: str, poly) -> None:
    p = os.path.join(d, name)
    if not os.path.isfile(p):
        raise Violation("missing", f"{name} was not written")
    try:
        got = _read(p)
    except (OSError, UnicodeDecodeError, csv.Error) as e:
        raise Violation("unreadable", f"{name} cannot be read back: {e!r}") from None
    if not got or got[0] != ["Row", "z_1", "z_2"]:
        raise Violation("header", f"{name} starts with {got[:1]}")
    pts = []
    for i, line in enumerate(got[1:]):
        if len(line) != 3 or line[0] != f"bnd_pnt_{i + 1}":
            raise Violation("labels", f"{name} row {i} is {line}")
        pts.append((line[1], line[2]))
    # Each ring in turn, with or without the point that closes it.
    todo = [0]
    for part in _parts(poly):
        nxt = []
        for at in todo:
            for ring in (part, part[:-1]):
                seg = pts[at:at + len(ring)]
                if len(seg) == len(ring) and all(
                        float(a) == c[0] and float(b) == c[1]
                        for (a, b), c in zip(seg, ring)):
                    nxt.append(at + len(ring))
        todo = nxt
    if len(pts) not in todo:
        raise Violation("values", f"{name} does not trace the footprint's boundary")


def names_csv(m) -> set:
    out = {"coordinates.csv", "bounds.csv", "bounds_prunned.csv", "feature_raw.csv",
           "feature_process.csv", "algorithm_raw.csv", "algorithm_process.csv",
           "algorithm_bin.csv", "good_algos.csv", "beta_easy.csv", "portfolio.csv",
           "algorithm_svm.csv", "portfolio_svm.csv", "footprint_performance.csv",
           "svm_table.csv"}
    if m.pilot.summary is not None:
        out.add("projection_matrix.csv")
    for kind in ("best", "good"):
        for lab, f in zip(m.data.algo_labels, getattr(m.trace, kind)):
            if f is not None and f.polygon is not None:
                out.add(f"footprint_{lab}_{kind}.csv")
    return out


def names_web(_m) -> set:
    return {"color_table.csv", "feature_raw_color.csv", "algorithm_raw_single_color.csv",
            "feature_process_color.csv", "algorithm_process_single_color.csv",
            "algorithm_raw_color.csv", "algorithm_process_color.csv", "good_algos_color.csv"}


def names_graphs(m) -> set:
    out = {f"distribution_feature_{f}.png" for f in m.data.feat_labels}
    for a in m.data.algo_labels:
        out |= {f"distribution_performance_global_normalized_{a}.png",
                f"distribution_performance_individual_normalized_{a}.png",
                f"binary_performance_{a}.png", f"binary_svm_{a}.png", f"footprint_{a}.png"}
    out |= {"distribution_number_good_algos.png", "distribution_portfolio.png",
            "distribution_svm_portfolio.png", "distribution_beta_score.png",
            "footprint_portfolio.png"}
    if m.data.s is not None:
        out.add("distribution_sources.png")
    return out


NAMES = {"csv": names_csv, "web": names_web, "graphs": names_graphs,
         "mat": lambda _m: {"model.mat"}}


def truth(df, prefix: str, labels: list, inst) -> np.ndarray | None:
    """The metadata's own values under the model's labels, found by name."""
    ids = [str(x) for x in df["Instances"]]
    at = {x: i for i, x in enumerate(ids)}
    if len(at) != len(ids) or any(str(i) not in at for i in inst):
        return None
    cols = []
    for lab in labels:
        c = [x for x in df.columns if x in (prefix + str(lab), str(lab))]
        if len(c) != 1:
            return None
        cols.append(df[c[0]].to_numpy())
    return np.stack(cols, 1)[[at[str(i)] for i in inst]]


def check_csv(d: str, m, df) -> None:
    D, inst = m.data, [str(x) for x in m.data.inst_labels]
    feats, algos = list(D.feat_labels), list(D.algo_labels)
    z = ["z_1", "z_2"]
    bnd = lambda a: [f"bnd_pnt_{i + 1}" for i in range(len(a))]  # noqa: E731
    for kind in ("best", "good"):
        for lab, f in zip(algos, getattr(m.trace, kind)):
            if f is not None and f.polygon is not None:
                _check_footprint(d, f"footprint_{lab}_{kind}.csv", f.polygon)
    raw_f = truth(df, "feature_", feats, inst)
    raw_a = truth(df, "algo_", algos, inst)
    if raw_f is None or raw_a is None:
        raise Violation("labels", "the model's labels are not those of its metadata: "
                        f"{feats} {algos} {inst[:5]}")
    rows = [
        ("coordinates.csv", z, inst, m.pilot.z),
        ("bounds.csv", z, bnd(m.cloister.z_edge), m.cloister.z_edge),
        ("bounds_prunned.csv", z, bnd(m.cloister.z_ecorr), m.cloister.z_ecorr),
        ("feature_raw.csv", feats, inst, raw_f),
        ("feature_process.csv", feats, inst, D.x),
        ("algorithm_raw.csv", algos, inst, raw_a),
        ("algorithm_process.csv", algos, inst, D.y),
        ("algorithm_bin.csv", algos, inst, D.y_bin),
        ("good_algos.csv", ["NumGoodAlgos"], inst, D.num_good_algos),
        ("beta_easy.csv", ["IsBetaEasy"], inst, D.beta),
        ("portfolio.csv", ["Best_Algorithm"], inst, D.p),
        ("algorithm_svm.csv", algos, inst, m.pythia.y_hat),
        ("portfolio_svm.csv", ["Best_Algorithm"], inst, m.pythia.selection0),
    ]
    for name, cols, labels, values in rows:
        check_table(d, name, cols, labels, _table(values))
    t = m.trace.summary
    t = t.iloc[:, [0, 2, 4, 5, 7, 9, 10]]
    check_frame(d, "footprint_performance.csv", t, {"Algorithm": "Row"})
    if m.pilot.summary is not None:
        check_frame(d, "projection_matrix.csv", m.pilot.summary, {0: "Row"})
    check_frame(d, "svm_table.csv", m.pythia.summary, {"Algorithms": "Row"})


def check_frame(d: str, name: str, df, ren: dict) -> None:
    cols = [list(df.iloc[:, j].to_numpy()) for j in range(df.shape[1])]
    check_table(d, name, [ren.get(c, c) for c in df.columns], None, list(zip(*cols)))


def _scaled(a, per_column: bool) -> tuple:
    """(expected integers, where they are defined) of a colour table."""
    a = np.asarray(a, dtype=float)
    a = a.reshape(len(a), -1)
    with np.errstate(all="ignore"):
        if per_column:
            lo, hi = a.min(axis=0), a.max(axis=0)
        else:
            lo, hi = a.min(), a.max()
        return 255.0 * ((a - lo) / (hi - lo))


def check_colours(d: str, name: str, cols, inst, source, per_column: bool) -> None:
    p = os.path.join(d, name)
    if not os.path.isfile(p):
        raise Violation("missing", f"{name} was not written")
    try:
        got = _read(p)
    except (OSError, UnicodeDecodeError, csv.Error) as e:
        raise Violation("unreadable", f"{name} cannot be read back: {e!r}") from None
    if not got or got[0] != ["Row", *[str(c) for c in cols]]:
        raise Violation("header", f"{name} has columns {got[:1]}, not {cols}")
    want = _scaled(source, per_column)
    if [g[0] for g in got[1:]] != [str(i) for i in inst]:
        raise Violation("labels", f"{name} has rows {[g[0] for g in got[1:]][:6]}...")
    for i, line in enumerate(got[1:]):
        if len(line) != len(cols) + 1:
            raise Violation("values", f"{name} row {i} is cut: {line}")
        for j, t in enumerate(line[1:]):
            if not re.fullmatch(r"-?\d+", t):
                raise Violation("values", f"{name} row {i} holds {t!r}")
            w = want[i][j]
            if np.isfinite(w) and abs(int(t) - w) > 1:
                raise Violation("values", f"{name} row {i} column {cols[j]} holds colour {t} "
                                f"for {w:.2f}")


def check_web(d: str, m, df) -> None:
    D, inst = m.data, [str(x) for x in m.data.inst_labels]
    feats, algos = list(D.feat_labels), list(D.algo_labels)
    raw_f, raw_a = truth(df, "feature_", feats, inst), truth(df, "algo_", algos, inst)
    if raw_f is None or raw_a is None:
        raise Violation("labels", "the model's labels are not those of its metadata")
    for name, cols, src, per in [
            ("feature_raw_color.csv", feats, raw_f, True),
            ("algorithm_raw_single_color.csv", algos, raw_a, True),
            ("feature_process_color.csv", feats, D.x, True),
            ("algorithm_process_single_color.csv", algos, D.y, True),
            ("algorithm_raw_color.csv", algos, raw_a, False),
            ("algorithm_process_color.csv", algos, D.y, False),
            ("good_algos_color.csv", ["NumGoodAlgos"], D.num_good_algos, False)]:
        check_colours(d, name, cols, inst, src, per)
    p = os.path.join(d, "color_table.csv")
    if not os.path.isfile(p):
        raise Violation("missing", "color_table.csv was not written")
    got = _read(p)
    if got[0] != ["R", "G", "B"] or len(got) != 257 or any(
            not all(re.fullmatch(r"\d+", c) and int(c) < 256 for c in r[-3:])
            for r in got[1:]):
        raise Violation("values", f"color_table.csv has {len(got)} lines, starts {got[:2]}")


def check_graphs(d: str, m, _df=None) -> None:
    from PIL import Image

    for name in sorted(names_graphs(m)):
        p = os.path.join(d, name)
        if not os.path.isfile(p):
            raise Violation("missing", f"{name} was not written")
        try:
            with Image.open(p) as im:
                im.load()
                size = im.size
            with Image.open(p) as im:
                im.verify()
        except Exception as e:  # noqa: BLE001
            raise Violation("image", f"{name} does not decode: {e!r}") from None
        if min(size) < 20:
            raise Violation("image", f"{name} is {size} pixels")


def check_mat(d: str, m, _df=None) -> None:
    from scipy.io import loadmat

    p = os.path.join(d, "model.mat")
    if not os.path.isfile(p):
        raise Violation("missing", "model.mat was not written")
    try:
        got = loadmat(p)["data"]["algolabels"][0, 0]
    except Exception as e:  # noqa: BLE001
        raise Violation("unreadable", f"model.mat cannot be read back: {e!r}") from None
    want = [str(a) for a in m.data.algo_labels]
    have = [str(np.ravel(x)[0]).rstrip() for x in np.ravel(got)]
    if have != want:
        raise Violation("values", f"model.mat holds labels {have}, the model {want}")


CHECK = {"csv": check_csv, "web": check_web, "graphs": check_graphs, "mat": check_mat}


# ------------------------------------------------------------------------- folders


def scratch() -> str:
    return tempfile.mkdtemp(prefix="isa-sim-")


def drop(path: str) -> None:
    shutil.rmtree(path, ignore_errors=True)


def content(name: str, data: bytes):
    """A file's content, without the time stamps some formats carry."""
    if name.endswith(".mat"):
        return data[128:]
    if name.endswith(".zip"):
        import io

        try:
            with zipfile.ZipFile(io.BytesIO(data)) as z:
                return sorted((i.filename, content(i.filename, z.read(i)))
                              for i in z.infolist())
        except Exception as e:  # noqa: BLE001
            return ("bad zip", repr(e), data)
    return data


def listing(path: str) -> dict:
    """Every file below path with its content."""
    out = {}
    for root, dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, path)] = content(f, h.read())
        for f in dirs:
            out[os.path.relpath(os.path.join(root, f), path) + "/"] = None
    return out


def compare(want: dict, got: dict, what: str) -> None:
    for f in sorted(set(want) | set(got)):
        if f not in got:
            raise Violation("missing", f"{what}: {f} is missing")
        if f not in want:
            raise Violation("remnant", f"{what}: {f} should not be there")
        if want[f] != got[f]:
            raise Violation("differs", f"{what}: {f} differs"
                            + (f" ({len(got[f])} instead of {len(want[f])} bytes)"
                               if isinstance(got[f], bytes) else ""))
