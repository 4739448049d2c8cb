"""C14: loading gives complete data or None, never partial data or a stray error."""

from __future__ import annotations

import gc
import hashlib
import json
import math
import os
import random
from dataclasses import fields
from pathlib import Path

import numpy as np

from sim import canon, core, faultfs, saves
from sim.core import Violation

PLAN = {"quick": {"runs": 8000, "batch": 80}, "thorough": {"runs": 600000, "batch": 300}}
RULE = ("A run writes metadata and options files with drawn content (1-300 instances, odd "
        "names, missing values; a drawn part of the options), some of them missing, empty, "
        "undecodable at a drawn byte, or a folder, and performs one to four loads through the "
        "simulated disk with small buffers, short reads and faults at drawn operations (open, "
        "read, close, stat), the files perhaps replaced by others in between. Each result is "
        "compared with the file as parsed by the checker. Non-trivial: a fault fired or a file "
        "was bad; distinct by case.")
STATE_MEASURE = "distinct (call, operation, fault kind, kind of file, outcome)"
REAL = ["instancespace.data.metadata.from_csv_file, options.from_json_file",
        "instance_space.instance_space_from_files and _from_directory", "pandas' CSV reader, "
        "json, pathlib and io Python code"]
STUB = ["open files below the input folder (simulated disk)"]
ASSUMPTIONS = ["labels are compared as pandas reads them; numbers to 1e-9, and exactly with those a load without faults gives"]
MUST_FIRE = ["short_read", "none_after_fault", "complete", "bad_csv", "bad_json", "missing",
             "folder", "closing_fault", "replaced", "reloaded_ok"]
WALL_LIMIT = 120
CPU_LIMIT = 40


def warm(tier):
    saves.warm()
    from instancespace.data import metadata, options
    from instancespace import instance_space as isp

    _F.update(csv=metadata.from_csv_file, json=options.from_json_file,
              files=isp.instance_space_from_files,
              directory=isp.instance_space_from_directory, opt=options)
    gc.collect()
    gc.freeze()  # later collections look only at what the runs made


_F: dict = {}
CALLS = ["csv", "csv", "csv", "json", "json", "files", "directory"]
BAD = ["undecodable", "missing", "folder", "empty"]


def gen(rng, index, tier):
    case = {"files": [_gen_file(rng) for _ in range(rng.choice([1, 1, 2]))], "loads": []}
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        plan = faultfs.gen_knobs(rng)
        plan["buf"] = rng.choice([16, 64, 256, 1000, 8192])
        if rng.random() < 0.6:
            faultfs.gen_fault(rng, plan, ["errors", "errors", "errors", "close", "memory",
                                          "interrupt"])
        case["loads"].append({"call": rng.choice(CALLS), "str": rng.random() < 0.4,
                              "of": rng.randrange(len(case["files"])), "plan": plan})
    return case


def _gen_file(rng):
    f = {"seed": rng.getrandbits(30), "n": rng.choice([1, 2, 5, 20, 300]),
         "nf": rng.choice([1, 2, 4]), "na": rng.choice([1, 2, 3]),
         "source": rng.random() < 0.5, "ids": rng.choice(["str", "int", "odd"]),
         "missing": rng.choice([0, 0, 0.2]), "upper": rng.random() < 0.2,
         "indent": rng.choice([None, 2]), "csv": "ok", "json": "ok",
         "eol": rng.choice(["\n", "\n", "\r\n"])}
    if rng.random() < 0.25:
        f["csv"] = rng.choice(BAD)
    if rng.random() < 0.25:
        f["json"] = rng.choice([*BAD, "truncated", "extra", "list"])
    f["pos"] = rng.random()
    return f


def csv_content(f) -> tuple:
    """(bytes, expected parts)."""
    r = random.Random(f["seed"])
    ids = {"str": [f"inst{i}" for i in range(f["n"])],
           "int": [str(10 + 3 * i) for i in range(f["n"])],
           "odd": [r.choice(["x,y", 'q"t', "é", "ünï ", "日本"]) + f"/{i}"
                   for i in range(f["n"])]}[f["ids"]]
    num = lambda: "" if r.random() < f["missing"] else repr(  # noqa: E731
        r.choice([r.uniform(-9, 9), r.uniform(0, 1e6), r.gauss(0, 1)]))
    odd = "é" if f["ids"] == "odd" else ""
    feats = [f"feature_f{odd}{j}" for j in range(f["nf"])]
    algos = [f"algo_a{odd}{j}" for j in range(f["na"])]
    head = ["Instances", *(["Source"] if f["source"] else []), *feats, *algos]
    if f["upper"]:
        head[0] = head[0].upper()
    src = [f"s{r.randrange(3)}" for _ in ids]
    x = [[num() for _ in feats] for _ in ids]
    y = [[num() for _ in algos] for _ in ids]
    q = lambda s: '"' + s.replace('"', '""') + '"' if set(s) & set(',"') else s  # noqa: E731
    lines = [",".join(map(q, head))]
    for i, lab in enumerate(ids):
        lines.append(",".join([q(lab), *([src[i]] if f["source"] else []), *x[i], *y[i]]))
    return ((f["eol"].join(lines) + f["eol"]).encode(),
            {"ids": ids, "feats": feats, "algos": algos, "x": x, "y": y,
             "src": src if f["source"] else None})


def json_content(f) -> tuple:
    r = random.Random(f["seed"] + 1)
    val = {bool: lambda: r.random() < 0.5, int: lambda: r.randint(1, 99),
           float: lambda: round(r.random(), 3), str: lambda: r.choice(["Ftr", "é", "a b"])}
    want: dict = {}
    top = [x.name for x in fields(_F["opt"].InstanceSpaceOptions)]
    opts = _F["opt"].InstanceSpaceOptions.from_dict({})
    for part in r.sample(top, r.randint(0, len(top))):
        obj = getattr(opts, part)
        names = [x.name for x in fields(obj) if type(getattr(obj, x.name)) in val]
        pick = r.sample(names, r.randint(0, len(names)))
        want[part] = {n: val[type(getattr(obj, n))]() for n in pick}
        if part == "selvars" and r.random() < 0.5:
            want[part]["feats"] = ["feature_é", "x"]
    doc = want
    if f["json"] == "extra":
        doc = {**want, "perf": {**want.get("perf", {}), "no_such_option": 1}}
    elif f["json"] == "list":
        doc = [want]
    text = json.dumps(doc, indent=f["indent"], ensure_ascii=r.random() < 0.3)
    return text.encode(), want


def place_file(path: str, data: bytes, how: str, pos: float) -> None:
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.remove(path)
    if how == "missing":
        return
    if how == "folder":
        os.mkdir(path)
        return
    if how == "empty":
        data = b""
    elif how == "undecodable":
        i = int(pos * len(data))
        data = data[:i] + b"\xff\xfe\xa0" + data[i:]
    elif how == "truncated":
        data = data[:max(1, int(pos * (len(data) - 1)))]
    with open(path, "wb") as h:
        h.write(data)


def close_to(text: str, v: float) -> bool:
    if text == "":
        return math.isnan(v)
    w = float(text)
    return v == w or abs(v - w) <= 1e-9 * abs(w)


def check_metadata(m, want, what) -> None:
    def bad(part, detail=""):
        raise Violation("partial", f"{what}: the metadata's {part} are not those of the file "
                        f"{detail}"[:300])

    if list(m.feature_names) != want["feats"]:
        bad("feature names", repr(m.feature_names))
    if list(m.algorithm_names) != want["algos"]:
        bad("algorithm names", repr(m.algorithm_names))
    labels = [m.instance_labels] if isinstance(m.instance_labels, str) else \
        [str(x) for x in np.ravel(m.instance_labels)]
    if labels != want["ids"]:
        bad("instance labels", f"({len(labels)} of {len(want['ids'])})")
    if (m.instance_sources is None) != (want["src"] is None):
        bad("sources")
    if want["src"] is not None and [str(x) for x in np.ravel(m.instance_sources)] \
            != want["src"]:
        bad("sources")
    for key, a in (("x", m.features), ("y", m.algorithms)):
        a = np.asarray(a, dtype=float)
        if a.shape != (len(want["ids"]), len(want[key][0])):
            bad("values", f"(shape {a.shape})")
        for i, row in enumerate(want[key]):
            for j, t in enumerate(row):
                if not close_to(t, a[i, j]):
                    bad("values", f"(row {i}: {t} read as {a[i, j]!r})")


def check_options(o, want, what) -> None:
    base = _F["opt"].InstanceSpaceOptions.from_dict({})
    for part in fields(_F["opt"].InstanceSpaceOptions):
        got, dflt = getattr(o, part.name), getattr(base, part.name)
        for x in fields(dflt):
            v = want.get(part.name, {}).get(x.name, getattr(dflt, x.name))
            if canon.canon(getattr(got, x.name)) != canon.canon(v):
                raise Violation("partial", f"{what}: option {part.name}.{x.name} is "
                                f"{getattr(got, x.name)!r}, the file says {v!r}")


def call(kind, d, as_str):
    conv = str if as_str else Path
    c, j = os.path.join(d, "metadata.csv"), os.path.join(d, "options.json")
    if kind == "csv":
        return _F["csv"](conv(c))
    if kind == "json":
        return _F["json"](conv(j))
    if kind == "files":
        return _F["files"](Path(c), Path(j))
    return _F["directory"](Path(d))


def run(case, env):
    d = saves.scratch()
    current = None
    try:
        for load in [*case["loads"], *[{"call": "directory", "str": False, "of": i,
                                        "plan": {"seed": 0}, "last": True}
                                       for i in range(len(case["files"]))]]:
            f = case["files"][load["of"]]
            cdata, cwant = csv_content(f)
            jdata, jwant = json_content(f)
            if load["of"] != current:
                if current is not None:
                    env.probe("replaced")
                current = load["of"]
                place_file(os.path.join(d, "metadata.csv"), cdata, f["csv"], f["pos"])
                place_file(os.path.join(d, "options.json"), jdata, f["json"], f["pos"])
            kind = load["call"]
            uses = {"csv": ["csv"], "json": ["json"]}.get(kind, ["csv", "json"])
            bad = [u for u in uses if f[u] != "ok"]
            if f["json"] == "truncated" and "json" in bad:
                with open(os.path.join(d, "options.json"), "rb") as h:
                    try:
                        json.loads(h.read().decode())
                        bad.remove("json")  # e.g. cut after a complete value
                        jwant = None
                    except ValueError:
                        pass
            before = saves.listing(d)
            # The operations of a clean load, to place the faults.
            probe = faultfs.Disk(d, {"seed": 0, "buf": load["plan"].get("buf")})
            with faultfs.mounted(probe), core.quiet():
                clean = None
                try:
                    clean = call(kind, d, load["str"])
                except Exception:  # noqa: BLE001
                    pass
            plan = faultfs.place(load["plan"], probe.ops, 1)
            gc.collect()
            fds = set(os.listdir("/proc/self/fd"))
            disk = faultfs.Disk(d, plan, env)
            got, err = None, None
            with core.quiet() as out:
                try:
                    with faultfs.mounted(disk):
                        got = call(kind, d, load["str"])
                except (Exception, faultfs.Interrupted) as e:  # noqa: BLE001
                    err = type(e).__name__, str(e).replace(d, "DIR")[:160]
                    e.__traceback__ = None
                    e.__context__ = None
                    del e
            hard = [x for x in disk.fired if x[0] != "short_read"]
            names = {x[0] for x in hard}
            if hard:
                gc.collect()
            env.log("load", kind, f["csv"], f["json"], err, got is not None, disk.n,
                    len(disk.fired))
            for k, n in hard[:4]:
                env.state((kind, disk.ops[n - 1] if n <= len(disk.ops) else None, k, err,
                           got is not None))
            env.state((kind, f["csv"], f["json"], err, got is not None, bool(hard)))
            if hard or bad:
                env.nontrivial = hashlib.md5(repr(case).encode()).hexdigest()
            for u in bad:
                env.probe("bad_" + u)
                if f[u] in ("missing", "folder"):
                    env.probe(f[u])
            if any(x.startswith("close") for x in names):
                env.probe("closing_fault")
            what = f"loading {kind}" + (f" with {hard[0][0]} at operation {hard[0][1]} "
                                        f"{disk.ops[hard[0][1] - 1]}" if hard else "") + (
                f" ({', '.join(f'{u} file {f[u]}' for u in bad)})" if bad else "")
            if disk.live or set(os.listdir("/proc/self/fd")) - fds:
                raise Violation("open-files", f"{what} left a file open")
            if saves.listing(d) != before:
                raise Violation("changed", f"{what} changed the files")
            if err:
                if err[0] in ("Interrupted", "MemoryError") and names & {
                        "interrupt", "memory_error"}:
                    continue
                raise Violation("stray-error", f"{what} raised {err[0]}: {err[1]}")
            if got is None:
                if not hard and not bad:
                    raise Violation("refused", f"{what} gave None for good files: "
                                    f"{out.getvalue()[-200:]}".replace(d, "DIR"))
                if not out.getvalue().strip():
                    raise Violation("silent", f"{what} gave None without printing why")
                if hard:
                    env.probe("none_after_fault")
                continue
            if bad:
                raise Violation("accepted", f"{what} gave an object")
            env.probe("complete")
            if hard:
                env.probe("complete_in_spite")
            if load.get("last"):
                env.probe("reloaded_ok")
            if clean is not None:
                parts = [(x.metadata, x.options) if kind in ("files", "directory") else x
                         for x in (clean, got)]
                a, b = canon.canon(parts[0]), canon.canon(parts[1])
                if a != b:
                    raise Violation("partial", f"{what} gave other data than without: "
                                    + "; ".join(canon.diff(a, b))[:250])
            if kind == "csv":
                check_metadata(got, cwant, what)
            elif kind == "json":
                if jwant is not None:
                    check_options(got, jwant, what)
            else:
                check_metadata(got.metadata, cwant, what)
                if jwant is not None:
                    check_options(got.options, jwant, what)
    finally:
        saves.drop(d)


def shrink(case):
    loads = case["loads"]
    for i in range(len(loads)):
        yield {**case, "loads": loads[:i] + loads[i + 1:]}
    for i, x in enumerate(loads):
        for q in faultfs.shrink_plan(x["plan"]):
            yield {**case, "loads": [*loads[:i], {**x, "plan": q}, *loads[i + 1:]]}
        if x["call"] in ("files", "directory"):
            for c in ("csv", "json"):
                yield {**case, "loads": [*loads[:i], {**x, "call": c}, *loads[i + 1:]]}
    for i, f in enumerate(case["files"]):
        for key, v in (("n", 2), ("n", 5), ("nf", 1), ("na", 1), ("source", False),
                       ("ids", "str"), ("missing", 0), ("upper", False), ("csv", "ok"),
                       ("json", "ok"), ("eol", "\n"), ("indent", None)):
            if f[key] != v:
                yield {**case, "files": [*case["files"][:i], {**f, key: v},
                                         *case["files"][i + 1:]]}
