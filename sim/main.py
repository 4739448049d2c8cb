"""Command line of the checks: run, host, minimise, replay, selftest."""

from __future__ import annotations

import argparse
import importlib
import json
import os
import sys
import tempfile
import threading
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from sim import core, loader  # noqa: E402

loader.install()

LEVEL = "exploration"


def load_check(prop: str):
    return importlib.import_module(f"checks.{prop.lower()}")


def known_findings(prop: str) -> list[dict]:
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def jobs() -> int:
    return max(1, min(core.GROUPS, int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1))))


def collect(prop, seed, tier, runs, deadline, stop_on, njobs=None, on_rec=None):
    """Run all groups, at most njobs at once; returns (records, harness errors)."""
    recs: list[dict] = []
    errs: list[str] = []
    cut = [0]
    lock = threading.Lock()
    todo = list(range(core.GROUPS))
    stop = threading.Event()
    procs: list = []

    def worker():
        while True:
            with lock:
                if not todo or stop.is_set():
                    return
                g = todo.pop(0)
                p = core.spawn(["--host", prop, "--group", str(g), "--seed", str(seed),
                                "--tier", tier, "--runs", str(runs),
                                "--deadline", str(deadline)],
                               core.group_hashseed(seed, g))
                procs.append(p)
            ended = False
            for line in p.stdout:
                try:
                    rec = json.loads(line)
                except ValueError:
                    continue
                if rec["type"] == "end":
                    ended = True
                elif rec["type"] == "cut":
                    with lock:
                        cut[0] += 1
                else:
                    rec["group"] = g
                    with lock:
                        recs.append(rec)
                        if on_rec:
                            on_rec(rec)
                        if stop_on(rec):
                            stop.set()
                            for q in procs:
                                if q is not p and q.poll() is None:
                                    q.kill()
                            if p.poll() is None:
                                p.kill()
            p.wait()
            if not ended and not stop.is_set():
                with lock:
                    errs.append(f"host {g} ended early with {p.returncode}")

    ts = [threading.Thread(target=worker) for _ in range(njobs or jobs())]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return recs, errs, cut[0]


def cmd_run(prop: str, seed: int, tier: str, runs: int | None) -> int:
    t0 = time.time()
    check = load_check(prop)
    plan = check.PLAN[tier]
    runs = runs or plan["runs"]
    deadline = t0 + plan.get("soft_wall", 420 if tier == "quick" else 3 * 3600)
    known = known_findings(prop)

    def is_known(rec):
        v = rec["viol"]
        return v and any(k["kind"] == v["kind"] and k["match"] in v["message"] for k in known)

    def stop_on(rec):
        return bool(rec["err"]) or (bool(rec["viol"]) and not is_known(rec))

    recs, errs, cut = collect(prop, seed, tier, runs, deadline, stop_on)
    recs.sort(key=lambda r: r["index"])
    faults, probes, states, nontriv = Counter(), Counter(), set(), set()
    simtime, steps = 0.0, 0
    for r in recs:
        faults.update(r["faults"])
        probes.update(r["probes"])
        states.update(r["states"])
        simtime += r["simtime"]
        steps += r["steps"]
        if r["nontrivial"]:
            nontriv.add(r["nontrivial"])
    wall = time.time() - t0
    bad = [r for r in recs if r["viol"] and not is_known(r)]
    herr = [r["err"] for r in recs if r["err"]] + errs

    samples = []
    for i in (0, 1, 2):
        if i < runs:
            samples.append(_clip(check.gen(core.case_rng(seed, prop, i), i, tier)))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": len(recs),
            "distinct_nontrivial": len(nontriv),
            "rule": check.RULE,
            "samples": samples,
            "runs_per_hour": round(len(recs) / wall * 3600),
            "seeds": f"case seeds {seed}/{prop}/0..{runs - 1}",
            "hash_seeds": [core.group_hashseed(seed, g) for g in range(core.GROUPS)],
            "simulated_time_s": round(simtime, 3),
            "scheduler_steps": steps,
            "faults_injected": dict(sorted(faults.items())),
            "probes_hit": dict(sorted(probes.items())),
            "distinct_states": len(states),
            "state_measure": check.STATE_MEASURE,
            "real_components": check.REAL,
            "stub_components": check.STUB,
            "groups_cut_short_by_wall_limit": cut,
            "exhaustive": False,
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")

    def write_ev():
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=core._jsonable)

    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    if bad:
        rc = report(check, prop, seed, tier, bad[0], recs, ev)
        ev["wall_s"] = round(time.time() - t0, 2)
        write_ev()
        return rc
    write_ev()
    if herr:
        print(f"HARNESS-ERROR property={prop}\n" + "\n".join(herr[:3]))
        return 2
    if len(recs) < max(1, runs // 4):
        print(f"HARNESS-ERROR property={prop} only {len(recs)} of {runs} runs done in time")
        return 2
    missing = [f for f in getattr(check, "MUST_FIRE", []) if not (faults[f] or probes[f])]
    if missing and len(recs) >= runs:
        print(f"HARNESS-ERROR property={prop} never reached: {missing}")
        return 2
    print(f"OK property={prop} runs={len(recs)} distinct={len(nontriv)} states={len(states)} "
          f"faults={sum(faults.values())} wall={wall:.1f}s")
    return 0


def _clip(x, n=60):
    if isinstance(x, list):
        return [_clip(v) for v in x[:n]]
    if isinstance(x, dict):
        return {k: _clip(v) for k, v in x.items()}
    return x


def report(check, prop, seed, tier, rec, recs, ev) -> int:
    """Minimise, write the replay file, confirm it in a fresh process, and report."""
    batch = check.PLAN[tier].get("batch", 1)
    i = rec["index"]
    g = (i // batch) % core.GROUPS
    hs = core.group_hashseed(seed, g)
    gen = lambda j: check.gen(core.case_rng(seed, prop, j), j, tier)  # noqa: E731
    kind = rec["viol"]["kind"]
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    out = os.path.join(VERIF, "evidence", "replay", f"{prop}.json")
    result = None
    # Alone first; then after the earlier runs of its process, if state leaks between runs.
    for cases in ([gen(i)], [gen(j) for j in range(i - i % batch, i + 1)]):
        with tempfile.NamedTemporaryFile("w+", suffix=".json") as f:
            json.dump({"cases": cases, "kind": kind}, f)
            f.flush()
            p = core.spawn(["--minimise", prop, "--file", f.name], hs)
            text, _ = p.communicate()
        for line in text.splitlines():
            if line.startswith("{"):
                result = json.loads(line)
        if result and result.get("cases"):
            break
        result = None
    if result is None:
        print(f"HARNESS-ERROR property={prop} run {i} gave {kind} "
              f"({rec['viol']['message']}) but does not repeat in a fresh process")
        return 2
    doc = {"property": prop, "seed": seed, "run": i, "hashseed": hs, "kind": kind,
           "message": result["message"], "cases": result["cases"],
           "original_case": gen(i), "minimise_runs": result["tried"],
           "trace": result["trace"]}
    with open(out, "w") as f:
        json.dump(doc, f, indent=1)
    p = core.spawn(["--replay", out, prop], hs)
    text, _ = p.communicate()
    if p.returncode != 1:
        print(text)
        print(f"HARNESS-ERROR property={prop} replay file {out} does not reproduce")
        return 2
    ev["coverage"]["violation"] = {"run": i, "kind": kind, "message": result["message"],
                                   "replay": out}
    print(f"{kind}: {result['message']}")
    print(f"found at run {i} of seed {seed}; minimised in {result['tried']} runs; "
          f"rerun with: ./check {prop} --replay {out}")
    print(f"VIOLATION property={prop} replay={out}")
    return 1


def cmd_minimise(prop, path) -> int:
    check = load_check(prop)
    with open(path) as f:
        doc = json.load(f)
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    if hasattr(check, "warm"):
        check.warm("quick")
    res, tried = core.minimise(check, doc["cases"], doc["kind"],
                               budget_s=getattr(check, "MIN_S", 60), budget_n=500)
    if res is None:
        real_out.write(json.dumps({"cases": None}) + "\n")
    else:
        cases, rec = res
        real_out.write(json.dumps({"cases": cases, "message": rec["viol"]["message"],
                                   "trace": rec.get("trace", []), "tried": tried}) + "\n")
    real_out.flush()
    return 0


def cmd_replay(prop, path) -> int:
    with open(path) as f:
        doc = json.load(f)
    if os.environ.get("PYTHONHASHSEED") != str(doc["hashseed"]):
        p = core.spawn(["--replay", path, prop], doc["hashseed"])
        text, _ = p.communicate()
        print(text, end="")
        return p.returncode
    check = load_check(doc["property"])
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    if hasattr(check, "warm"):
        check.warm("quick")
    rec = core.run_cases_forked(check, doc["cases"])
    if rec["err"]:
        real_out.write(rec["err"] + "\n")
        real_out.flush()
        return 2
    if rec["viol"]:
        real_out.write("\n".join(json.dumps(t) for t in rec.get("trace", [])[-60:]) + "\n")
        real_out.write(f"{rec['viol']['kind']}: {rec['viol']['message']}\n")
        same = rec["viol"]["kind"] == doc["kind"]
        real_out.write(f"VIOLATION property={doc['property']} replay={path}\n" if same else
                       f"a different violation than the recorded {doc['kind']}\n")
        real_out.flush()
        return 1 if same else 2
    real_out.write(f"OK property={doc['property']}: the replay holds on this tree\n")
    real_out.flush()
    return 0


def cmd_selftest(props, seeds, runs) -> int:
    """Determinism: same seeds, other worker counts, event-log digests must agree."""
    bad = 0
    for prop in props:
        check = load_check(prop)
        n = 0
        for seed in seeds:
            ref = None
            for nj in (8, 3):
                recs, errs, _ = collect(prop, seed, "quick", runs or
                                        max(16, check.PLAN["quick"]["runs"] // 20),
                                        time.time() + 3600, lambda r: False, nj)
                d = {r["index"]: (r["digest"], json.dumps(r["viol"]), bool(r["err"]))
                     for r in recs}
                n += len(d)
                if errs:
                    print(prop, seed, "errors", errs)
                    bad += 1
                if ref is None:
                    ref = d
                elif d != ref:
                    diff = [i for i in ref if ref[i] != d.get(i)]
                    print(f"NONDETERMINISM {prop} seed={seed} runs={diff[:10]}")
                    bad += 1
        print(f"selftest {prop}: {n} runs compared", flush=True)
    return 2 if bad else 0


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="*")
    ap.add_argument("--host")
    ap.add_argument("--group", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--deadline", type=float, default=0)
    ap.add_argument("--minimise")
    ap.add_argument("--file")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--case", type=int, help="run one case in this process and show it")
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    if a.host:
        core.host_main(load_check(a.host), a.host, seed, a.tier, a.group, a.runs, a.deadline)
        return 0
    if a.minimise:
        return cmd_minimise(a.minimise, a.file)
    if a.replay:
        return cmd_replay(a.prop[0] if a.prop else "", a.replay)
    if a.selftest:
        return cmd_selftest(a.prop, [seed, seed + 1], a.runs)
    prop = a.prop[0]
    if a.case is not None:
        check = load_check(prop)
        case = check.gen(core.case_rng(seed, prop, a.case), a.case, a.tier)
        print(json.dumps(case))
        with core.quiet():
            if hasattr(check, "warm"):
                check.warm(a.tier)
            rec = core.run_case(check, case)
        for t in rec.pop("trace", [])[-80:]:
            print(t)
        print(rec["err"] or "", rec)
        return 1 if rec["viol"] or rec["err"] else 0
    return cmd_run(prop, seed, a.tier, a.runs)


if __name__ == "__main__":
    sys.exit(main())
