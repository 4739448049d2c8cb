"""Reference model of stage resolution, written from StageBuilder's documentation.

Rounds: in each round, every stage whose inputs are available and whose run-after
stages are done is ready. A ready mutating stage (same argument in and out) goes before
other ready stages that read that argument. Two stages that would mutate, or output,
the same argument in the same round are an ambiguity, and an error. A round in which
nothing can run while stages remain is an error.
"""

from __future__ import annotations


def resolve(spec: dict):
    """Return ("ok", rounds) or ("error", reason)."""
    ins = {s["name"]: {tuple(a) for a in s["ins"]} for s in spec["stages"]}
    outs = {s["name"]: {tuple(a) for a in s["outs"]} for s in spec["stages"]}
    preds: dict[str, set] = {n: set() for n in ins}
    for s in spec["stages"]:
        preds[s["name"]].update(s.get("after", []))
        for b in s.get("before", []):
            if b in preds:
                preds[b].add(s["name"])
    avail = {tuple(a) for a in spec["init"]}
    left = [s["name"] for s in spec["stages"]]
    done: set[str] = set()
    rounds: list[list[str]] = []
    while left:
        ready = [n for n in left if ins[n] <= avail and preds[n] <= done]
        owner: dict = {}
        for n in ready:
            for a in ins[n] & outs[n]:
                if a in owner:
                    return "error", f"ambiguous: {owner[a]} and {n} both mutate {a[0]}"
                owner[a] = n
        now = [n for n in ready if all(owner.get(a, n) == n for a in ins[n])]
        if not now:
            return "error", f"cannot run: {sorted(left)}"
        seen: dict = {}
        for n in now:
            for a, _ in outs[n]:
                if a in seen:
                    return "error", f"ambiguous: {seen[a]} and {n} both output {a}"
                seen[a] = n
        for n in now:
            avail |= outs[n]
        done |= set(now)
        left = [n for n in left if n not in done]
        rounds.append(now)
    return "ok", rounds


def producers(spec: dict, rounds: list[list[str]]):
    """Who supplies each stage's inputs, and each final value: a stage or None (initial)."""
    by = {s["name"]: s for s in spec["stages"]}
    cur: dict = {a: None for a, _ in spec["init"]}
    src: dict = {}
    for rnd in rounds:
        for n in rnd:
            src[n] = {a: cur[a] for a, _ in by[n]["ins"]}
        for n in rnd:
            for a, _ in by[n]["outs"]:
                cur[a] = n
    return src, cur
