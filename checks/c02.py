"""C02: the outcome does not depend on registration, set or hash order."""

from __future__ import annotations

from checks import c01
from sim import core, stages
from sim.core import Violation

PLAN = {"quick": {"runs": 4000, "batch": 50}, "thorough": {"runs": 240000, "batch": 50}}
RULE = ("A run takes one set of stages and resolves and runs it 3-6 times, each time with "
        "another registration order and other simulated hashes (hence set orders) of stage "
        "classes, argument types and field order. Non-trivial: at least two stages share a "
        "step or an argument; distinct by specification.")
STATE_MEASURE = "distinct observed execution orders of the same specification"
REAL = c01.REAL
STUB = c01.STUB
ASSUMPTIONS = ["stage bodies are deterministic functions of their inputs"]
MUST_FIRE = ["order_shuffled", "outcome_ok", "outcome_error", "several_orders_seen",
             "real_wiring", "type_clash", "built_again", "built_early", "initial_set"]
warm = c01.warm


def gen(rng, index, tier):
    real = rng.random() < 0.1
    if real:
        spec = stages.gen_real_plus_plugins(rng)
    else:
        spec = stages.gen_spec(rng, errors=0.15, overwrite=0.6, mutating=0.5,
                               type_clash=0.25)
        stages.decorate(spec, rng, 0.4)
        for s in spec["stages"]:
            s["keeps"] = False
    variants = []
    for _ in range(rng.randint(3, 6)):
        order = [s["name"] for s in spec["stages"]]
        rng.shuffle(order)
        v = {"order": order, "hash": rng.getrandbits(40), "as_set": rng.random() < 0.3}
        if variants and rng.random() < 0.5:
            v["times"] = rng.randint(1, 3)
            if rng.random() < 0.5:
                v["early"] = rng.randrange(len(order))
        variants.append(v)
    return {"spec": spec, "variants": variants, "real": real}


def outcome(spec, v, env):
    """(what happened, execution order) with provenance spelled out in full."""
    world = stages.World(spec, v["hash"], env)
    with core.quiet():
        runner, err = c01.build(world, v["order"], v.get("as_set"), v.get("early"),
                                v.get("times", 1))
        if err is not None:
            return ("refused", type(err).__name__), []
        try:
            result = runner.run_all(world.initial("init"))
        except Exception as e:  # noqa: BLE001
            return ("run-failed", type(e).__name__), [e["stage"] for e in world.execs]
    ins = {}
    for e in world.execs:
        ins.setdefault(e["stage"], []).append(
            sorted((a, s[0], s[1]) for a, s in e["ins"].items()))
    final = {a: b.snap() if isinstance(b, stages.Box) else repr(b)
             for a, b in result.items()}
    return ("ok", sorted(ins.items()), sorted(final.items())), [
        e["stage"] for e in world.execs]


def run(case, env):
    spec = case["spec"]
    if case.get("real"):
        env.probe("real_wiring")
    types = {}
    for s in spec["stages"]:
        for a, t in s["ins"] + s["outs"]:
            types.setdefault(a, set()).add(t)
    if any(len(t) > 1 for t in types.values()):
        env.probe("type_clash")
    first = None
    orders = set()
    for v in case["variants"]:
        env.fault("order_shuffled")
        if v.get("times", 1) > 1:
            env.probe("built_again")
        if "early" in v:
            env.probe("built_early")
        if v.get("as_set"):
            env.probe("initial_set")
        out, seq = outcome(spec, v, env)
        env.steps += len(seq)
        orders.add(tuple(seq))
        env.state(tuple(seq))
        env.log("outcome", out)
        if first is None:
            first = (out, v, seq)
            env.probe("outcome_ok" if out[0] == "ok" else "outcome_error")
        elif out != first[0]:
            raise Violation("order-dependent", _explain(first, (out, v, seq)))
    if len(orders) > 1:
        env.probe("several_orders_seen")
    if len(spec["stages"]) > 1:
        env.nontrivial = core.hashlib.md5(repr(spec).encode()).hexdigest()


def _explain(a, b):
    (oa, va, sa), (ob, vb, sb) = a, b
    if oa[0] != "ok" or ob[0] != "ok":
        return f"order {va['order']} gives {oa[:2]}, order {vb['order']} gives {ob[:2]}"[:600]
    for (n, ia), (_, ib) in zip(oa[1], ob[1]):
        if ia != ib:
            return (f"stage {n} runs on {ia} when stages run {sa}, and on {ib} when they "
                    f"run {sb}")
    diff = [(x, y) for x, y in zip(oa[2], ob[2]) if x != y]
    return f"final data differs: {diff[:3]} for orders {sa} and {sb}"


def shrink(case):
    if len(case["variants"]) > 2:
        for v in core.shrink_list(case["variants"], 2):
            yield {**case, "variants": v}
    for spec in stages.shrink_spec(case["spec"]):
        names = {s["name"] for s in spec["stages"]}
        yield {**case, "spec": spec, "real": False, "variants": [
            {**v, "order": [n for n in v["order"] if n in names]} for v in case["variants"]]}
    for i, v in enumerate(case["variants"]):
        for k in ("early", "times", "as_set"):
            if v.get(k):
                w = {a: b for a, b in v.items() if a != k}
                yield {**case, "variants": [*case["variants"][:i], w,
                                            *case["variants"][i + 1:]]}
