"""Synthetic stages whose values carry their provenance, and whose hashes are ours.

The stage runner and builder are the real ones. Stages are real subclasses of
`Stage`, made from a JSON specification; their metaclass supplies `__hash__` from the
case, so the iteration order of every set of stages inside the builder is a decision
of the simulator. Argument types are synthetic classes with simulated hashes too.
"""

from __future__ import annotations

import copy
import random
from typing import Any, NamedTuple

from instancespace.stages.stage import RunAfter, RunBefore, Stage

from sim import core


class Box:
    """A mutable stage value: who produced it, and what was done to it in place."""

    __slots__ = ("uid", "log", "truth")

    def __init__(self, uid: str, truth: bool | None = True) -> None:
        self.uid = uid
        self.log: list[str] = []
        self.truth = truth

    def __bool__(self) -> bool:
        """Values may be empty tables, zeros, or arrays that have no truth value."""
        if self.truth is None:
            raise ValueError("The truth value of an array with more than one element is "
                             "ambiguous. Use a.any() or a.all()")
        return self.truth

    def snap(self):
        return (self.uid, tuple(self.log))

    def __repr__(self) -> str:
        return f"<{self.uid}{'!' + ','.join(self.log) if self.log else ''}>"


class _SimMeta(type(Stage)):
    """Metaclass with simulator-controlled hashes (equality stays identity)."""

    def __hash__(cls) -> int:  # noqa: N805
        return cls.__dict__.get("_simhash", 0) or type.__hash__(cls)


class _TypeMeta(type):
    def __hash__(cls) -> int:  # noqa: N805
        return cls.__dict__.get("_simhash", 0) or type.__hash__(cls)


class StageFault(Exception):
    """An injected failure inside a stage."""


class World:
    """One simulated program: its stages, the executions so far, the planned faults."""

    def __init__(self, spec: dict, hash_seed: int, env: core.Env,
                 real_types: dict | None = None, value_uid=repr) -> None:
        self.spec = spec
        self.env = env
        self.execs: list[dict] = []
        self.count: dict[str, int] = {}
        self.on_exec = None  # hook(stage, occurrence, phase) -> may raise
        self.bad: core.Violation | None = None
        self.kept: list[Box] = []
        self.odd = False  # some values are None, falsy or without a truth value
        self.hash_seed = hash_seed
        rng = random.Random(hash_seed)
        self.types = {}
        for t in sorted({t for s in spec["stages"] for _, t in s["ins"] + s["outs"]}
                        | {t for _, t in spec["init"]}):
            self.types[t] = _TypeMeta(t, (), {"_simhash": rng.getrandbits(60) | 1})
        self.types.update(real_types or {})
        self.value_uid = value_uid
        self.stages: dict[str, type] = {}
        self.io: dict[str, tuple] = {}
        for s in spec["stages"]:
            self.stages[s["name"]] = self._make(s["name"], rng.getrandbits(60) | 1)
        # Stages that restrictions name but that are not part of the pipeline
        for g in sorted({t for s in spec["stages"]
                         for t in (*s.get("before", []), *s.get("after", []))}
                        - set(self.stages)):
            self.stages[g] = self._make(g, rng.getrandbits(60) | 1)
        for s in spec["stages"]:
            ins = [(n, self.types[t]) for n, t in s["ins"]]
            k = 0
            for b in s.get("before", []):
                ins.append((f"restriction{k}", RunBefore[self.stages[b]]))
                k += 1
            for a in s.get("after", []):
                ins.append((f"restriction{k}", RunAfter[self.stages[a]]))
                k += 1
            rng.shuffle(ins)
            outs = [(n, self.types[t]) for n, t in s["outs"]]
            rng.shuffle(outs)
            self.io[s["name"]] = (NamedTuple(f"In_{s['name']}", ins),
                                  NamedTuple(f"Out_{s['name']}", outs))
        self.init_type = NamedTuple(
            "Initial", [(n, self.types[t]) for n, t in spec["init"]])
        self.byname = {s["name"]: s for s in spec["stages"]}

    def _make(self, name: str, simhash: int) -> type:
        world = self

        def _inputs():
            return world.io[name][0]

        def _outputs():
            return world.io[name][1]

        def _run(inputs):
            return world.execute(name, inputs)

        return _SimMeta(name, (Stage,), {
            "_simhash": simhash,
            "_inputs": staticmethod(_inputs),
            "_outputs": staticmethod(_outputs),
            "_run": staticmethod(_run),
        })

    def initial(self, tag: str):
        return self.init_type(**{n: self.value(f"{tag}.{n}") for n, _ in self.spec["init"]})

    def value(self, uid: str):
        """A value with this provenance; in an odd world, sometimes not a plain one."""
        if not self.odd:
            return Box(uid)
        k = random.Random(f"{self.hash_seed}:{uid}").random()
        if k < 0.15:
            return None
        return Box(uid, True if k < 0.6 else False if k < 0.8 else None)

    def name_of(self, uid: str) -> str:
        """What a value with this provenance is recorded as."""
        return uid if isinstance(self.value(uid), Box) else "None"

    def execute(self, name: str, inputs: Any):
        k = self.count.get(name, 0)
        self.count[name] = k + 1
        s = self.byname[name]
        rec = {"stage": name, "k": k, "ins": {}, "outs": {}, "done": False}
        self.execs.append(rec)
        boxes = {}
        for n, _ in s["ins"]:
            b = getattr(inputs, n)
            boxes[n] = b
            rec["ins"][n] = (b.snap() if isinstance(b, Box) else
                              (self.value_uid(b), ()))
        self.env.log("exec", name, k, sorted((n, v[0]) for n, v in rec["ins"].items()))
        if self.on_exec:
            self.on_exec(name, k, "start")
        beh = s.get("mutates", [])
        for n in beh:
            if isinstance(boxes.get(n), Box):
                boxes[n].log.append(f"{name}#{k}")
        if s.get("keeps"):
            # Keep references to what was passed in and scribble on it later.
            for b in self.kept:
                b.log.append(f"late:{name}#{k}")
            self.kept += [b for b in boxes.values() if isinstance(b, Box)]
        if self.on_exec:
            self.on_exec(name, k, "middle")
        out = {}
        for n, _ in s["outs"]:
            if n in boxes and n in s.get("passes", []) and isinstance(boxes[n], Box) \
                    and not s.get("keeps"):
                b = boxes[n]
                b.uid = f"{name}#{k}.{n}"
            else:
                b = self.value(f"{name}#{k}.{n}")
            out[n] = b
            rec["outs"][n] = b.snap() if isinstance(b, Box) else (self.value_uid(b), ())
        if self.on_exec:
            self.on_exec(name, k, "end")
        rec["done"] = True
        return self.io[name][1](**out)


# ------------------------------------------------------------------ specifications


def gen_spec(rng: random.Random, *, max_stages=8, errors=0.25, restrictions=0.4,
             mutating=0.45, overwrite=0.35, type_clash=0.0) -> dict:
    """A random set of stages: mostly resolvable, sometimes not."""
    n = rng.randint(2, max_stages)
    nargs = rng.randint(2, 7)
    names = [chr(97 + i) for i in range(nargs)]
    ninit = rng.randint(1, max(1, nargs // 2))
    types = ["T0"] if rng.random() < 0.5 else ["T0", "T1", "T2"]
    typ = {a: rng.choice(types) for a in names}
    init = [[a, typ[a]] for a in names[:ninit]]
    avail = list(names[:ninit])
    fresh = list(names[ninit:])
    use_r = rng.random() < restrictions
    use_m = rng.random() < mutating
    use_w = rng.random() < overwrite
    broken = rng.random() < errors
    stages = []
    extra = 0
    for i in range(n):
        k = rng.randint(0, min(3, len(avail)))
        if k == 0 and rng.random() < 0.7:
            k = 1
        ins = rng.sample(avail, k)
        outs = []
        r = rng.random()
        if use_m and ins and r < 0.35:
            outs.append(rng.choice(ins))
        elif use_w and avail and r < 0.55:
            outs.append(rng.choice(avail))
        if not outs or rng.random() < 0.5:
            if fresh and rng.random() < 0.8:
                outs.append(fresh.pop(0))
            else:
                extra += 1
                a = f"o{extra}"
                typ[a] = rng.choice(types)
                outs.append(a)
        if broken and rng.random() < 0.3:
            pool = names + ["zz"]
            a = rng.choice(pool)
            typ.setdefault(a, "T0")
            if a not in ins:
                ins.append(a)
        outs = list(dict.fromkeys(outs))
        s = {"name": f"S{i}", "ins": [[a, typ[a]] for a in ins],
             "outs": [[a, typ[a]] for a in outs], "before": [], "after": []}
        stages.append(s)
        avail += [a for a in outs if a not in avail]
    if type_clash and rng.random() < type_clash:
        s = rng.choice(stages)
        for o in s["outs"]:
            o[1] = "T9"
    if use_r:
        for _ in range(rng.randint(1, max(1, n // 2))):
            i, j = rng.sample(range(n), 2)
            if not broken or rng.random() < 0.7:
                i, j = min(i, j), max(i, j)
            if rng.random() < 0.5:
                tgt, oth, key = stages[i], stages[j], "before"
            else:
                tgt, oth, key = stages[j], stages[i], "after"
            if oth["name"] not in tgt[key]:
                tgt[key].append(oth["name"])
    if broken and rng.random() < 0.15:
        rng.choice(stages)["after"].append("Gone")  # never part of the pipeline
    return {"stages": stages, "init": init}


def decorate(spec: dict, rng: random.Random, p=0.5) -> dict:
    """Give stages in-place behaviours (what a plugin may do with its inputs)."""
    for s in spec["stages"]:
        ins = [a for a, _ in s["ins"]]
        outs = [a for a, _ in s["outs"]]
        s["mutates"] = [a for a in ins if rng.random() < p]
        s["passes"] = [a for a in ins if a in outs and rng.random() < 0.7]
        s["keeps"] = rng.random() < p / 3
    return spec


_REAL: dict | None = None


def real_pipeline_spec() -> dict:
    """The wiring of the library's own seven stages, as a specification."""
    global _REAL
    if _REAL is None:
        import inspect

        from instancespace import instance_space as m
        from instancespace.instance_space import InstanceSpace

        stages = inspect.signature(InstanceSpace.__init__).parameters["stages"].default

        def fields(nt):
            return [[k, str(v)] for k, v in nt.__annotations__.items()]

        init = None
        for v in vars(m).values():
            if (isinstance(v, type) and issubclass(v, tuple) and hasattr(v, "_fields")
                    and hasattr(v, "from_metadata_and_options")):
                init = fields(v)
        if init is None:
            raise core.HarnessError("cannot find the initial inputs of InstanceSpace")
        _REAL = {"stages": [
            {"name": s.__name__, "ins": fields(s._inputs()), "outs": fields(s._outputs()),
             "before": [], "after": []} for s in stages], "init": init}
    return copy.deepcopy(_REAL)


def gen_real_plus_plugins(rng: random.Random) -> dict:
    """The real pipeline's wiring with zero to three plugin stages added."""
    spec = real_pipeline_spec()
    args = {a: t for s in spec["stages"] for a, t in s["outs"]}
    args.update({a: t for a, t in spec["init"]})
    names = sorted(args)
    for i in range(rng.randint(0, 3)):
        ins = rng.sample(names, rng.randint(1, 3))
        outs = [f"plug{i}"]
        if rng.random() < 0.4:
            outs = [rng.choice(ins)] + (outs if rng.random() < 0.5 else [])
        s = {"name": f"Plugin{i}", "ins": [[a, args[a]] for a in ins],
             "outs": [[a, args.get(a, "T0")] for a in outs], "before": [], "after": []}
        if rng.random() < 0.5:
            other = rng.choice(spec["stages"])["name"]
            if other != s["name"]:
                s[rng.choice(["before", "after"])].append(other)
            elif rng.random() < 0.2:
                s["after"].append("Gone")
        spec["stages"].append(s)
    return spec


def shrink_spec(spec: dict):
    """Smaller specifications: fewer stages, arguments, restrictions, behaviours."""
    names = [s["name"] for s in spec["stages"]]
    for cut in core.shrink_list(names, 1):
        kept = set(cut)
        yield {"init": spec["init"], "stages": [
            {**s, "before": [b for b in s["before"] if b in kept or b not in names],
             "after": [a for a in s["after"] if a in kept or a not in names]}
            for s in spec["stages"] if s["name"] in kept]}
    for i, s in enumerate(spec["stages"]):
        for key in ("before", "after", "ins", "outs", "mutates", "passes"):
            for j in range(len(s.get(key, []))):
                if key == "outs" and len(s["outs"]) == 1:
                    continue
                t = {**s, key: s[key][:j] + s[key][j + 1:]}
                yield {**spec, "stages": [*spec["stages"][:i], t, *spec["stages"][i + 1:]]}
        if s.get("keeps"):
            t = {**s, "keeps": False}
            yield {**spec, "stages": [*spec["stages"][:i], t, *spec["stages"][i + 1:]]}
    if len(spec["init"]) > 1:
        for i in range(len(spec["init"])):
            yield {**spec, "init": spec["init"][:i] + spec["init"][i + 1:]}
