"""
Drives one solving operation of the real code and reports every solution the
instance exposes: after each construction (public ``solve``) and at the end.
"""
import random

from . import gen
from .env import hp


class Obs:
    """A solution as observable through the instance at one moment."""

    __slots__ = ("p", "kind", "height", "sequence", "run", "solution", "vals")

    def __init__(self, p, kind, height, sequence, run):
        self.p = p
        self.kind = kind  # "construction" (a solve call inside the run) or "final"
        self.height = height  # strip: height limit in force (None for bins)
        self.sequence = sequence
        self.run = run
        self.solution = p.solution
        self.vals = p.obj_val_per_container


LIMITED = ["small", "mid", "mid", "large"]


def gen_run(rng, weights=None, size=None):
    """A problem case plus the operation to run on it."""
    w = weights or {"solve": 50, "seq": 15, "pointgen": 8, "local": 20, "hyper": 5, "mp": 2}
    run = rng.choices(list(w), list(w.values()))[0]
    if run in ("solve", "seq", "pointgen"):
        size = size or rng.choices(["tiny", "small", "mid", "large"], [20, 50, 22, 8])[0]
        if rng.random() < 0.01:
            case = gen.benchmark(rng)
        else:
            case = gen.problem(rng, size)
        case["strategy"] = gen.strategy(
            rng, rng.choice(["default", "perm", "perm", "suffix", "suffix2", "subset"])
        )
    elif run == "local":
        limited = rng.random() < 0.08
        case = gen.problem(rng, rng.choice(LIMITED if limited else ["tiny", "tiny", "small"]))
        if limited:
            case["limit"] = rng.choice([1, 2, 3, 5, 8])
        else:
            del case["items"][9:]
        case["strategy"] = gen.strategy(rng)
    else:
        limited = run == "hyper" and rng.random() < 0.15
        case = gen.problem(rng, rng.choice(LIMITED) if limited else "tiny")
        if limited:
            case["limit"] = rng.choice([1, 2, 3])
        case["strategy"] = gen.strategy(rng)
        case["strategies"] = [
            gen.strategy(rng, "suffix2" if case["mode"] == "strip" else "suffix")
            for _ in range(rng.randint(1, 4))
        ]
        case["presort"] = [
            rng.choice(["wide", "long", None]),
            rng.choice([None, ["area", True], ["perimeter", False], ["longest_side_ratio", True]]),
        ]
        if run == "mp":
            case["workers"] = rng.randint(2, 3)
    case["run"] = run
    if run in ("solve", "seq", "pointgen", "local") and rng.random() < 0.05:
        case["debug"] = True
    if rng.random() < 0.2:
        case["via"] = gen.gen_via(rng, case)
    if run == "seq":
        ids = [i[0] for i in case["items"]]
        rng.shuffle(ids)
        if rng.random() < 0.3:
            ids = ids[: rng.randint(1, len(ids))]
        elif rng.random() < 0.05:
            ids = []
        if ids and rng.random() < 0.06:
            # repeated ids: an item has one place, the first one
            for _ in range(rng.randint(1, 3)):
                ids.insert(rng.randint(0, len(ids)), rng.choice(ids))
        case["sequence"] = ids
    return case


def traced(case, on):
    h = hp()
    base = h.PointGenPack if case["run"] == "pointgen" else h.HyperPack

    class Traced(base):
        def solve(self, sequence=None, debug=False):
            height = self.container_height
            super().solve(sequence=sequence, debug=debug)
            on(Obs(self, "construction", height, sequence, case["run"]))

    if "class_default" in case:
        Traced.ROTATION_DEFAULT_VALUE = case["class_default"]
    return Traced


def fix_strategies(p, strategies):
    p.get_strategies = lambda **k: [tuple(s) for s in strategies]


def execute(case, on, mon, cls=None, **extra):
    """Runs the operation; on(obs) sees every observable solution; extra: further settings. Returns the instance."""
    live = []

    def gate(obs):
        if live:
            on(obs)

    p = gen.build_via(case, cls or traced(case, gate), **extra)
    live.append(True)
    if case.get("via"):
        mon.ev("reached_by_edits")
    start = p.container_height
    run = case["run"]
    seq = None
    kw = {}
    if case.get("debug"):
        kw["debug"] = True
        mon.ev("debug_runs")
    if run in ("solve", "pointgen"):
        p.solve(**kw)
    elif run == "seq":
        seq = case.get("sequence")
        if seq is not None and not seq:
            mon.ev("empty_sequences")
        if seq and len(set(seq)) < len(seq):
            mon.ev("repeated_ids")
        p.solve(sequence=seq, **kw)
    elif run == "local":
        p.local_search(**kw)
    else:
        fix_strategies(p, case["strategies"])
        orientation, sorting = case["presort"]
        p.hypersearch(orientation=orientation, sorting_by=tuple(sorting) if sorting else None)
    mon.ev(f"run_{run}_{case['mode']}")
    on(Obs(p, "final", start, seq, run))
    return p


def shrink(case):
    if case.get("limit") is not None and len(case["items"]) < 8:
        yield {k: v for k, v in case.items() if k != "limit"}
    if case.get("debug"):
        yield {k: v for k, v in case.items() if k != "debug"}
    for c in gen.shrink_problem(case):
        yield c
    if case.get("strategies") and len(case["strategies"]) > 1:
        for i in range(len(case["strategies"])):
            c = dict(case)
            c["strategies"] = case["strategies"][:i] + case["strategies"][i + 1 :]
            yield c
