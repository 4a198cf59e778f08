"""C07: a construction equals the point generation heuristic, step by step."""
from .. import gen as G
from .. import model, runs
from ..env import hp

CASES = {"quick": 400000, "thorough": 3000000}
CAP = {"quick": 120, "thorough": 700}
RULE = (
    "random bin and strip problems, strategies over all orders and subsets of the classes, full "
    "and partial sequences; the whole placement compared with a rectangle-based reference model; "
    "non-trivial: at least 3 items placed, signature is the placement"
)
REQUIRED = {f"placed_at_{c}": n for c, n in
            {"O": 3000, "A": 3000, "B": 3000, "A_": 150, "B_": 150, "A__": 300, "B__": 300,
             "C": 50, "D": 50, "E": 50, "F": 50}.items()}
REQUIRED["placements_compared"] = 50000
ASSUMPTIONS = [
    "the reference model states the point classes' rules as published and as the existing point "
    "tests pin them; it shares no code with the implementation",
]


def gen(rng, tier):
    w = {"solve": 60, "seq": 30, "pointgen": 10}
    case = runs.gen_run(rng, w, rng.choices(["tiny", "small", "mid", "large"], [22, 58, 17, 3])[0])
    case["strategy"] = G.strategy(
        rng, rng.choice(["default", "perm", "perm", "perm", "suffix", "suffix2", "subset", "subset"])
    )
    return case


shrink = runs.shrink


def check(case, mon):
    def on(o):
        if o.kind != "final":
            return
        p = o.p
        dims = {i: (w, l) for i, w, l in case["items"]}
        seq = list(dict.fromkeys(o.sequence)) if o.sequence is not None else list(dims)
        strategy = case["strategy"]
        if strategy is None:
            strategy = hp().HyperPack.DEFAULT_POTENTIAL_POINTS_STRATEGY
        strip = case["mode"] == "strip"
        conts = [
            (c, p.containers[c]["W"], o.height if strip else p.containers[c]["L"])
            for c in p.containers
        ]
        want, used = model.solve(
            conts, [(i, *dims[i]) for i in seq], strategy, case.get("rotation") is not False
        )
        got = {c: {i: list(e) for i, e in s.items()} for c, s in o.solution.items()}
        n = sum(map(len, want.values()))
        mon.ev("placements_compared", n)
        for c, k in used.items():
            mon.ev(f"placed_at_{c}", k)
        if got != want:
            c = next((c for c in want if got.get(c) != want[c]), None)
            i = next(
                (i for i in want[c] if got.get(c, {}).get(i) != want[c][i]), None
            ) if c is not None else None
            mon.bad(
                "differs",
                f"container {c!r}: first difference at item {i!r} "
                f"(strategy {strategy}): expected {want.get(c)} got {got.get(c)}",
            )
        if n > 2:
            mon.sig(got, strategy)

    runs.execute(case, on, mon)
