"""C14: strip searches never lose items nor get higher."""
from .. import gen as G
from .. import oracle, runs
from ..env import hp

CASES = {"quick": 14000, "thorough": 350000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "strip problems (tight and roomy heights) searched locally, over strategies with one worker "
    "and with 2-3 workers, against the plain construction they start from; non-trivial: the "
    "start holds all items and the search improved the height"
)
REQUIRED = {"complete_starts": 5000, "local": 3000, "hyper": 1000, "mp": 100, "got_lower": 500,
            "partial_constructions_seen": 2000}
ASSUMPTIONS = ["no minimum height set (with one, leaving out items is documented)"]


def gen(rng, tier):
    run = rng.choices(["local", "hyper", "mp"], [52, 36, 12])[0]
    case = G.strip_problem(rng, rng.choice(["tiny", "small", "small"]), min_height=False)
    del case["items"][rng.randint(3, 8) :]
    W = case["W"]
    if rng.random() < 0.8:
        case["items"] = [
            [i, min(w, W), min(l, 9 * W)] for i, w, l in case["items"]
        ]
    case["run"] = run
    case["strategy"] = G.strategy(rng)
    case["strategies"] = [G.strategy(rng, rng.choice(["suffix2", "suffix2", "perm"]))
                          for _ in range(rng.choice([1, 3, 5, 12]))]
    case["presort"] = [
        rng.choice(["wide", "long", None]),
        rng.choice([None, ["area", True], ["area", False], ["perimeter", True]]),
    ]
    if rng.random() < 0.3:
        # the start height itself, ten widths, is tight
        case["W"] = W = rng.randint(1, 4)
        case["rotation"] = rng.random() < 0.2
        case["items"] = [
            [i, rng.randint(1, W), rng.randint(1, 9 * W)] for i, _, _ in case["items"][:6]
        ]
        case["height"] = None
    # a height that just holds some simple packing
    elif rng.random() < 0.6:
        case["height"] = max(1, sum(min(w, l) for _, w, l in case["items"]) - rng.randint(0, 3))
    if run == "mp":
        case["workers"] = rng.randint(2, 3)
    return case


shrink = runs.shrink


def check(case, mon):
    hyperpack = hp()
    n = len(case["items"])
    o, s = case["presort"]
    start = G.build(case)
    if case["run"] != "local":
        start.sort_items(tuple(s) if s else None)
        start.orient_items(o)
    start.solve()
    cid = list(start.containers)[0]
    sol0 = start.solution[cid]
    seen = []

    class Traced(hyperpack.HyperPack):
        def solve(self, sequence=None, debug=False):
            super().solve(sequence=sequence, debug=debug)
            seen.append(len(self.solution[cid]))

    p = G.build(case, Traced)
    if case["run"] == "local":
        p.local_search()
    else:
        runs.fix_strategies(p, case["strategies"])
        p.hypersearch(orientation=o, sorting_by=tuple(s) if s else None)
    mon.ev("partial_constructions_seen", sum(k < n for k in seen))
    if len(sol0) < n:
        mon.ev("partial_starts")
        return
    mon.ev("complete_starts")
    mon.ev(case["run"])
    final = p.solution[cid]
    h0, h1 = oracle.used_height(sol0), oracle.used_height(final)
    if len(final) < n:
        mon.bad(
            f"items_lost_{case['run']}",
            f"the construction holds {n} items (height {h0}), the search's result {len(final)}",
        )
    elif h1 > h0:
        mon.bad(f"higher_{case['run']}", f"height {h0} before, {h1} after the search")
    if h1 < h0:
        mon.ev("got_lower")
        mon.sig(sorted(final.items()), case["W"])
