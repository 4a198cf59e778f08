"""C01: placed items lie inside their container and never overlap."""
from .. import oracle, runs

CASES = {"quick": 220000, "thorough": 3000000}
CAP = {"quick": 120, "thorough": 700}
RULE = (
    "random bin and strip problems (tiny to large, thin/equal/guillotine/oversized items, 1-4 "
    "containers, any strategy) solved, locally searched and hypersearched (1..3 workers); "
    "non-trivial: at least two items placed in one container"
)
REQUIRED = {"solutions_checked": 5000, "pairs_in_one_container": 20000, "run_local_bin": 50,
            "run_hyper_bin": 5, "run_mp_bin": 2, "run_local_strip": 20}
ASSUMPTIONS = [
    "strip height limit judged as the height in force when a construction starts, "
    "and the height at the start of the search for the final result",
]
gen = lambda rng, tier: runs.gen_run(rng)  # noqa: E731
shrink = runs.shrink


def check(case, mon):
    def on(o):
        p = o.p
        mon.ev("solutions_checked")
        strip = case["mode"] == "strip"
        for c, placed in o.solution.items():
            W, L = p.containers[c]["W"], p.containers[c]["L"]
            if strip:
                L = min(L, o.height)
            rects = list(placed.items())
            for i, (x, y, w, l) in rects:
                if x < 0 or y < 0 or w < 1 or l < 1 or x + w > W or y + l > L:
                    mon.bad(
                        f"out_of_bounds_{case['mode']}",
                        f"{o.kind} of {o.run}: item {i!r} at {[x, y, w, l]} outside {c!r} {W}x{L}",
                    )
            pair = oracle.first_overlap(rects)
            if pair:
                mon.bad(
                    "overlap",
                    f"{o.kind} of {o.run}: {pair} overlap in {c!r}: "
                    f"{placed[pair[0]]} {placed[pair[1]]}",
                )
            n = len(rects)
            mon.ev("pairs_in_one_container", n * (n - 1) // 2)
            if n > 1 and o.kind == "final":
                mon.sig(sorted(e for _, e in rects), W, L)

    runs.execute(case, on, mon)
