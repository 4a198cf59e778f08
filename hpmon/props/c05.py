"""C05: nothing that visibly still fits is left out (greedy completeness)."""
from .. import gen as G
from .. import oracle, runs

CASES = {"quick": 160000, "thorough": 3000000}
CAP = {"quick": 120, "thorough": 700}
RULE = (
    "same workload family as C01 with full strategies only; for each container, every item left "
    "for later is tried at the empty container's corner, directly above the upper left corner and "
    "directly right of the lower right corner of each placed item; non-trivial: some item was left"
)
REQUIRED = {"left_items": 3000, "corner_tries": 30000, "run_local_bin": 50,
            "run_hyper_bin": 5, "run_mp_bin": 2, "strip_left_items": 30}


def gen(rng, tier):
    case = runs.gen_run(rng)
    if not G.is_full(case.get("strategy")):
        case["strategy"] = G.strategy(rng, "perm")
    return case


def shrink(case):
    return (c for c in runs.shrink(case) if G.is_full(c.get("strategy")))


def check(case, mon):
    rot = case.get("rotation") is not False

    def on(o):
        p = o.p
        strip = case["mode"] == "strip"
        if strip and o.kind == "final" and o.run not in ("solve", "seq", "pointgen"):
            return
        left = dict.fromkeys(o.sequence if o.sequence is not None else p.items)
        mon.ev("solutions_checked")
        for c, placed in o.solution.items():
            W, L = p.containers[c]["W"], p.containers[c]["L"]
            if strip:
                L = o.height
            for i in placed:
                left.pop(i, None)
            rects = list(placed.values())
            if not rects:
                spots = [(0, 0)]
            else:
                spots = [(x, y + l) for x, y, w, l in rects] + [(x + w, y) for x, y, w, l in rects]
            spots = [
                s for s in spots if s[0] < W and s[1] < L and oracle.fits(W, L, rects, *s, 1, 1)
            ]
            tried = set()
            for i in left:
                mon.ev("strip_left_items" if strip else "left_items")
                w, l = p.items[i]["w"], p.items[i]["l"]
                for d in ((w, l), (l, w)) if rot else ((w, l),):
                    if d in tried:
                        continue
                    tried.add(d)
                    for s in spots:
                        mon.ev("corner_tries")
                        if oracle.fits(W, L, rects, *s, *d):
                            mon.bad(
                                "left_out_but_fits",
                                f"{o.kind} of {o.run}: {i!r} {d} fits at {s} of {c!r} {W}x{L} "
                                f"holding {placed}",
                            )
                            return
            if left and o.kind == "final":
                mon.sig(sorted(left), sorted(placed.items()), W, L)

    runs.execute(case, on, mon)
