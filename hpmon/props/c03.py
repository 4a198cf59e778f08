"""C03: an item is turned by 90 degrees only when allowed and only when needed."""
from .. import oracle, runs

CASES = {"quick": 220000, "thorough": 3000000}
CAP = {"quick": 120, "thorough": 700}
RULE = (
    "same workload family as C01 (own random stream); every turned item of every construction is "
    "checked against the rotation setting and against an upright placement at its spot; "
    "non-trivial: a solution with a turned item, or rotation off with an item that only fits turned"
)
REQUIRED = {"turned_items": 1000, "items_with_rotation_off": 3000, "run_local_bin": 50, "subclass_defaults": 1000, "subclass_defaults_with_workers": 20,
            "upright_items_with_rotation_on": 3000}
ASSUMPTIONS = [
    "an upright placement that hits a wall or any other item of the final container state is "
    "accepted as not fitting (placement order is not observed here; C07 decides it exactly)",
]


def gen(rng, tier):
    case = runs.gen_run(rng)
    if case.get("rotation") is None and rng.random() < (0.5 if case["run"] == "mp" else 0.15):
        # the default of a subclass
        case["class_default"] = rng.random() < 0.3
    return case


shrink = runs.shrink


def check(case, mon):
    allowed = case.get("rotation") is not False
    if "class_default" in case:
        mon.ev("subclass_defaults")
        if case["run"] == "mp":
            mon.ev("subclass_defaults_with_workers")
        if case.get("rotation") is None:
            allowed = case["class_default"]

    def on(o):
        p = o.p
        strip = case["mode"] == "strip"
        for c, placed in o.solution.items():
            W, L = p.containers[c]["W"], p.containers[c]["L"]
            if strip:
                L = o.height
            for i, (x, y, w, l) in placed.items():
                w0, l0 = p.items[i]["w"], p.items[i]["l"]
                if not allowed:
                    mon.ev("items_with_rotation_off")
                    if (w, l) != (w0, l0):
                        mon.bad(
                            "turned_though_disabled",
                            f"{o.kind} of {o.run}: {i!r} {w0}x{l0} placed {w}x{l}",
                        )
                    continue
                if (w, l) == (w0, l0):
                    mon.ev("upright_items_with_rotation_on")
                    continue
                mon.ev("turned_items")
                if strip and o.kind == "final":
                    continue  # the height in force at its construction is not known here
                others = [e for j, e in placed.items() if j != i]
                if oracle.fits(W, L, others, x, y, w0, l0):
                    mon.bad(
                        "turned_needlessly",
                        f"{o.kind} of {o.run}: {i!r} {w0}x{l0} turned at {x, y} of {c!r} {W}x{L}",
                    )
                mon.sig(sorted(placed.items()), W, L)

    runs.execute(case, on, mon)
