"""C02: a solution conserves the items: each at most once, its own dimensions."""
from .. import oracle, runs

CASES = {"quick": 250000, "thorough": 3000000}
CAP = {"quick": 120, "thorough": 700}
RULE = (
    "same workload family as C01 (own random stream), plus partial sequences; every solution "
    "compared with the items given; non-trivial: at least two items placed"
)
REQUIRED = {"entries_checked": 20000, "run_local_bin": 50, "run_hyper_bin": 5, "run_mp_bin": 2,
            "run_seq_bin": 50, "multi_container_solutions": 500}
gen = lambda rng, tier: runs.gen_run(rng)  # noqa: E731
shrink = runs.shrink


def check(case, mon):
    given = {i: (w, l) for i, w, l in case["items"]}

    def on(o):
        p = o.p
        mon.ev("solutions_checked")
        sol = o.solution
        mon.check(
            list(sol) == list(p.containers) and set(sol) == set(o.vals),
            "containers",
            lambda: f"{o.kind} of {o.run}: solution of {list(sol)}, containers {list(p.containers)}, "
            f"values of {list(o.vals)}",
        )
        mon.check(
            set(p.items) == set(given),
            "items_changed",
            lambda: f"{o.kind} of {o.run}: items now {sorted(p.items)}",
        )
        allowed = set(o.sequence) if o.sequence is not None else set(given)
        seen = {}
        for c, placed in sol.items():
            for i, e in placed.items():
                mon.ev("entries_checked")
                if i in seen:
                    mon.bad("placed_twice", f"{o.kind} of {o.run}: {i!r} in {seen[i]!r} and {c!r}")
                seen[i] = c
                if i not in allowed:
                    mon.bad("foreign_item", f"{o.kind} of {o.run}: {i!r} was not to be placed")
                    continue
                if not oracle.well_formed(e):
                    mon.bad("malformed", f"{o.kind} of {o.run}: {i!r} -> {e!r}")
                    continue
                w, l = given[i]
                if (e[2], e[3]) not in ((w, l), (l, w)):
                    mon.bad(
                        "dimensions", f"{o.kind} of {o.run}: {i!r} is {w}x{l} but placed {e!r}"
                    )
        if len(sol) > 1:
            mon.ev("multi_container_solutions")
        if o.kind == "final" and len(seen) > 1:
            mon.sig(sorted(seen.items()), sorted(given.items()))
        mon.ev("items_left_out", len(allowed) - len(seen))

    runs.execute(case, on, mon)
