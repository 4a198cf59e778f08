"""C04: reported utilizations and the objective equal what the placements give."""
from .. import oracle, runs
from ..env import hp

CASES = {"quick": 250000, "thorough": 3000000}
CAP = {"quick": 120, "thorough": 700}
RULE = (
    "same workload family as C01 (own random stream); utilization per container and the total "
    "objective recomputed from the placements; non-trivial: some container partly filled"
)
REQUIRED = {"values_checked": 10000, "objectives_checked": 5000, "run_local_bin": 50,
            "run_hyper_bin": 5, "run_mp_bin": 2, "strip_values": 1000, "full_containers": 100,
            "multi_container_objectives": 500}
gen = lambda rng, tier: runs.gen_run(rng)  # noqa: E731
shrink = runs.shrink


def check(case, mon):
    hyperpack = hp()

    def on(o):
        p = o.p
        dims = oracle.dims_of(p)
        per, tot = oracle.objective(case["mode"], o.solution, dims)
        for c, v in per.items():
            mon.ev("values_checked")
            got = o.vals.get(c)
            if case["mode"] == "strip":
                mon.ev("strip_values")
            if got is None or not oracle.close(got, v):
                mon.bad(
                    f"utilization_{case['mode']}",
                    f"{o.kind} of {o.run}: {c!r} reported {got} but the placements give {v}",
                )
            elif not -1e-9 <= got <= 1 + 1e-9:
                mon.bad("utilization_range", f"{o.kind} of {o.run}: {c!r} reported {got}")
            if abs(v - 1) < 1e-9:
                mon.ev("full_containers")
            elif v > 0 and o.kind == "final":
                mon.sig(sorted(o.solution[c].items()), dims[c])
        if isinstance(p, hyperpack.HyperPack):
            mon.ev("objectives_checked")
            if len(dims) > 1:
                mon.ev("multi_container_objectives")
            got = p.calculate_obj_value()
            if not oracle.close(got, tot):
                mon.bad(
                    "objective",
                    f"{o.kind} of {o.run}: objective {got} but the placements give {tot}",
                )

    runs.execute(case, on, mon)
