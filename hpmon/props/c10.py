"""C10: hypersearch tries every strategy once, keeps the best, names its strategy."""
import itertools

from .. import gen as G
from .. import oracle, runs
from ..env import hp

CASES = {"quick": 9000, "thorough": 200000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "single worker hypersearches over given strategy lists and over the default set; every local "
    "search's strategy and result recorded and compared with the final result, which is rebuilt "
    "from the reported best strategy; non-trivial: at least two different local search results"
)
REQUIRED = {"local_searches": 30000, "complete_searches": 2000, "stopped_at_maximum": 300,
            "rebuilt_from_best_strategy": 2000, "default_sets_searched": 20,
            "strategy_sets_checked": 200, "improved_over_initial": 500, "strip_searches": 500,
            "brief_searches": 2000}
ASSUMPTIONS = ["workloads end long before the 60 s default time limit"]
FREE = {"A", "B", "C", "D", "A_", "B_"}


def gen(rng, tier):
    case = G.problem(rng, rng.choice(["tiny", "small", "small"]))
    case["run"] = "hyper"
    case["strategy"] = G.strategy(rng, rng.choice(["default", "default", "perm"]))
    if rng.random() < 0.012:
        case["strategies"] = None
        del case["items"][rng.randint(2, 6) :]
    else:
        del case["items"][rng.randint(3, 9) :]
        suf = "suffix2" if case["mode"] == "strip" else "suffix"
        kinds = [suf, suf, "perm"] + (["subset"] if rng.random() < 0.1 else [])
        case["strategies"] = []
        for _ in range(rng.randint(1, 8)):
            s = G.strategy(rng, rng.choice(kinds))
            if s not in case["strategies"]:
                case["strategies"].append(s)
        if rng.random() < 0.3:
            # the instance's own strategy is one of them
            own = case["strategy"] or rng.choice(case["strategies"])
            case["strategy"] = own
            if own not in case["strategies"]:
                case["strategies"].insert(rng.randint(0, len(case["strategies"])), own)
    if rng.random() < 0.02:
        many(case, rng.choice([30, 45, 71, 100, 150]))
    case["presort"] = [
        rng.choice(["wide", "long", None]),
        rng.choice([None, ["area", True], ["area", False], ["perimeter", True],
                    ["longest_side_ratio", False]]),
    ]
    return case


def many(case, n):
    """
    Adds items that fit nowhere (or hardly); each local search is cut to its construction.
    """
    case["brief"] = True
    top = 1 + max([case["W"]] if case["mode"] == "strip" else
                  [max(c[1], c[2]) for c in case["containers"]])
    if case["mode"] == "strip":
        case["items"] = case["items"] + [[f"many{k}", 1, 1] for k in range(n)]
    else:
        case["items"] = case["items"] + [[f"many{k}", top, top] for k in range(n)]


def corpus(tier):
    for n in (45, 101):
        case = {"mode": "bin", "containers": [["c", 7, 6]], "run": "hyper", "strategy": None,
                "items": [["a", 3, 2], ["b", 2, 5], ["d", 4, 4], ["e", 1, 3]], "rotation": None,
                "strategies": None, "presort": ["wide", None]}
        many(case, n)
        yield case
        yield dict(case, presort=[None, ["area", True]], containers=[["c", 5, 5], ["d", 6, 3]])


def shrink(case):
    yield from runs.shrink(case)


def check_set(p, mon):
    """The default strategy set of the instance's mode."""
    mon.ev("strategy_sets_checked")
    got = [tuple(s) for s in p.get_strategies()]
    strip = p.container_height is not None
    suffix = ("B__", "A__", "F", "E") if strip else ("A__", "B__", "F", "E")
    want = {h + suffix for h in itertools.permutations(sorted(FREE))}
    if len(got) != 720 or set(got) != want:
        mon.bad(
            "strategy_set",
            f"{len(got)} strategies, {len(set(got))} distinct, "
            f"{len(want - set(got))} of the 720 missing, e.g. {sorted(set(got) - want)[:1]}",
        )


def check(case, mon):
    hyperpack = hp()
    rec = []

    class Traced(hyperpack.HyperPack):
        def local_search(self, **kw):
            h = self.container_height
            if case.get("brief"):
                self.solve()
                mon.ev("brief_searches")
            else:
                super().local_search(**kw)
            rec.append(
                (
                    tuple(self.potential_points_strategy),
                    self.calculate_obj_value(),
                    oracle.plain_solution(self),
                    dict(self.obj_val_per_container),
                    h,
                )
            )

    p = G.build(case, Traced)
    own = p.potential_points_strategy
    if case["strategies"] is not None:
        runs.fix_strategies(p, case["strategies"])
        strategies = [tuple(s) for s in case["strategies"]]
        if len(rec) % 7 == 0 and len(case["items"]) % 4 == 0:
            check_set(G.build(case), mon)
    else:
        check_set(p, mon)
        strategies = [tuple(s) for s in p.get_strategies()]
        mon.ev("default_sets_searched")
    o, s = case["presort"]
    p.hypersearch(orientation=o, sorting_by=tuple(s) if s else None)
    final, fvals = oracle.plain_solution(p), dict(p.obj_val_per_container)
    fobj = p.calculate_obj_value()
    mon.ev("local_searches", len(rec))
    strip = case["mode"] == "strip"
    if p.potential_points_strategy != own:
        mon.bad("own_strategy_changed", f"{own} became {p.potential_points_strategy}")
    k = 1 if strip else len(case["containers"])
    maximum = (1 if k == 1 else k - 1 + 0.7) - 2e-9
    # the plain construction the search starts from
    q = G.build(case)
    q.items = {i: {"w": p.items[i]["w"], "l": p.items[i]["l"]} for i in p.items}
    q.solve()
    init, init_sol = q.calculate_obj_value(), oracle.plain_solution(q)
    n = len(case["items"])
    placed = lambda sol: sum(map(len, sol.values()))  # noqa: E731
    reached = fobj >= maximum
    used = [r[0] for r in rec]
    if len(set(used)) != len(used):
        mon.bad("strategy_repeated", f"{len(used)} local searches, {len(set(used))} strategies")
    if not set(used) <= set(strategies):
        mon.bad("foreign_strategy", f"{set(used) - set(strategies)}")
    if reached:
        mon.ev("stopped_at_maximum")
    else:
        mon.ev("complete_searches")
        if set(used) != set(strategies):
            mon.bad(
                "strategy_skipped",
                f"{len(set(strategies) - set(used))} of {len(strategies)} strategies not searched, "
                f"objective {fobj}",
            )
    # the best of everything
    if not strip:
        best = max([init] + [r[1] for r in rec])
        if fobj < best - 1e-9:
            mon.bad("not_the_best", f"returned {fobj}, best found {best} (initial {init})")
    elif case.get("min_height") is None:
        mon.ev("strip_searches")
        full = [r[1] for r in rec if placed(r[2]) == n]
        if placed(init_sol) == n:
            full.append(init)
            if full and fobj < max(full) - 1e-9:
                mon.bad("not_the_best", f"returned {fobj}, best found {max(full)}")
        elif fobj < min([init] + full) - 1e-9:
            mon.bad("not_the_best", f"returned {fobj}, initial {init}, found {full}")
    snaps = [r[2] for r in rec] + [init_sol]
    if final not in snaps:
        mon.bad("unknown_result", "the final solution is of no local search, nor the initial one")
    per, tot = oracle.objective(case["mode"], final, oracle.dims_of(p))
    if set(per) != set(fvals) or any(not oracle.close(per[c], fvals[c]) for c in per):
        mon.bad("values_of_other_solution", f"{fvals} for {final}")
    # the named strategy
    bs = tuple(p.best_strategy) if p.best_strategy is not None else None
    hits = [r for r in rec if r[0] == bs]
    if fobj > init + 1e-9:
        mon.ev("improved_over_initial")
        if bs not in strategies:
            mon.bad("best_strategy", f"{bs} is none of the strategies")
        elif not any(r[2] == final for r in hits):
            mon.bad("best_strategy", f"{bs} did not produce the returned solution")
    if not strip and bs is not None:
        t = G.build(case)
        t.items = {i: {"w": p.items[i]["w"], "l": p.items[i]["l"]} for i in p.items}
        t.potential_points_strategy = bs
        t.solve()
        if oracle.plain_solution(t) != final:
            if not case.get("brief"):
                t.local_search()
            if oracle.plain_solution(t) != final:
                mon.bad(
                    "best_strategy_does_not_rebuild",
                    f"{bs}: a local search from it gives {t.calculate_obj_value()}, not {fobj}",
                )
        mon.ev("rebuilt_from_best_strategy")
    if len({round(r[1], 9) for r in rec}) > 1:
        mon.sig(final, used)
