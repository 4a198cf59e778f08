"""C09: searches stop soon after the time limit and never before it, on a virtual clock."""
import json
import os
import tempfile

from .. import vclock

vclock.install()

from .. import gen as G  # noqa: E402
from .. import oracle, runs  # noqa: E402
from ..env import hp  # noqa: E402

CASES = {"quick": 4500, "thorough": 120000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "searches of random problems on a virtual clock that only advances with constructions (and "
    "with preparing the strategies), so that the limit passes at a chosen construction, with 1-3 "
    "workers; compared with the same search on a stopped clock; non-trivial: the limit cut a search"
)
REQUIRED = {"cut_local": 200, "cut_hyper": 200, "cut_mp": 20, "uncut": 200, "second_searches": 100,
            "class_limits": 500, "class_limits_with_workers": 40, "late_uncut": 100, "all_strategies": 20,
            "second_local_after_hyper": 60, "second_hyper_after_local": 60,
            "clock_reads": 10000}
ASSUMPTIONS = [
    "time reaches hyperpack only through the functions of the time module",
    "a handful of constructions is taken as 6 per worker",
]
SLACK = 6


def gen(rng, tier):
    run = rng.choices(["local", "hyper", "mp"], [5, 5, 1])[0]
    case = G.problem(rng, rng.choice(["tiny", "small"]), rotation=None)
    case["rotation"] = rng.choice([None, False])
    # bigger neighbourhoods for some of the local searches
    del case["items"][12 if run == "local" and rng.random() < 0.5 else 8 :]
    case["run"] = run
    case["strategy"] = G.strategy(rng, "perm") if rng.random() < 0.3 else None
    suf = "suffix2" if case["mode"] == "strip" else "suffix"
    case["strategies"] = [G.strategy(rng, suf) for _ in range(rng.randint(1, 10))]
    case["max_time"] = rng.choice([1, 1, 2, 5, 60, 300])
    case["at"] = rng.choice([0, 0, 1, 2, 3, rng.randint(0, 40), rng.randint(0, 200), 10**6])
    case["how"] = rng.choice(["even", "jump", "jump", "late"])
    case["late"] = rng.choice([0.9, 0.99, 0.9999])
    case["over"] = rng.choice([0, 0.001, 0.5, 1, 100])
    case["prep"] = rng.choice([0, 0, 0, 0.3, 2]) if run != "local" else 0
    case["before"] = rng.choice([0, 0, 1e3, 1e7])
    case["second"] = rng.choice([None, None, None, "same", "local", "hyper"])
    case["presort"] = [rng.choice(["wide", None]), rng.choice([None, ["area", True]])]
    case["by_class"] = rng.random() < 0.25
    if run == "hyper" and rng.random() < 0.02:
        # all there are
        case.update(strategies=None, second=None, max_time=rng.choice([1, 1, 2]),
                    at=rng.choice([0, 3, rng.randint(0, 300), 10**6]))
        del case["items"][2:]
    if run == "mp":
        case["workers"] = rng.randint(2, 3)
    return case


def shrink(case):
    for k, v in (("second", None), ("before", 0), ("prep", 0), ("by_class", False)):
        if case[k] != v:
            yield dict(case, **{k: v})
    yield from runs.shrink(case)


def operations(case):
    """The searches run one after another on the instance."""
    second = case["second"]
    if second is None:
        return [case["run"]]
    if second == "hyper" and case["run"] == "mp":
        second = "mp"
    return [case["run"], case["run"] if second == "same" else second]


def costs(case):
    """Virtual seconds of the k-th construction of a process."""
    T, at = case["max_time"], case["at"]
    if case["how"] == "even":
        d = T / (at + 0.5)
        return lambda k: d
    if case["how"] == "late":
        # most of the time is gone early, the limit isn't reached
        return lambda k: case["late"] * T if k == at else 0.0
    return lambda k: (T + case["over"]) if k == at else 0.0


class Log:
    """Per process append-only log of constructions."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="c09-", dir=os.environ.get("HPMON_TMP"))
        self.pid = None

    def add(self, entry):
        if self.pid != os.getpid():
            self.pid = os.getpid()
            self.fd = os.open(
                os.path.join(self.dir, f"{self.pid}.log"), os.O_CREAT | os.O_APPEND | os.O_WRONLY
            )
        os.write(self.fd, (json.dumps(entry) + "\n").encode())

    def close(self):
        if self.pid is not None:
            os.close(self.fd)
        out = {}
        for f in os.listdir(self.dir):
            path = os.path.join(self.dir, f)
            with open(path) as fh:
                out[int(f[:-4])] = [json.loads(x) for x in fh]
            os.unlink(path)
        os.rmdir(self.dir)
        return out


def one(case, timed):
    """Runs the search; returns ({pid: constructions}, instance, clock value at its start)."""
    hyperpack = hp()
    HP = hyperpack.HyperPack
    Clock = vclock.Clock
    Clock.on, Clock.now, Clock.reads = True, case["before"], 0
    cost = costs(case) if timed else (lambda k: 0.0)
    state = {"pid": None, "k": 0, "log": None}
    orig = HP.solve

    def solve(self, sequence=None, debug=False):
        if state["pid"] != os.getpid():
            state["pid"], state["k"] = os.getpid(), 0
        started = Clock.now
        orig(self, sequence=sequence, debug=debug)
        Clock.now += cost(state["k"])
        state["k"] += 1
        state["log"].add(
            [
                started,
                list(self.potential_points_strategy),
                None if sequence is None else list(sequence),
                self.calculate_obj_value(),
                sum(map(len, self.solution.values())),
            ]
        )

    def strategies(**k):
        Clock.now += case["prep"] if timed else 0
        return [tuple(s) for s in case["strategies"]]

    HP.solve = solve
    try:
        p = G.build(case)
        if case["strategies"] is not None:
            p.get_strategies = strategies
        rounds = []
        for r, run in enumerate(operations(case)):
            if r:
                Clock.now += 5000 if timed else 0
                p.reset_container_height()
                if case.get("height"):
                    p.container_height = case["height"]
                if case.get("min_height"):
                    p.container_min_height = case["min_height"]
            t0 = Clock.now
            state.update(pid=None, k=0, log=Log())
            if run == "local":
                p.local_search()
            else:
                o, s = case["presort"]
                p.hypersearch(orientation=o, sorting_by=tuple(s) if s else None)
            rounds.append((state["log"].close(), t0, oracle.plain_solution(p),
                           p.calculate_obj_value(), Clock.now))
        return p, rounds
    finally:
        HP.solve = orig
        Clock.on = False


def check(case, mon):
    p0, free = one(case, False)
    p1, timed = one(case, True)
    mon.ev("clock_reads", vclock.Clock.reads)
    T = case["max_time"]
    strip = case["mode"] == "strip"
    if case["by_class"]:
        mon.ev("class_limits")
        if case["run"] == "mp":
            mon.ev("class_limits_with_workers")
    for r, ((log0, _, sol0, obj0, _), (log1, t0, sol1, obj1, _)) in enumerate(zip(free, timed)):
        run = operations(case)[r]
        prep = case["prep"] if run != "local" and case["strategies"] is not None else 0
        if case["strategies"] is None:
            mon.ev("all_strategies")
        if r:
            mon.ev("second_searches")
            if run != case["run"]:
                mon.ev(f"second_{run}_after_{case['run']}")
        cut = False
        everything = []
        for pid, cons in log1.items():
            after = [c for c in cons if c[0] - t0 > T + 1e-6]
            if len(after) > SLACK:
                mon.bad(
                    "goes_on_after_limit",
                    f"{run} search {r}: {len(after)} constructions started after the "
                    f"{T} s limit",
                )
            everything += cons
        # which worker does what does not depend on time: match by first strategy set
        want = sorted(strip_times(c) for c in log0.values())
        got = sorted(strip_times(c) for c in log1.values())
        c = costs(case)
        over = prep >= T or any(
            prep + sum(c(k) for k in range(len(cons))) >= T - 1e-6 for cons in log1.values()
        )
        if over:
            cut = True
            if len(everything) < sum(map(len, log0.values())):
                mon.ev("cut_" + run)
                mon.sig(run, got)
            if run != "mp":
                g, w = (got or [[]])[0], (want or [[]])[0]
                n = sum(1 for x in everything if x[0] - t0 < T - 1e-6)
                if g[:n] != w[:n]:
                    mon.bad("other_course", f"{run} search {r} before the limit: {g[:n]}")
        else:
            mon.ev("uncut")
            if case["how"] == "late":
                mon.ev("late_uncut")
            if run != "mp":
                if got != want or sol1 != sol0:
                    mon.bad(
                        "ended_before_limit",
                        f"{run} search {r}: {sum(map(len, got))} constructions of "
                        f"{sum(map(len, want))}, though the limit had not passed",
                    )
            elif not strip and not full(obj0, p0) and (
                got != want or abs(obj0 - obj1) > 1e-9
            ):
                mon.bad(
                    "ended_before_limit",
                    f"mp search {r}: objective {obj1}, without limit {obj0}; "
                    f"{sum(map(len, got))} constructions of {sum(map(len, want))}",
                )
        if not everything:
            mon.ev("unobserved_searches")
            continue
        if not strip:
            best = max(x[3] for x in everything)
            if abs(best - obj1) > 1e-9:
                mon.bad(
                    "not_the_best",
                    f"{run} search {r} (cut={cut}) returned {obj1}, best built {best}",
                )
        per, tot = oracle.objective(case["mode"], sol1, oracle.dims_of(p1))
        if not oracle.close(tot, obj1):
            mon.bad("inconsistent_result", f"search {r} reports {obj1} for {sol1}")


def full(obj, p):
    k = len(p.containers)
    return obj >= (1 if k == 1 else k - 1 + 0.7) - 2e-9


def strip_times(cons):
    return [[c[1], c[2] or []] for c in cons]
