"""C08: local search: legal neighbours, strict improvement, best kept, local optimum."""
import random
import time
from fractions import Fraction

from .. import gen as G
from .. import oracle, runs
from ..env import hp

CASES = {"quick": 12000, "thorough": 250000}
CAP = {"quick": 80, "thorough": 700}
RULE = (
    "local searches (also those of hypersearches) of random bin/strip problems and of synthetic maximizing/minimizing problems "
    "built on the abstract local search, throttled by small limits or not; every evaluated node is "
    "recorded and the search's course replayed by the monitor; non-trivial: the search moved"
)
REQUIRED = {"neighbours_evaluated": 100000, "moves": 5000, "ended_at_local_optimum": 3000,
            "ended_by_throttle": 200, "ended_at_optimum": 200, "synthetic_min": 500, "equal_elements": 300,
            "synthetic_max": 500, "strip_searches": 500, "rejected_partial": 100,
            "real_throttle_searches": 1, "with_hooks": 500, "scaled_values": 500,
            "searches_of_hypersearches": 2000, "searched_again": 1500}
ASSUMPTIONS = [
    "nodes are observed through solve/evaluate_node/calculate_obj_value, the operations the "
    "abstract local search defines for its users",
]


def gen(rng, tier):
    k = rng.random()
    if k < 0.6:
        case = G.problem(rng, rng.choice(["tiny", "small", "small"]))
        del case["items"][rng.randint(3, 9) :]
        case["strategy"] = G.strategy(rng)
        case["run"] = "local"
        case["throttle"] = rng.choice([True, True, False])
        case["limit"] = rng.choice([None, None, None, 1, 2, 3, 5, 10, 14])
        if case["mode"] == "strip" and rng.random() < 0.5:
            case["height"] = rng.randint(1, max(i[2] for i in case["items"]) + 4)
            if case.get("min_height"):
                case["min_height"] = min(case["min_height"], case["height"])
        if rng.random() < 0.25:
            case["run"] = "hyper"
            kind = "suffix2" if case["mode"] == "strip" else "suffix"
            case["strategies"] = [G.strategy(rng, kind) for _ in range(rng.randint(1, 3))]
            case["presort"] = [rng.choice(["wide", None]), rng.choice([None, ["area", True]])]
        elif rng.random() < 0.4:
            # the same instance searches again, with other items
            more = G.problem(rng, "tiny")["items"][:4]
            case["then"] = rng.choice([
                case["items"][: rng.randint(1, len(case["items"]))],
                case["items"] + [[f"+{i}", w, l] for i, w, l in more],
                case["items"][::-1],
                case["items"],
            ])
        return case
    if k < 0.999:
        n = rng.randint(0, 9)
        return {
            "run": "synthetic",
            "opt": rng.choice(["MAX", "MIN"]),
            "n": n,
            "seed": rng.random(),
            "f": rng.choice(["assign", "adjacent", "plateau", "random"]),
            "throttle": rng.choice([True, True, False]),
            "limit": rng.choice([2500, 2500, 1, 2, 4, 8, 20]),
            "target": rng.choice([None, None, 0.6, 0.8]),
            "debug": rng.random() < 0.1,
            "hooks": rng.random() < 0.5,
            # the elements of the sequences are the user's
            "elements": rng.choice(["numbers", "numbers", "equal"]),
            # the values' order of magnitude is the user's
            "scale": rng.choice([0, 0, 0, -30, -60, 50, "third"]),
        }
    return {
        "run": "synthetic", "opt": rng.choice(["MAX", "MIN"]), "n": 80, "seed": rng.random(),
        "f": "plateau" if rng.random() < 0.5 else "flat", "throttle": True, "limit": None, "target": None,
        "debug": False,
    }


def corpus(tier):
    # one more neighbour than the throttle admits, and just as many items that none is cut off
    for n, throttle in ((73, True), (72, True), (71, True), (72, False), (79, False)):
        yield {
            "mode": "bin", "run": "local", "containers": [["c", 2, 3]], "strategy": None,
            "items": [["s0", 2, 1], ["s1", 1, 2]] + [[f"big{k}", 4, 4] for k in range(n - 2)],
            "rotation": False, "throttle": throttle, "limit": None, "max_time": 10000,
        }
    # the searches of a hypersearch are throttled, or not, alike
    for throttle in (True, False):
        yield {
            "mode": "bin", "run": "hyper", "containers": [["c", 2, 3]], "strategy": None,
            "items": [["s0", 2, 1], ["s1", 1, 2]] + [[f"big{k}", 4, 4] for k in range(71)],
            "rotation": False, "throttle": throttle, "limit": None, "max_time": 10000,
            "strategies": [list(G.CLASSES)], "presort": [None, None],
        }
    for opt in ("MAX", "MIN"):
        for f in ("flat", "plateau"):
            yield {"run": "synthetic", "opt": opt, "n": 80, "seed": 0.5, "f": f, "throttle": True,
                   "limit": None, "target": None, "debug": False}
        yield {"run": "synthetic", "opt": opt, "n": 105, "seed": 0.5, "f": "flat",
               "throttle": False, "limit": None, "target": None, "debug": False}
        yield {"run": "synthetic", "opt": opt, "n": 71, "seed": 0.5, "f": "flat",
               "throttle": True, "limit": None, "target": None, "debug": False}


def shrink(case):
    if case["run"] == "synthetic":
        for n in range(min(case["n"], 12)):
            yield dict(case, n=n)
        return
    for key in ("limit", "height", "min_height", "then"):
        if case.get(key) is not None:
            yield dict(case, **{key: None})
    yield from runs.shrink(case)


class Course:
    """Replays a recorded search and judges every step."""

    def __init__(self, mon, start, init, better, acceptable, optimum, cap, n_swaps):
        self.mon = mon
        self.node = list(start)
        self.best = init
        self.best_snap = None
        self.better, self.acceptable, self.optimum = better, acceptable, optimum
        self.cap, self.n_swaps = cap, n_swaps
        self.tried = set()
        self.done = False
        self.moved = 0
        self.count = 0
        self.moves_at = []

    def neighbour(self, seq, val, snap, accepted_ok):
        mon = self.mon
        mon.ev("neighbours_evaluated")
        seq = list(seq)
        self.count += 1
        if self.done:
            mon.bad("evaluates_after_optimum", f"evaluated {seq} after reaching {self.best}")
        if sorted(map(str, seq)) != sorted(map(str, self.node)):
            mon.bad("not_a_permutation", f"{seq} of node {self.node}")
            return
        diff = [k for k in range(len(seq)) if seq[k] != self.node[k]]
        if len(diff) != 2:
            mon.bad("not_one_swap", f"{seq} of node {self.node}")
        key = tuple(seq)
        if key in self.tried:
            mon.bad("evaluated_twice", f"{seq} of node {self.node}")
        self.tried.add(key)
        if self.cap is not None and len(self.tried) > self.cap:
            mon.bad("throttle_exceeded", f"{len(self.tried)} neighbours of one node, cap {self.cap}")
        if self.better(val, self.best):
            if accepted_ok:
                self.moved += 1
                self.moves_at.append(self.count)
                mon.ev("moves")
                self.node, self.best, self.best_snap = seq, val, snap
                self.tried = set()
                self.done = self.optimum(val)
            else:
                mon.ev("rejected_partial")

    def end(self, final_val, same):
        mon = self.mon
        if self.better(self.best, final_val):
            mon.bad("best_lost", f"best accepted {self.best} but returned {final_val}")
        elif self.better(final_val, self.best):
            mon.bad("unknown_result", f"best accepted {self.best} but returned {final_val}")
        elif self.best_snap is not None and not same(self.best_snap):
            mon.bad("other_solution", "the returned solution is not the best accepted one")
        full = self.n_swaps if self.cap is None else min(self.cap, self.n_swaps)
        if self.done:
            mon.ev("ended_at_optimum")
        elif len(self.tried) < full:
            mon.bad(
                "ended_early",
                f"{len(self.tried)} neighbours of the last node examined, {full} to examine",
            )
        elif full < self.n_swaps:
            mon.ev("ended_by_throttle")
        else:
            mon.ev("ended_at_local_optimum")


def check(case, mon):
    if case["run"] == "synthetic":
        return synthetic(case, mon)
    hyperpack = hp()
    rec = []

    class Traced(hyperpack.HyperPack):
        depth = 0

        def solve(self, sequence=None, debug=False):
            super().solve(sequence=sequence, debug=debug)
            self.note(sequence)

        def note(self, sequence):
            rec.append(
                (
                    None if sequence is None else list(sequence),
                    oracle.plain_solution(self),
                    self.calculate_obj_value(),
                )
            )

        def evaluate_node(self, sequence):
            n = len(rec)
            super().evaluate_node(sequence)
            if len(rec) == n:
                self.note(sequence)

        def get_init_solution(self):
            n = len(rec)
            r = super().get_init_solution()
            if len(rec) == n:
                self.note(None)
            return r

    if case.get("limit") is not None:
        Traced.MAX_NEIGHBORS_THROTTLE = case["limit"]
    if case["run"] == "hyper":

        def local_search(self, **kw):
            del rec[:]
            super(Traced, self).local_search(**kw)
            # (the time limit counts from the start of the whole)
            late = time.monotonic() - t0 > 40
            mon.ev("searches_of_hypersearches")
            judge(self, rec, case, mon, late)

        Traced.local_search = local_search
    p = G.build(case, Traced)
    t0 = time.monotonic()
    if case["run"] == "hyper":
        runs.fix_strategies(p, case["strategies"])
        o, s = case["presort"]
        p.hypersearch(o, tuple(s) if s else None, throttle=case["throttle"])
        return
    p.local_search(throttle=case["throttle"])
    judge(p, rec, case, mon, time.monotonic() - t0 > 40)
    if case.get("then"):
        p.items = {i: {"w": w, "l": l} for i, w, l in case["then"]}
        if case["mode"] == "strip":
            p.reset_container_height()
            if case.get("height"):
                p.container_height = case["height"]
            if case.get("min_height"):
                p.container_min_height = case["min_height"]
        del rec[:]
        t0 = time.monotonic()
        p.local_search(throttle=case["throttle"])
        mon.ev("searched_again")
        judge(p, rec, dict(case, items=case["then"]), mon, time.monotonic() - t0 > 40)


def judge(p, rec, case, mon, late):
    strip = case["mode"] == "strip"
    n = len(case["items"])
    if not rec:
        mon.ev("unobserved_searches")
        return
    seq0, sol0, val0 = rec[0]
    if seq0 is not None and seq0 != list(p.items):
        mon.bad("initial_sequence", f"search starts with {seq0}, items are {list(p.items)}")
    dims = oracle.dims_of(p)
    k = len(dims)
    maximum = 1 if k == 1 else k - 1 + 0.7
    cap = None
    if case["throttle"]:
        cap = case["limit"] if case["limit"] is not None else 2500
    need_all = strip and case.get("min_height") is None
    course = Course(
        mon, list(p.items), val0, lambda a, b: a > b, None,
        lambda v: v >= maximum - 2e-9, cap, n * (n - 1) // 2,
    )
    course.best_snap = sol0
    for seq, sol, val in rec[1:]:
        ok = not need_all or sum(map(len, sol.values())) == n
        course.neighbour(seq if seq is not None else list(p.items), val, sol, ok)
    if strip:
        mon.ev("strip_searches")
    final = oracle.plain_solution(p)
    if late:
        mon.ev("slow_searches")
        return
    course.end(p.calculate_obj_value(), lambda s: s == final)
    per, tot = oracle.objective(case["mode"], p.solution, dims)
    if not oracle.close(tot, p.calculate_obj_value()) or any(
        not oracle.close(per[c], p.obj_val_per_container.get(c, -9)) for c in per
    ):
        mon.bad("values_of_other_solution", f"{p.obj_val_per_container} for {final}")
    if course.moved:
        mon.sig(final, len(rec))


def objective(case, rng):
    n = case["n"]
    f = case["f"]
    cost = [[rng.randint(0, 9) for _ in range(n)] for _ in range(n)]
    salt = rng.random()
    if f == "assign":
        return lambda s: sum(cost[i][s[i]] for i in range(n))
    if f == "adjacent":
        return lambda s: sum(cost[s[i]][s[i + 1]] for i in range(n - 1))
    if f == "plateau":
        return lambda s: sum(cost[i][s[i]] for i in range(n)) // 12
    if f == "flat":
        return lambda s: 5
    return lambda s: random.Random(repr((salt, s))).randint(-20, 20)


class Element:
    """Equal to others, neither hashable nor ordered."""

    __hash__ = None

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Element) and self.n % 2 == other.n % 2


def synthetic(case, mon):
    hyperpack = hp()
    from hyperpack.abstract import AbstractLocalSearch

    rng = random.Random(case["seed"])
    n = case["n"]
    f0 = f = objective(case, rng)
    scale = case.get("scale") or 0
    unit = Fraction(1, 3) if scale == "third" else 2.0**scale if scale else 1
    if scale:
        f = lambda s: f0(s) * unit  # noqa: E731
        mon.ev("scaled_values")
    maximize = case["opt"] == "MAX"
    start = list(range(n))
    rng.shuffle(start)
    v0 = f(start)
    target = None
    if case["target"] is not None:
        target = v0 + (1 if maximize else -1) * rng.randint(0, 12) * unit
    rec = []

    class Problem(AbstractLocalSearch):
        OPTIMIZATION = case["opt"]

        def __init__(self):
            self.current = list(start)

        def get_init_solution(self):
            self.current = list(start)
            return list(self.current)

        def evaluate_node(self, sequence):
            self.current = list(sequence)
            rec.append(list(sequence))

        def calculate_obj_value(self):
            return f(self.current)

        def get_solution(self):
            return list(self.current)

    started, accepted = [], []
    if case.get("hooks"):
        # optional operations of the user's problem
        Problem.init_operations = lambda self: started.append(len(rec))
        Problem.extra_node_operations = lambda self: accepted.append((len(rec), list(self.current)))
        mon.ev("with_hooks")
    if case["limit"] is not None:
        Problem.MAX_NEIGHBORS_THROTTLE = case["limit"]
    else:
        mon.ev("real_throttle_searches")
    if target is not None:
        Problem.get_optimum_objective_val = lambda self: target
    prob = Problem()
    given = list(start)
    if case.get("elements") == "equal":
        mon.ev("equal_elements")
        given = [Element(k) for k in start]
        plain = Problem.evaluate_node
        Problem.evaluate_node = lambda self, sequence: plain(self, [e.n for e in sequence])
    out = prob.local_search(given, case["throttle"], time.time(), 10**6, debug=case["debug"])
    if given and isinstance(given[0], Element):
        given = [e.n for e in given]
    mon.check(given == start, "input_sequence_changed", lambda: f"{given} was {start}")
    better = (lambda a, b: a > b) if maximize else (lambda a, b: a < b)
    reached = lambda v: target is not None and (v >= target if maximize else v <= target)  # noqa
    cap = None
    if case["throttle"]:
        cap = case["limit"] if case["limit"] is not None else 2500
    course = Course(mon, start, v0, better, None, reached, cap, n * (n - 1) // 2)
    course.best_snap = list(start)
    for seq in rec:
        course.neighbour(seq, f(seq), seq, True)
    if case.get("hooks"):
        if started != [0]:
            mon.bad("init_operations", f"called after {started} evaluations")
        if [a for a, _ in accepted] != course.moves_at or any(
            rec[a - 1] != node for a, node in accepted
        ):
            mon.bad("node_operations", f"called after {accepted}, accepted {course.moves_at}")
    mon.ev("synthetic_max" if maximize else "synthetic_min")
    if reached(v0) and not course.moved:
        # reached before the search: any end is fine
        if better(course.best, f(out)):
            mon.bad("best_lost", f"best {course.best}, returned {f(out)}")
        return
    course.end(f(out), lambda s: s == out)
    if course.moved:
        mon.sig(case["opt"], case["f"], start, out)
