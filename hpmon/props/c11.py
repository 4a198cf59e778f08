"""C11: searches stop when all containers are full, in every worker."""
import multiprocessing.queues as mq
import os
import time

from .. import gen as G
from .. import oracle, runs
from ..env import hp
from ..mplog import EventLog

CASES = {"quick": 5000, "thorough": 120000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "perfectly packable bins (random guillotine partitions, 1-3 containers) searched locally, with "
    "one worker and with 2-4 delayed workers; constructions and local searches after the first full "
    "solution are counted; non-trivial: a full solution was found"
)
REQUIRED = {"full_found_local": 500, "full_found_hyper": 500, "full_found_mp": 20,
            "full_by_neighbour": 200, "multi_container_full": 200, "other_worker_stopped": 10,
            "not_full": 10}
ASSUMPTIONS = [
    "'a few' further local searches: 1 for the worker that found it; 5 for another worker, counted "
    "from the moment the finding worker hands over its result, with local searches delayed to "
    "last at least 30 ms"
]


def gen(rng, tier):
    run = rng.choices(["local", "hyper", "mp"], [50, 45, 8])[0]
    k = rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 5]) if run != "mp" else rng.choice([1, 1, 1, 2])
    conts, dims = [], []
    for i in range(k):
        W, L = rng.randint(2, 12), rng.randint(2, 12)
        if run == "mp":
            W, L = W + 5, L + 5
        conts.append([f"c{i}", W, L])
        if k > 3:
            # shares of thirds, sevenths and the like do not sum up to exactly one
            conts[-1][1:] = W, L = rng.choice([3, 5, 7, 9, 11]), rng.choice([3, 7, 9, 11, 13])
            dims += G.guillotine(rng, W, L, 3)
            continue
        dims += G.guillotine(rng, W, L, rng.randint(1, 9 // k) if run != "mp" else 8 // k)
    if rng.random() < 0.08:
        dims.append((rng.randint(1, 3), rng.randint(1, 3)))  # more items than room
    if rng.random() < 0.5:
        rng.shuffle(dims)
    case = {
        "mode": "bin",
        "containers": conts,
        "items": [[f"i{j}", w, l] for j, (w, l) in enumerate(dims)],
        "rotation": rng.choice([None, False]),
        "run": run,
        "strategy": G.strategy(rng, "perm") if rng.random() < 0.3 else None,
        "strategies": [],
        "presort": [rng.choice(["wide", None]) , rng.choice([None, ["area", True]])],
    }
    n = rng.randint(4, 12) if run == "hyper" else 40
    for _ in range(n):
        s = G.strategy(rng, "suffix")
        if s not in case["strategies"]:
            case["strategies"].append(s)
    if run == "mp":
        case["workers"] = rng.randint(2, 4)
        case["finder"] = rng.random()
        case["strategies"] = case["strategies"][:24]
    return case


def shrink(case):
    return (c for c in runs.shrink(case) if len(c["strategies"]) >= 4)


def full(p):
    return all(
        sum(e[2] * e[3] for e in p.solution[c].values()) == p.containers[c]["W"] * p.containers[c]["L"]
        for c in p.containers
    )


def arrange(case):
    """
    Strategies such that exactly one of them leads to a full solution, at a random place
    among many that do not; None if the problem does not give them.
    """
    p = G.build(case)
    o, s = case["presort"]
    p.sort_items(tuple(s) if s else None)
    p.orient_items(o)
    p.solve()
    if full(p):
        return None
    finder, others = None, []
    for st in case["strategies"]:
        p.potential_points_strategy = tuple(st)
        p.local_search()
        if full(p):
            finder = finder or st
        else:
            others.append(st)
    if finder is None or not others:
        return None
    n = 20 * case["workers"]
    out = [others[i % len(others)] for i in range(n)]
    out[int(case["finder"] * n)] = finder
    return out


def check(case, mon):
    hyperpack = hp()
    strategies = case["strategies"]
    if case["run"] == "mp":
        strategies = arrange(case)
        if strategies is None:
            mon.ev("mp_not_arrangeable")
            strategies = case["strategies"]
    HP = hyperpack.HyperPack
    log = EventLog()
    parent = os.getpid()
    orig_solve, orig_local = HP.solve, HP.local_search
    mp = case["run"] == "mp"
    nodes = {"n": 0, "in_local": False, "full": False}

    def solve(self, sequence=None, debug=False):
        orig_solve(self, sequence=sequence, debug=debug)
        if full(self):
            if not nodes["full"]:
                log.add("full", first=nodes["n"] == 0, in_local=nodes["in_local"])
            nodes["full"] = True
        elif nodes["full"]:
            log.add("construction_after")
        nodes["n"] += 1

    def local_search(self, **kw):
        log.add("start", full=nodes["full"])
        nodes["in_local"], nodes["n"] = True, 0
        t0 = time.monotonic()
        orig_local(self, **kw)
        if mp and os.getpid() != parent:
            # slow every worker except where the full solution was just found
            rest = 0.03 - (time.monotonic() - t0)
            if rest > 0 and not full(self):
                time.sleep(rest)
        nodes["in_local"] = False
        log.add("end", full=full(self))

    orig_put = mq.Queue.put

    def put(self, obj, *a, **k):
        if os.getpid() != parent:
            log.add("put")
        orig_put(self, obj, *a, **k)

    HP.solve, HP.local_search, mq.Queue.put = solve, local_search, put
    try:
        p = G.build(case)
        runs.fix_strategies(p, strategies)
        if case["run"] == "local":
            p.local_search()
        else:
            o, s = case["presort"]
            p.hypersearch(orientation=o, sorting_by=tuple(s) if s else None)
        logs = log.read()
    finally:
        HP.solve, HP.local_search, mq.Queue.put = orig_solve, orig_local, orig_put
        log.close()
    founds = [e for ev in logs.values() for e in ev if e["kind"] == "full"]
    if not founds:
        mon.ev("not_full")
        return
    run = case["run"]
    mon.ev(f"full_found_{run}")
    if len(case["containers"]) > 1:
        mon.ev("multi_container_full")
    mon.sig(run, oracle.plain_solution(p))
    if not full(p):
        mon.bad("full_solution_lost", f"{run}: a full solution was built, returned {p.solution}")
    # from here on every other worker can know of it (not earlier: the finder may be starved
    # between finding and sharing)
    told = [
        max(e["t"] for e in ev if e["kind"] in ("put", "end"))
        for ev in logs.values()
        if any(e["kind"] == "full" for e in ev) and any(e["kind"] == "put" for e in ev)
    ]
    t_first = min(told, default=float("inf"))
    for pid, events in logs.items():
        mine = next((e for e in events if e["kind"] == "full"), None)
        starts = [e for e in events if e["kind"] == "start"]
        if mine is not None:
            after = [e for e in starts if e["t"] > mine["t"]]
            if len(after) > 1:
                mon.bad(
                    "searches_after_full",
                    f"{run}: {len(after)} local searches of the finding worker after the full "
                    f"solution ({len(starts)} of {len(strategies)} in all)",
                )
            if mine["in_local"] and not mine["first"]:
                mon.ev("full_by_neighbour")
                k = events.index(mine)
                if any(e["kind"] in ("construction_after", "start") for e in events[k + 1 :]):
                    mon.bad(
                        "goes_on_after_full",
                        f"{run}: constructions or local searches after accepting the full solution",
                    )
        elif mp:
            after = [e for e in starts if e["t"] > t_first]
            if told:
                mon.ev("other_worker_stopped")
            if len(after) > 5:
                mon.bad(
                    "other_worker_goes_on",
                    f"{len(after)} local searches of another worker after the full solution",
                )
