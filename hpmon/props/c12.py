"""C12: many workers give the result of one worker, cover each strategy once, return."""
import json
import logging
import multiprocessing
import os
import pickle
import subprocess
import sys
import tempfile
import time
from multiprocessing.process import BaseProcess

from .. import gen as G
from .. import oracle, runs, supervise
from ..env import Capture, hp
from ..mplog import EventLog
from ..runner import Inconclusive, rng_for

CASES = {"quick": 900, "thorough": 30000}
CAP = {"quick": 150, "thorough": 720}
CASE_TIMEOUT = {"quick": 400, "thorough": 400}
NO_STEP_RERUN = True
RULE = (
    "hypersearches with 2-12 workers over 1-24 strategies under injected worker delays, small and "
    "very large results, compared with one worker and with what each worker logged; "
    "non-trivial: at least two workers searched"
)
REQUIRED = {"mp_searches": 250, "compared_with_one_worker": 150, "strategies_searched": 1500,
            "workers": 600, "big_results": 5, "more_workers_than_strategies": 20,
            "strip_searches": 40, "delayed_workers": 60, "more_workers_than_processors": 10,
            "different_local_results": 60, "class_defaults": 60, "throttled": 3, "not_throttled": 3, "export_directory_gone": 15, "started_by_spawn": 8, "started_by_forkserver": 8}
ASSUMPTIONS = [
    "a hang is judged by process states: no CPU used, no event and no process change for 25 s",
]


def gen(rng, tier):
    kind = rng.choices(["bin", "strip", "big"], [75, 15, 10])[0]
    if kind == "bin":
        case = G.bin_problem(rng, rng.choice(["tiny", "small", "small"]), n=rng.randint(3, 8))
        del case["items"][8:]
    elif kind == "strip":
        case = G.strip_problem(rng, rng.choice(["tiny", "small"]), n=rng.randint(3, 7), tight=False)
        del case["items"][7:]
        if rng.random() < 0.6:
            case["height"] = max(
                max(i[2] for i in case["items"]),
                rng.randint(1, case["W"] * 10),
            )
            if case.get("min_height"):
                case["min_height"] = min(case["min_height"], case["height"])
    else:
        k = rng.randint(40, 110)
        case = {
            "mode": "bin",
            "containers": [["c" * rng.choice([1, 3000]), 120, rng.randint(4, 12)]],
            "items": [[f"{i}" + "x" * rng.choice([1500, 3000]), 1, rng.randint(1, 3)] for i in range(k)],
            "rotation": False,
            "max_time": 1,
        }
    case["run"] = "mp"
    case["kind"] = kind
    case["workers"] = rng.randint(2, 8 if rng.random() < 0.3 else 4)
    many = kind == "bin" and rng.random() < 0.08
    if many:
        # more workers than there are processors
        case["workers"] = (os.cpu_count() or 8) + rng.randint(1, 4)
    suf = "suffix2" if case["mode"] == "strip" else "suffix"
    out = []
    # weak strategies make the workers' results differ
    weak = rng.choice([0, 0.3, 0.8]) if kind == "bin" else 0
    n = rng.randint(2, 4) if kind == "big" else rng.randint(1, 24)
    for _ in range(case["workers"] + rng.randint(-1, 8) if many else n):
        s = G.strategy(rng, "subset" if rng.random() < weak else suf)
        if s not in out:
            out.append(s)
    case["strategies"] = out
    case["strategy"] = G.strategy(rng, "perm") if rng.random() < 0.3 else None
    if weak and rng.random() < 0.7:
        case["strategy"] = G.strategy(rng, "subset")[:2]
    case["presort"] = [
        rng.choice(["wide", "long", None]),
        rng.choice([None, ["area", True], ["perimeter", False]]),
    ]
    case["delays"] = {
        str(rng.randrange(len(out))): rng.choice([0.005, 0.02, 0.1])
        for _ in range(rng.choice([0, 0, 1, 3]))
    }
    case["by_class"] = rng.random() < 0.25
    # the directory figures are to be exported to is removed before the search
    case["gone"] = rng.random() < 0.06
    # the caller is held up while it looks after its workers
    case["held_up"] = rng.choice([0, 0, 0, 0.02, 0.3]) if rng.random() < 0.5 else 0
    if case["held_up"] == 0.3:
        del out[6:]
        case["delays"] = {str(k): rng.choice([0.1, 0.15]) for k in range(len(out))}
    return case


# only a swap of two of these improves them, not moving one to the front
LATE = [
    (6, 8, [["s0", 1, 4], ["s1", 6, 3], ["s2", 4, 2], ["s3", 1, 1], ["s4", 1, 3], ["s5", 2, 4]]),
    (4, 8, [["s0", 3, 2], ["s1", 4, 5], ["s2", 4, 2], ["s3", 2, 6], ["s4", 4, 2], ["s5", 3, 4]]),
    (5, 4, [["s0", 4, 2], ["s1", 3, 1], ["s2", 5, 1], ["s3", 5, 1], ["s4", 1, 1], ["s5", 3, 3]]),
    (6, 5, [["s0", 3, 4], ["s1", 1, 3], ["s2", 1, 2], ["s3", 2, 3], ["s4", 3, 2], ["s5", 3, 2]]),
]


def late_swaps():
    """Searches whose improvements come after the neighbours the throttle admits."""
    strategies = [
        ["A", "B", "C", "D", "A_", "B_", "B__", "A__", "E", "F"],
        ["C", "D", "A", "B", "A_", "B_", "A__", "B__", "F", "E"],
        ["D", "C", "B", "A", "A_", "B_", "A__", "B__", "F", "E"],
    ]
    for k, (W, L, smalls) in enumerate(LATE):
        for throttle in (True, False):
            yield {
                "mode": "bin", "run": "mp", "kind": "throttle", "workers": 2 + k % 2,
                "containers": [["c", W, L]],
                "items": [[f"big{n}", 9, 9] for n in range(69)] + smalls,
                "rotation": False, "strategy": None, "max_time": 10000, "throttle": throttle,
                "strategies": strategies[: 2 + k % 2], "presort": [None, None], "delays": {},
                "held_up": 0, "by_class": False, "gone": False,
            }


def corpus(tier):
    yield from late_swaps()
    yield from started(tier)


def started(tier):
    """Worker processes started by the other methods (of Windows, macOS and later Pythons)."""
    rng = rng_for("C12 start methods", tier)
    n = 0
    while n < {"quick": 56, "thorough": 2000}[tier]:
        case = gen(rng, tier)
        if case["workers"] > 5 or (case["kind"] == "big" and n % 4):
            continue
        n += 1
        yield dict(case, start_method=rng.choice(["spawn", "forkserver"]), held_up=0)


def shrink(case):
    if case.get("kind") == "throttle":
        return
    if case.get("start_method"):
        yield {k: v for k, v in case.items() if k != "start_method"}
    if case["held_up"]:
        yield dict(case, held_up=0)
    for k in ("by_class", "gone"):
        if case[k]:
            yield dict(case, **{k: False})
    if case["delays"]:
        yield dict(case, delays={})
    for c in runs.shrink(case):
        yield dict(c, delays={k: v for k, v in c["delays"].items() if int(k) < len(c["strategies"])})


def install(case, log):
    """Logs constructions' heights and local searches of this process (and forked ones)."""
    HP = hp().HyperPack
    orig_local, orig_solve = HP.local_search, HP.solve
    delays = {tuple(case["strategies"][int(k)]): v for k, v in case["delays"].items()}

    def local_search(self, **kw):
        st = tuple(self.potential_points_strategy)
        if multiprocessing.parent_process() is not None and st in delays:
            log.add("delay")
            time.sleep(delays[st])
        h, mh = self.container_height, self.container_min_height
        orig_local(self, **kw)
        log.add(
            "local", strategy=list(st), obj=self.calculate_obj_value(), height=h, min_height=mh,
            solution=oracle.plain_solution(self) if case["kind"] != "big" else None,
            n=sum(map(len, self.solution.values())),
        )

    first = {}

    def solve(self, sequence=None, debug=False):
        h = self.container_height
        orig_solve(self, sequence=sequence, debug=debug)
        if first.get("pid") != os.getpid():
            first["pid"] = os.getpid()
            log.add("init", obj=self.calculate_obj_value(), height=h,
                    strategy=list(self.potential_points_strategy),
                    solution=oracle.plain_solution(self) if case["kind"] != "big" else None)

    HP.local_search, HP.solve = local_search, solve
    return HP, orig_local, orig_solve


def go(case, workers, log):
    """Runs the hypersearch with its events logged."""
    orig_alive = BaseProcess.is_alive

    def is_alive(self):
        log.add("held_up")
        time.sleep(case["held_up"])
        return orig_alive(self)

    if case["held_up"] and workers > 1:
        BaseProcess.is_alive = is_alive
    HP, orig_local, orig_solve = install(case, log)
    cap = Capture()
    lg = logging.getLogger("hyperpack")
    lg.addHandler(cap)
    try:
        c = dict(case, workers=workers)
        figure = {}
        if case["gone"]:
            path = tempfile.mkdtemp()
            figure["figure"] = {"export": {"type": "html", "path": path}}
        p = G.build(c, **figure)
        if case["gone"]:
            os.rmdir(path)
        runs.fix_strategies(p, case["strategies"])
        o, s = case["presort"]
        h0, m0 = p.container_height, p.container_min_height
        kw = {} if case.get("throttle") is None else {"throttle": case["throttle"]}
        p.hypersearch(orientation=o, sorting_by=tuple(s) if s else None, **kw)
        return {
            "h0": h0,
            "m0": m0,
            "heights": (p.container_height, p.container_min_height),
            "obj": p.calculate_obj_value(),
            "solution": oracle.plain_solution(p),
            "vals": dict(p.obj_val_per_container),
            "best_strategy": None if p.best_strategy is None else list(p.best_strategy),
            "items": [[i, p.items[i]["w"], p.items[i]["l"]] for i in p.items],
            "dims": oracle.dims_of(p),
            "pid": os.getpid(),
            "errors": [m for lv, m in cap.records if lv in ("ERROR", "CRITICAL")],
        }
    finally:
        HP.local_search, HP.solve = orig_local, orig_solve
        BaseProcess.is_alive = orig_alive
        lg.removeHandler(cap)


def go_started(case, log):
    """go in a program of its own that starts its processes by another method."""
    out = os.path.join(log.dir, "result")
    job = os.path.join(log.dir, "job")
    with open(job, "w") as f:
        json.dump({"case": case, "dir": log.dir, "out": out}, f)
    env = dict(os.environ, HPMON_SPAWN=job)
    r = subprocess.run(
        [sys.executable, os.path.join(os.path.dirname(runs.__file__), "spawned.py")],
        env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True,
    )
    if r.returncode != 0:
        raise RuntimeError(f"the program ended with {r.returncode}: {r.stderr[-1500:]}")
    with open(out, "rb") as f:
        res = pickle.load(f)
    os.unlink(out)
    return res


def check(case, mon):
    hp()
    log = EventLog()
    start = case.get("start_method")
    try:
        out = supervise.run(
            (lambda: go_started(case, log)) if start else lambda: go(case, case["workers"], log),
            progress=log.size,
        )
        logs = log.read()
    finally:
        log.close()
    if out[0] == "hang":
        mon.bad("hang", f"{case['workers']} workers, {case['kind']} results: {out[1]}")
        return
    if out[0] == "slow":
        raise Inconclusive("a supervised search took over 240 s while still working")
    if out[0] == "raised":
        mon.bad(f"raised:{out[1]}", out[2])
        return
    r = out[1]
    h0, m0 = r["h0"], r["m0"]
    mon.ev("mp_searches")
    if case["by_class"]:
        mon.ev("class_defaults")
    if case["gone"]:
        mon.ev("export_directory_gone")
    if case["kind"] == "throttle":
        mon.ev("throttled" if case["throttle"] else "not_throttled")
    if start:
        mon.ev(f"started_by_{start}")
    if case["workers"] > (os.cpu_count() or 8):
        mon.ev("more_workers_than_processors")
    strategies = [tuple(s) for s in case["strategies"]]
    if case["workers"] > len(strategies):
        mon.ev("more_workers_than_strategies")
    strip = case["mode"] == "strip"
    obj, final, parent = r["obj"], r["solution"], r["pid"]
    workers = {pid: ev for pid, ev in logs.items() if pid != parent}
    mon.ev("workers", len(workers))
    locals_ = [e for ev in logs.values() for e in ev if e["kind"] == "local"]
    mon.ev("delayed_workers", sum(e["kind"] == "delay" for ev in logs.values() for e in ev))
    mon.ev("strategies_searched", len(locals_))
    inits = [e for ev in logs.values() for e in ev if e["kind"] == "init"]
    used = [tuple(e["strategy"]) for e in locals_]
    k = 1 if strip else len(case["containers"])
    full = obj >= (1 if k == 1 else k - 1 + 0.7) - 2e-9
    if len(set(used)) != len(used):
        mon.bad("strategy_searched_twice", f"{len(used)} searches of {len(set(used))} strategies")
    if not full and case["kind"] != "big" and set(used) != set(strategies):
        mon.bad(
            "strategy_not_searched",
            f"{len(set(strategies) - set(used))} of {len(strategies)} strategies searched by none "
            f"of {case['workers']} workers",
        )
    if len(workers) > case["workers"]:
        mon.bad("too_many_workers", f"{len(workers)} workers, {case['workers']} asked for")
    if r["errors"]:
        mon.bad("errors_logged", f"no worker failed, but the caller logged {r['errors']}")
    mon.ev("caller_held_up", sum(e["kind"] == "held_up" for ev in logs.values() for e in ev))
    # consistency of the final state
    per, tot = oracle.objective(case["mode"], final, r["dims"])
    if set(r["vals"]) != set(per) or any(not oracle.close(per[c], r["vals"][c]) for c in per):
        mon.bad("values_of_other_solution", f"{r['vals']} for {final}"[:1500])
    if not strip:
        best = max([e["obj"] for e in locals_ + inits], default=None)
        if best is not None and not oracle.close(best, obj):
            mon.bad("not_the_best", f"returned {obj}, best found by a worker {best}")
    if case["kind"] == "big":
        mon.ev("big_results")
        return
    if locals_ and final not in [e["solution"] for e in locals_ + inits]:
        mon.bad("unknown_result", f"{final} was found by no worker")
    bs = None if r["best_strategy"] is None else tuple(r["best_strategy"])
    if bs is not None and not any(
        tuple(e["strategy"]) == bs and e["solution"] == final for e in locals_
    ):
        mon.bad("best_strategy", f"{bs} did not produce the returned solution")
    if strip:
        mon.ev("strip_searches")
        for e in inits:
            if e["pid"] != parent and e["height"] != h0:
                mon.bad("worker_height", f"worker starts with height {e['height']}, set {h0}")
        for e in locals_:
            if e["min_height"] != m0:
                mon.bad("worker_min_height", f"worker has {e['min_height']}, set {m0}")
        for s in final.values():
            if oracle.used_height(s) > h0:
                mon.bad("strip_height", f"result reaches {oracle.used_height(s)}, limit {h0}")
    else:
        log1 = EventLog()
        try:
            q = go(dict(case, delays={}), 1, log1)
        finally:
            log1.close()
        mon.ev("compared_with_one_worker")
        if not oracle.close(q["obj"], obj):
            mon.bad(
                "differs_from_one_worker",
                f"{case['workers']} workers: {obj}, one worker: {q['obj']}",
            )
        if q["items"] != r["items"]:
            mon.bad("items_differ", f"{r['items']} and {q['items']}")
    if len({round(e["obj"], 9) for e in locals_}) > 1:
        mon.ev("different_local_results")
    if len(workers) > 1:
        mon.sig(case["workers"], used, final)
