"""C13: failing workers neither hang nor corrupt a hypersearch."""
import itertools
import logging
import os
import signal
import sys
import time

from .. import gen as G
from .. import oracle, runs, supervise
from ..env import Capture, hp
from ..mplog import EventLog
from ..runner import Inconclusive

CASES = {"quick": 700, "thorough": 24000}
CAP = {"quick": 100, "thorough": 740}
CASE_TIMEOUT = {"quick": 400, "thorough": 400}
NO_STEP_RERUN = True
LEVEL = "fault_enumeration"
RULE = (
    "every kind of failure at every point of a worker's life, for several sets of failing workers "
    "(enumerated), plus random fault plans over random problems, 2-5 workers and delays; judged on "
    "the call's outcome against what the surviving workers logged; non-trivial: a fault was injected"
)
KINDS = ("raise", "liberror", "memory", "exit0", "exit1", "hardexit0", "hardexit3", "kill", "term")
POINTS = ("init", "before", "mid", "after", "store", "put", "after_put")
REQUIRED = {f"fault_{k}": 5 for k in KINDS}
REQUIRED.update({f"at_{p}": 10 for p in POINTS if p != "store"})
REQUIRED.update({"all_failed": 20, "some_survived": 100, "delays": 20, "slow_workers": 6})
ASSUMPTIONS = [
    "a hang is judged by process states: no CPU used, no event and no process change for 25 s",
    "the point 'store' (while writing a lock protected shared value) is driven only where the code "
    "shares values under a lock",
    "a worker killed in the midst of writing its result to the pipe is not driven",
]
BASE_ITEMS = [["a", 4, 3], ["b", 3, 5], ["c", 2, 2], ["d", 5, 2], ["e", 1, 4], ["f", 3, 3]]


def corpus(tier):
    strategies = []
    import random

    rng = random.Random(7)
    while len(strategies) < 6:
        s = G.strategy(rng, "suffix")
        if s not in strategies:
            strategies.append(s)
    base = {
        "mode": "bin", "containers": [["c0", 7, 6], ["c1", 5, 5]], "items": BASE_ITEMS,
        "rotation": None, "strategies": strategies, "presort": ["wide", ["area", True]],
        "run": "mp", "delays": {},
    }
    # workers long past the time limit are slow, not failed
    for late in (2, 4, 7, 12) + ((18,) if tier == "thorough" else ()):
        for slow in ([0, 1], [0], [1]):
            yield dict(base, workers=2, faults=[], max_time=1, delays={str(w): late for w in slow})
    for kind, point in itertools.product(KINDS, POINTS):
        if point == "after_put" and kind not in ("kill", "hardexit3", "raise"):
            continue
        for workers, failing in ((2, [0]), (2, [1]), (2, [0, 1]), (3, [1, 2]), (3, [0, 1, 2])):
            yield dict(base, workers=workers,
                       faults=[{"worker": w, "kind": kind, "point": point, "n": 1} for w in failing])


def gen(rng, tier):
    if rng.random() < 0.85:
        case = G.bin_problem(rng, rng.choice(["tiny", "small"]), n=rng.randint(3, 7))
    else:
        case = G.strip_problem(rng, "tiny", n=rng.randint(3, 6), tight=False, min_height=False)
    del case["items"][7:]
    suf = "suffix2" if case["mode"] == "strip" else "suffix"
    out = []
    weak = rng.choice([0, 0.4]) if case["mode"] == "bin" else 0
    if weak:
        case["strategy"] = G.strategy(rng, "subset")[:2]
    for _ in range(rng.randint(2, 12)):
        s = G.strategy(rng, "subset" if rng.random() < weak else suf)
        if s not in out:
            out.append(s)
    workers = rng.randint(2, 5)
    case.update(run="mp", strategies=out, workers=workers, presort=["wide", ["area", True]])
    failing = rng.sample(range(workers), rng.randint(1, workers))
    case["faults"] = [
        {
            "worker": w,
            "kind": rng.choice(KINDS),
            "point": rng.choice(POINTS),
            "n": rng.randint(1, 4),
        }
        for w in failing
    ]
    case["delays"] = {
        str(w): rng.choice([0.05, 0.3]) for w in range(workers) if rng.random() < 0.15
    }
    return case


def shrink(case):
    if case["delays"]:
        yield dict(case, delays={})
    f = case["faults"]
    for i in range(len(f)):
        if len(f) > 1:
            yield dict(case, faults=f[:i] + f[i + 1 :])


def fail(kind):
    if kind == "raise":
        raise RuntimeError("injected")
    if kind == "liberror":
        raise hp().ItemsError("injected")
    if kind == "memory":
        raise MemoryError("injected")
    if kind == "exit0":
        sys.exit(0)
    if kind == "exit1":
        sys.exit(1)
    if kind == "hardexit0":
        os._exit(0)
    if kind == "hardexit3":
        os._exit(3)
    os.kill(os.getpid(), signal.SIGKILL if kind == "kill" else signal.SIGTERM)
    time.sleep(30)


def go(case, log):
    hyperpack = hp()
    HP = hyperpack.HyperPack
    import multiprocessing.queues as mq
    import multiprocessing.sharedctypes as sc

    parent = os.getpid()
    me = {"pid": None}

    def state():
        if me["pid"] != os.getpid():
            me.update(pid=os.getpid(), ordinal=None, solves=0, locals=0, in_local=False)
            for k in itertools.count():
                try:
                    os.close(os.open(os.path.join(log.dir, f"ord{k}"), os.O_CREAT | os.O_EXCL))
                except FileExistsError:
                    continue
                me["ordinal"] = k
                break
            me["fault"] = next((f for f in case["faults"] if f["worker"] == me["ordinal"]), None)
            d = case["delays"].get(str(me["ordinal"]))
            if d:
                log.add("delay")
                time.sleep(d)
        return me

    def hit(point, n=None):
        f = me.get("fault")
        if f and f["point"] == point and (n is None or n == f["n"]):
            me["fault"] = None
            log.add("fault", fault=f["kind"], point=point)
            fail(f["kind"])

    orig_local, orig_solve, orig_put = HP.local_search, HP.solve, mq.Queue.put

    def solve(self, sequence=None, debug=False):
        if os.getpid() == parent:
            return orig_solve(self, sequence=sequence, debug=debug)
        st = state()
        if st["solves"] == 0:
            hit("init")
        orig_solve(self, sequence=sequence, debug=debug)
        if st["solves"] == 0:
            log.add("init", obj=self.calculate_obj_value(), solution=oracle.plain_solution(self))
        st["solves"] += 1
        if st["in_local"]:
            st["nth"] += 1
            hit("mid", st["nth"])

    def local_search(self, **kw):
        if os.getpid() == parent:
            return orig_local(self, **kw)
        st = state()
        st["locals"] += 1
        n = st["locals"]
        hit("before", n)
        st["in_local"], st["nth"] = True, 0
        orig_local(self, **kw)
        st["in_local"] = False
        log.add("local", obj=self.calculate_obj_value(), solution=oracle.plain_solution(self))
        hit("after", n)

    def put(self, obj, *a, **k):
        if os.getpid() == parent:
            return orig_put(self, obj, *a, **k)
        state()
        hit("put")
        orig_put(self, obj, *a, **k)
        log.add("put")
        hit("after_put")

    def setitem(self, i, value):
        if os.getpid() != parent:
            state()
            with self.get_lock():
                hit("store")
        orig_set(self, i, value)

    orig_set = sc.SynchronizedArray.__setitem__
    sc.SynchronizedArray.__setitem__ = setitem
    cap = Capture()
    logging.getLogger("hyperpack").addHandler(cap)
    HP.local_search, HP.solve, mq.Queue.put = local_search, solve, put
    try:
        p = G.build(case)
        runs.fix_strategies(p, case["strategies"])
        o, s = case["presort"]
        cap.records.clear()
        try:
            p.hypersearch(orientation=o, sorting_by=tuple(s) if s else None)
        except hyperpack.MultiProcessError:
            return {"failed": True, "errors": [r for r in cap.records if r[0] == "ERROR"]}
        return {
            "failed": False,
            "errors": [r for r in cap.records if r[0] in ("ERROR", "CRITICAL")],
            "obj": p.calculate_obj_value(),
            "solution": oracle.plain_solution(p),
            "vals": dict(p.obj_val_per_container),
            "dims": oracle.dims_of(p),
            "items": {i: (p.items[i]["w"], p.items[i]["l"]) for i in p.items},
        }
    finally:
        HP.local_search, HP.solve, mq.Queue.put = orig_local, orig_solve, orig_put
        sc.SynchronizedArray.__setitem__ = orig_set


def check(case, mon):
    hp()
    log = EventLog()
    try:
        out = supervise.run(lambda: go(case, log), progress=log.size)
        for f in os.listdir(log.dir):
            if f.startswith("ord"):
                os.unlink(os.path.join(log.dir, f))
        logs = log.read()
    finally:
        log.close()
    faults = {pid: e for pid, ev in logs.items() for e in ev if e["kind"] == "fault"}
    mon.ev("delays", sum(e["kind"] == "delay" for ev in logs.values() for e in ev))
    desc = sorted((e["fault"], e["point"]) for e in faults.values())
    if out[0] == "hang":
        mon.bad("hang", f"{case['workers']} workers, failures {desc}: {out[1]}")
        return
    if out[0] == "slow":
        raise Inconclusive("a supervised search took over 240 s while still working")
    if out[0] == "raised":
        mon.bad(f"raised:{out[1]}", f"failures {desc}: {out[2]}")
        return
    r = out[1]
    for e in faults.values():
        mon.ev(f"fault_{e['fault']}")
        mon.ev(f"at_{e['point']}")
    # a worker that failed after handing over may count either way
    late = {pid for pid, e in faults.items() if e["point"] == "after_put"}
    lost = set(faults) - late
    survivors = set(logs) - set(faults)
    if faults:
        mon.sig(case["workers"], desc, r.get("solution"))
    if r["failed"]:
        if survivors:
            mon.bad(
                "gives_up_despite_survivors",
                f"MultiProcessError though {len(survivors)} of {len(logs)} workers survived {desc}",
            )
        elif not faults:
            mon.bad("gives_up", "MultiProcessError without any failure")
        else:
            mon.ev("all_failed")
        return
    if not survivors and not late:
        mon.bad("no_error_though_all_failed", f"failures {desc}: returned {r['solution']}")
        return
    mon.ev("some_survived")
    if not faults and r["errors"]:
        mon.bad("error_without_failure", f"no worker failed: logged {r['errors'][:2]}")
    if not faults and any(d >= 2 for d in case["delays"].values()):
        mon.ev("slow_workers")
    if lost and not r["errors"]:
        mon.bad("failure_not_logged", f"failures {desc}: no error logged")
    found = [e for pid in survivors for e in logs[pid] if e["kind"] in ("init", "local")]
    maybe = [e for pid in late for e in logs[pid] if e["kind"] in ("init", "local")]
    sol = r["solution"]
    if sol not in [e["solution"] for e in found + maybe]:
        mon.bad("foreign_result", f"failures {desc}: {sol} is of no surviving worker")
        return
    per, tot = oracle.objective(case["mode"], sol, r["dims"])
    if set(per) != set(r["vals"]) or any(not oracle.close(per[c], r["vals"][c]) for c in per):
        mon.bad("values_of_other_solution", f"failures {desc}: {r['vals']} for {sol}")
    if case["mode"] == "bin" and found:
        best = max(e["obj"] for e in found)
        if r["obj"] < best - 1e-9:
            mon.bad(
                "not_the_survivors_best",
                f"failures {desc}: returned {r['obj']}, a survivor found {best}",
            )
