"""C28: interrupted operations leave a usable instance and no workers."""
import os
import signal
import sys
import threading
import time

from multiprocessing.process import BaseProcess

from .. import vclock

vclock.install()

from .. import env, oracle, runs, supervise  # noqa: E402
from .. import gen as G  # noqa: E402
from ..env import hp  # noqa: E402
from .c27 import children  # noqa: E402

CASES = {"quick": 5000, "thorough": 150000}
CAP = {"quick": 80, "thorough": 700}
CASE_TIMEOUT = {"quick": 300, "thorough": 300}
LEVEL = "fault_enumeration"
RULE = (
    "constructions, local searches and hypersearches of random problems interrupted by an exception "
    "(KeyboardInterrupt, MemoryError, an error of a user's hook) before or after the n-th "
    "construction or at the n-th call inside hyperpack, n random over the whole run; many worker "
    "hypersearches interrupted by a signal while the workers run; then the instance's data, stored "
    "solution and next results are judged; non-trivial: the interruption came after the start"
)
REQUIRED = {"interrupted_solve": 300, "interrupted_local": 300, "interrupted_hyper": 300,
            "at_call": 1000, "at_construction": 500, "strip_interrupted": 300,
            "next_results_compared": 1500, "interrupted_with_workers": 4, "interrupted_caller": 60,
            "limits_afterwards": 500, "throttled_afterwards": 300, "edits_afterwards": 800,
            "solution_kept": 300}
ASSUMPTIONS = [
    "interruptions come while the operation solves (not inside the presorting or an edit), at calls",
    "workers are counted as left when they are alive 20 s after the interruption",
]
KINDS = {"keyboard": KeyboardInterrupt, "memory": MemoryError, "error": RuntimeError,
         "exit": SystemExit}


def gen(rng, tier):
    run = rng.choice(["solve", "seq", "local", "local", "hyper", "hyper"])
    case = G.problem(rng, rng.choice(["tiny", "small"]) if run != "hyper" else "tiny")
    if run in ("local", "hyper"):
        del case["items"][6:]
    case["strategy"] = G.strategy(rng)
    case["run"] = run
    if run == "hyper":
        kind = "suffix2" if case["mode"] == "strip" else "suffix"
        case["strategies"] = [G.strategy(rng, kind) for _ in range(rng.randint(1, 4))]
    if run == "seq":
        ids = [i[0] for i in case["items"]]
        rng.shuffle(ids)
        case["sequence"] = ids[: rng.randint(1, len(ids))]
    case["before"] = rng.choice([None, "solve", "solve", "local"])
    case["point"] = rng.choice(["before", "after", "call", "call"])
    case["at"] = rng.random() if rng.random() < 0.9 else rng.choice([0.0, 0.999999])
    case["kind"] = rng.choice(["keyboard", "keyboard", "memory", "error", "exit"])
    # searches of a part of the neighbours, or of all
    case["limit"] = rng.choice([None, None, None, 1, 2, 4]) if run in ("local", "hyper") else None
    case["throttle"] = rng.random() < 0.6
    # the operations that follow meet their time limit
    case["clock"] = rng.random() < 0.3
    if case["clock"]:
        case["max_time"] = rng.choice([1, 2, 5, 10, 20])
    # the data are edited after the interruption
    case["edit"] = rng.choice([None, None, None, "item", "item", "append", "container", "rotation"])
    case["how"] = rng.randrange(1000)
    if run == "hyper" and rng.random() < 0.15:
        case["run"] = "mp_at"
        case["point"] = "call"
        case["clock"] = False
        case["max_time"] = 60
        case["workers"] = rng.randint(2, 4)
    return case


def corpus(tier):
    for mode in ("bin", "strip"):
        for workers in (2, 3, 5):
            for kind in ("keyboard", "exit", "error"):
                items = [[f"i{k}", 2 + k % 7, 1 + (k * 5) % 9] for k in range(40)]
                case = {"mode": mode, "run": "mp", "items": items, "rotation": None,
                        "strategy": None, "workers": workers, "kind": kind, "max_time": 120}
                if mode == "bin":
                    case["containers"] = [["c", 25, 21], ["d", 16, 18]]
                else:
                    case["W"] = 20
                yield case


def shrink(case):
    if case["run"] == "mp":
        return
    if case["before"]:
        yield dict(case, before=None)
    yield from runs.shrink(case)


class Injector:
    """Raises at a chosen event of one operation; counts the events otherwise."""

    def __init__(self, kind, point, at=None):
        self.kind, self.point, self.at = kind, point, at
        self.n = 0
        self.active = False
        self.fired = False
        self.pid = os.getpid()

    def event(self):
        if not self.active or self.fired or os.getpid() != self.pid:
            return
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            sys.setprofile(None)
            raise KINDS[self.kind]("injected")

    def profile(self, frame, what, arg):
        if what == "call" and env.in_repo_cached(frame.f_code.co_filename):
            self.event()


def interruptible(h, inj):
    class Interruptible(h.HyperPack):
        def solve(self, sequence=None, debug=False):
            if inj.point == "before":
                inj.event()
            super().solve(sequence=sequence, debug=debug)
            vclock.Clock.now += 1
            if inj.point == "after":
                inj.event()

    return Interruptible


def operate(p, case):
    run = case["run"]
    if run == "solve":
        p.solve()
    elif run == "seq":
        p.solve(sequence=case["sequence"])
    elif run == "local":
        p.local_search(throttle=case["throttle"])
    else:
        runs.fix_strategies(p, case["strategies"])
        p.hypersearch(orientation=None, sorting_by=None, throttle=case["throttle"])


def injected(p, case, inj):
    """Runs the operation with the injector on; the exception or None."""
    inj.active = True
    if inj.point == "call":
        sys.setprofile(inj.profile)
    try:
        operate(p, case)
    except BaseException as e:
        if not inj.fired:
            raise
        return e
    finally:
        sys.setprofile(None)
        inj.active = False
    return None


def data(p):
    return {
        "items": [[i, dict(d)] for i, d in p.items.items()],
        "containers": [[c, dict(d)] for c, d in p.containers.items()],
        "settings": {k: v for k, v in p.settings.items()},
        "strategy": p.potential_points_strategy,
        "min_height": p.container_min_height,
    }


def start(h, case, inj):
    p = G.build(case, interruptible(h, inj))
    if case["before"] == "solve":
        p.solve()
    elif case["before"] == "local" and len(case["items"]) <= 7:
        p.local_search()
    return p


def judge_solution(p, case, mon, height, exact, where):
    sol = p.solution
    if not sol:
        return
    mon.ev("solution_kept")
    dims = {c: (p.containers[c]["W"], height if case["mode"] == "strip" else p.containers[c]["L"])
            for c in p.containers}
    if set(sol) != set(dims):
        return mon.bad("containers", f"{where}: solution of {list(sol)}, containers {list(dims)}")
    seen = set()
    for c, placed in sol.items():
        W, L = dims[c]
        for i, e in placed.items():
            if i in seen or i not in p.items or not oracle.well_formed(e):
                return mon.bad("items", f"{where}: {i!r} {e} in {sol}")
            seen.add(i)
            d = (p.items[i]["w"], p.items[i]["l"])
            if tuple(e[2:]) not in (d, d[::-1]):
                return mon.bad("dimensions", f"{where}: {i!r} {d} placed as {e}")
            if e[0] < 0 or e[1] < 0 or e[0] + e[2] > W or e[1] + e[3] > L:
                return mon.bad("outside", f"{where}: {i!r} {e} outside {W}x{L}")
        pair = oracle.first_overlap(list(placed.items()))
        if pair:
            return mon.bad("overlap", f"{where}: {pair} in {placed}")
    if exact:
        per, _ = oracle.objective(case["mode"], sol, oracle.dims_of(p))
        got = p.obj_val_per_container
        if set(got) != set(per) or any(not oracle.close(per[c], got[c]) for c in per):
            mon.bad("values", f"{where}: values {got}, the solution's are {per}")


def result(p, case):
    bs = p.best_strategy if case["run"] == "hyper" else None
    return [
        [[c, sorted([i, list(e)] for i, e in s.items())] for c, s in p.solution.items()],
        sorted([c, v] for c, v in p.obj_val_per_container.items()),
        None if bs is None else list(bs),
    ]


def check(case, mon):
    h = hp()
    if case["run"] == "mp":
        return with_workers(h, case, mon)
    if case["run"] == "mp_at":
        return at_callers(h, case, mon)
    vclock.Clock.on, vclock.Clock.now = case["clock"], 0
    try:
        here(h, case, mon)
    finally:
        vclock.Clock.on = False


def edited(p, case):
    """The edit that follows the interruption."""
    how, edit = case["how"], case["edit"]
    if edit == "item":
        i = list(p.items)[how % len(p.items)]
        p.items[i]["wl"[how % 2]] = 1 + how % 7
    elif edit == "append":
        p.items["appended"] = {"w": 1 + how % 5, "l": 1 + how // 7 % 5}
    elif edit == "container" and case["mode"] == "bin":
        c = list(p.containers)[how % len(p.containers)]
        p.containers[c]["WL"[how % 2]] = 1 + how % 9
    elif edit == "rotation":
        p.settings["rotation"] = how % 2 == 0
        p.validate_settings()


def here(h, case, mon):
    count = Injector(case["kind"], case["point"])
    p = start(h, case, count)
    injected(p, case, count)
    n = count.n
    if not n:
        return
    at = 1 + int(case["at"] * n)
    inj = Injector(case["kind"], case["point"], at)
    p = start(h, case, inj)
    was, height = data(p), p.container_height
    e = injected(p, case, inj)
    name = {"seq": "solve"}.get(case["run"], case["run"])
    where = f"{case['run']} interrupted {case['point']} {at} of {n}"
    if not inj.fired:
        mon.bad("other_course", f"{where}: only {inj.n} events at the second run")
        return
    mon.ev(f"interrupted_{name}")
    mon.ev("at_call" if case["point"] == "call" else "at_construction")
    if case["mode"] == "strip":
        mon.ev("strip_interrupted")
    if e is None:
        mon.bad("swallowed", f"{where}: the {case['kind']} exception was swallowed")
    elif not isinstance(e, KINDS[case["kind"]]):
        mon.bad("other_error", f"{where}: {type(e).__name__}: {e}")
    now = data(p)
    for k in was:
        if now[k] != was[k]:
            mon.bad(f"changed_{k}", f"{where}: {was[k]} became {now[k]}")
    if case["mode"] == "strip":
        low = p.container_min_height or 0
        if not low <= p.container_height <= height:
            mon.bad("height", f"{where}: height {height} became {p.container_height}")
    elif p.container_height is not None:
        mon.bad("height", f"{where}: a bin problem's height is {p.container_height}")
    judge_solution(p, case, mon, height, case["point"] != "call", where)
    # what comes next is what a fresh instance gives
    fresh = dict(case, height=p.container_height, before=None)
    if case["mode"] != "strip":
        fresh.pop("height")
    q = start(h, fresh, Injector("error", "after"))
    if case["clock"]:
        # much later
        vclock.Clock.now += 10 * case["max_time"]
        mon.ev("limits_afterwards")
    if case["edit"]:
        mon.ev("edits_afterwards")
        edited(p, case)
        edited(q, case)
    if case["at"] < 0.3:
        # a plain construction first
        p.solve()
        q.solve()
        a, b = [p.solution, p.obj_val_per_container], [q.solution, q.obj_val_per_container]
        if a != b:
            mon.bad("next_construction", f"{where}: {a}, a fresh instance gives {b}")
    operate(p, case)
    operate(q, case)
    mon.ev("next_results_compared")
    a, b = result(p, case), result(q, case)
    if a != b:
        mon.bad("next_result", f"{where}: repeated {a}, a fresh instance gives {b}")
    if case["limit"] is not None:
        # and the other way round
        mon.ev("throttled_afterwards")
        turned = dict(case, throttle=not case["throttle"], run="local")
        operate(p, turned)
        operate(q, turned)
        a, b = result(p, turned), result(q, turned)
        if a != b:
            mon.bad("next_search", f"{where}: a local search with throttle={turned['throttle']} "
                    f"gives {a}, on a fresh instance {b}")
    if at > 1:
        mon.sig(case["run"], case["point"], at, n, a)


# ------------------------------------------------------------------ workers
def counting_starts(n):
    """Counts the processes this one starts."""
    orig = BaseProcess.start
    me = os.getpid()

    def start(self):
        if os.getpid() == me:
            n.append(1)
        orig(self)

    BaseProcess.start = start
    return orig


def living(base):
    out = []
    for c in set(children()) - base:
        try:
            with open(f"/proc/{c}/stat") as f:
                st = f.read().rsplit(")", 1)[1].split()[0]
        except OSError:
            continue
        if st != "Z":
            out.append(c)
    return out


def at_callers(h, case, mon):
    """In a session of its own: interrupts at a call of the caller of a many worker hypersearch."""

    def session():
        base = set(children())
        count = Injector(case["kind"], "call")
        first = dict(case, run="hyper")
        p = G.build(first)
        injected(p, first, count)
        out = {"n": count.n, "raised": None, "fired": False}
        if not count.n:
            return out
        inj = Injector(case["kind"], "call", 1 + int(case["at"] * count.n))
        p = G.build(first)
        was, height = data(p), p.container_height
        e = injected(p, first, inj)
        out["fired"] = inj.fired
        out["at"] = inj.at
        if e is not None:
            out["raised"] = type(e).__name__
            out["expected"] = isinstance(e, KINDS[case["kind"]])
        t0 = time.monotonic()
        while living(base) and time.monotonic() - t0 < 20:
            time.sleep(0.02)
        left = living(base)
        out["left"] = len(left)
        for c in left:
            os.kill(c, signal.SIGKILL)
        now = data(p)
        out["changed"] = [k for k in was if was[k] != now[k]]
        out["height"] = [height, p.container_height]
        q = G.build(first)
        edited(p, case)
        edited(q, case)
        more = [tuple(s) for s in case["strategies"]] * 3
        res = []
        for x in (p, q):
            n = []
            x.get_strategies = lambda **k: list(more)
            orig = counting_starts(n)
            try:
                x.hypersearch(orientation=None, sorting_by=None)
            finally:
                BaseProcess.start = orig
            res.append([len(n), round(x.calculate_obj_value(), 9)])
        out["next"] = res
        return out

    res = supervise.run(session)
    where = f"hypersearch of {case['workers']} workers interrupted at a call of the caller"
    if res[0] == "hang":
        return mon.bad("hang", f"{where}: {res[1]}")
    if res[0] == "slow":
        return mon.ev("slow")
    if res[0] == "raised":
        return mon.bad("failed", f"{where}: {res[1:]}")
    out = res[1]
    if not out["fired"]:
        return mon.ev("not_interrupted")
    where += f" ({out['at']} of {out['n']})"
    mon.ev("interrupted_caller")
    if out["raised"] is None:
        mon.bad("swallowed", f"{where}: it returned")
    elif not out["expected"]:
        mon.bad("other_error", f"{where}: {out['raised']}")
    if out["left"]:
        mon.bad("workers_left", f"{where}: {out['left']} workers go on 20 s later")
    if out["changed"]:
        mon.bad("changed", f"{where}: {out['changed']} changed")
    if out["height"][0] != out["height"][1]:
        mon.bad("height", f"{where}: height {out['height']}")
    a, b = out["next"]
    # what many workers find in a strip may depend on which of them ends first
    if a[0] != b[0] or (case["mode"] == "bin" and a[1] != b[1]):
        mon.bad("next_result", f"{where}: the next starts {a[0]} workers and gives {a[1]}, "
                f"a fresh instance's {b}")
    mon.sig("mp_at", case["workers"], out["at"], out["n"], case["mode"])


def with_workers(h, case, mon):
    """In a session of its own: interrupts the caller while the workers search."""

    def session():
        exc = KINDS[case["kind"]]
        main = threading.main_thread().ident
        seen = []

        def handler(signum, frame):
            raise exc("injected")

        signal.signal(signal.SIGUSR1, handler)
        base = set(children())
        p = G.build(case)
        was = data(p)
        height = p.container_height

        def watch():
            while len(set(children()) - base) < case["workers"]:
                time.sleep(0.01)
            time.sleep(0.4)
            seen.extend(set(children()) - base)
            signal.pthread_kill(main, signal.SIGUSR1)

        t = threading.Thread(target=watch, daemon=True)
        t.start()
        out = {"raised": None}
        try:
            p.hypersearch(orientation=None, sorting_by=None)
        except BaseException as e:
            out["raised"] = type(e).__name__
            out["expected"] = isinstance(e, exc)
        t0 = time.monotonic()
        while True:
            left = living(base)
            if not left or time.monotonic() - t0 > 20:
                break
            time.sleep(0.05)
        out["left"] = len(left)
        out["seen"] = len(seen)
        now = data(p)
        out["changed"] = [k for k in was if was[k] != now[k]]
        out["height"] = [height, p.container_height]
        for c in left:
            os.kill(c, signal.SIGKILL)
        p.settings = {"max_time_in_seconds": 60}
        p.solve()
        q = G.build(dict(case, workers=None))
        q.solve()
        out["same"] = p.solution == q.solution
        return out

    res = supervise.run(session)
    where = f"hypersearch of {case['workers']} workers interrupted ({case['kind']})"
    if res[0] == "hang":
        return mon.bad("hang", f"{where}: {res[1]}")
    if res[0] == "slow":
        return mon.ev("slow")
    if res[0] == "raised":
        return mon.bad("failed", f"{where}: {res[1:]}")
    out = res[1]
    if not out["seen"]:
        return mon.ev("not_interrupted")
    mon.ev("interrupted_with_workers")
    if out["raised"] is None:
        mon.bad("swallowed", f"{where}: it returned")
    elif not out["expected"]:
        mon.bad("other_error", f"{where}: {out['raised']}")
    if out["left"]:
        mon.bad("workers_left", f"{where}: {out['left']} workers go on 20 s later")
    if out["changed"]:
        mon.bad("changed", f"{where}: {out['changed']} changed")
    if out["height"][0] != out["height"][1]:
        mon.bad("height", f"{where}: height {out['height']}")
    if not out["same"]:
        mon.bad("next_construction", f"{where}: differs from a fresh instance's")
    mon.sig("mp", case["workers"], case["kind"], case["mode"])
