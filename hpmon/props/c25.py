"""C25: instances are independent of each other."""
import copy
import hashlib
import sys
import threading
import types
from collections import deque

from .. import vclock

vclock.install()

from .. import env  # noqa: E402
from .. import gen as G  # noqa: E402
from .. import runs  # noqa: E402
from ..env import hp  # noqa: E402
from ..runner import rng_for  # noqa: E402

CASES = {"quick": 3600, "thorough": 120000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "2-4 instances with random operation scripts, each run alone first, then together: scripts "
    "interleaved operation by operation, nested at random constructions of each other, in threads "
    "under a seeded scheduler switching at calls and lines of hyperpack, and in free running "
    "threads with a 1 us switch interval; each instance lives on its own virtual clock and may run out of time; signature is the schedule"
)
REQUIRED = {"mode_interleaved": 250, "mode_nested": 400, "mode_scheduled": 400, "mode_threads": 250,
            "switches": 50000, "nested_constructions": 1500, "results_compared": 20000,
            "class_defaults_checked": 3000, "shared_inputs": 500,
            "searches_out_of_time": 500}
ASSUMPTIONS = ["an instance is used by one thread at a time, as the library promises nothing else"]
OPS = ("solve", "local", "hyper", "strategy", "item", "sort", "height", "reset", "log", "rotation",
       "own_container", "pop_strategies")


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    shared = rng.random() < 0.3
    insts = []
    for k in range(n):
        if shared and k:
            case = copy.deepcopy(insts[0])
        else:
            case = G.problem(rng, rng.choice(["tiny", "small"]))
            del case["items"][7:]
        case["strategy"] = G.strategy(rng)
        case["run"] = "pointgen" if rng.random() < 0.12 else "hyper"
        # its own virtual time: where it starts, and the cost of a construction
        case["clock"] = [rng.choice([0, 0, 1, 3, 1000]), 0]
        if not (shared and k):
            case["max_time"] = rng.choice([None, None, 1, 2, 60])
        if case["max_time"] and rng.random() < 0.7:
            case["clock"][1] = case["max_time"] / (rng.randint(0, 60) + 0.5)
        ops = []
        for _ in range(rng.randint(1, 4)):
            o = rng.choice(OPS) if rng.random() < 0.6 else rng.choice(("solve", "local", "hyper"))
            a = None
            if o == "hyper":
                a = [G.strategy(rng, "suffix2" if case["mode"] == "strip" else "suffix")
                     for _ in range(rng.randint(1, 2))]
            elif o == "strategy":
                a = G.strategy(rng, "perm")
            elif o in ("item", "height"):
                a = rng.randint(1, 6)
            elif o == "rotation":
                a = rng.random() < 0.5
            elif o == "own_container":
                a = rng.randint(2, 9)
            ops.append([o, a])
        case["ops"] = ops
        insts.append(case)
    return {
        "insts": insts,
        "shared": shared,
        "mode": rng.choice(["interleaved", "nested", "nested", "scheduled", "scheduled", "threads"]),
        "sched": rng.randrange(1 << 30),
    }


def shrink(case):
    I = case["insts"]
    for i in range(len(I)):
        if len(I) > 2:
            yield dict(case, insts=I[:i] + I[i + 1 :])
    for i, c in enumerate(I):
        for j in range(len(c["ops"])):
            if len(c["ops"]) > 1:
                d = dict(c, ops=c["ops"][:j] + c["ops"][j + 1 :])
                yield dict(case, insts=I[:i] + [d] + I[i + 1 :])
    if not case["shared"]:
        for i, c in enumerate(I):
            for d in G.shrink_problem(c):
                yield dict(case, insts=I[:i] + [d] + I[i + 1 :])


# ------------------------------------------------------------ instances and their scripts
class Mine(threading.local):
    """The clock of the instance at work in this thread."""

    clock = None


mine = Mine()


def source():
    return mine.clock[0] if mine.clock else 0.0


def timed(p, case):
    """Constructions of the instance take time on its own clock."""
    clock = list(case["clock"])
    orig = p.solve

    def solve(*a, **kw):
        orig(*a, **kw)
        clock[0] += clock[1]

    p.solve = solve
    return clock


def make(case, inputs=None):
    h = hp()
    cls = h.PointGenPack if case["run"] == "pointgen" else h.HyperPack
    if inputs is None:
        return G.build(case, cls)
    # built from input objects other instances are built from too
    kw = {"items": inputs["items"], "settings": inputs["settings"]}
    if case["mode"] == "strip":
        kw["strip_pack_width"] = case["W"]
    else:
        kw["containers"] = inputs["containers"]
    p = cls(**kw)
    if case.get("strategy") is not None:
        p.potential_points_strategy = tuple(case["strategy"])
    if case.get("height") is not None:
        p.container_height = case["height"]
    if case.get("min_height") is not None:
        p.container_min_height = case["min_height"]
    return p


def apply(p, op, a):
    search = hasattr(p, "local_search")
    if op == "solve" or (op in ("local", "hyper", "sort") and not search):
        p.solve()
    elif op == "local":
        p.local_search()
    elif op == "hyper":
        runs.fix_strategies(p, a)
        p.hypersearch()
    elif op == "strategy":
        p.potential_points_strategy = tuple(a)
    elif op == "item":
        i = next(iter(p.items))
        p.items[i]["w"] = a
    elif op == "sort":
        p.sort_items()
        p.orient_items()
    elif op == "height":
        if p.container_height is not None:
            p.container_height = max(a * 3, p.container_min_height or 1)
    elif op == "reset":
        p.reset_container_height()
    elif op == "log":
        p.log_solution()
    elif op == "rotation":
        p.settings = dict(p.settings, rotation=a)
    elif op == "own_container":
        if p.container_height is None:
            p.containers[next(iter(p.containers))]["W"] = a
    elif op == "pop_strategies":
        if search:
            s = type(p).get_strategies(p)
            if isinstance(s, list):
                s.clear()
            p.__dict__.pop("get_strategies", None)


def result(p):
    return {
        "solution": {c: {i: list(e) for i, e in s.items()} for c, s in p.solution.items()},
        "values": dict(getattr(p, "obj_val_per_container", {}) or {}),
        "best": list(getattr(p, "best_strategy", None) or []),
        "items": [(i, p.items[i]["w"], p.items[i]["l"]) for i in p.items],
        "containers": [(c, p.containers[c]["W"], p.containers[c]["L"]) for c in p.containers],
        "strategy": list(p.potential_points_strategy),
        "height": (p.container_height, p.container_min_height),
        "settings": dict(p.settings),
    }


_timed_out = [0]


def script(p, case):
    """Yields after every operation."""
    clock = timed(p, case)
    for op, a in case["ops"]:
        before, mine.clock = mine.clock, clock
        t = clock[0]
        try:
            apply(p, op, a)
        finally:
            mine.clock = before
        if op in ("local", "hyper") and clock[0] - t > (case["max_time"] or 60):
            _timed_out[0] += 1
        yield result(p)


def alone(case, inputs=None):
    return list(script(make(case, inputs), case))


# ------------------------------------------------------------ class and module defaults
def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, deque)):
        return [type(v).__name__] + [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(map(repr, v))
    return repr(v)


def hash_of(strategies):
    strategies = [tuple(s) for s in strategies]
    return len(strategies), hashlib.sha256(repr(strategies).encode()).hexdigest()


def defaults():
    """All the plain data of the library's classes and modules, by name."""
    h = hp()
    out = {}
    for m, mod in list(sys.modules.items()):
        if m == "hyperpack" or m.startswith("hyperpack."):
            if ".benchmarks" in m:
                continue
            for k, v in vars(mod).items():
                if k.isupper() and not callable(v):
                    out[f"{m}.{k}"] = plain(v)
                elif isinstance(v, type) and v.__module__ == m:
                    for a, x in vars(v).items():
                        if a.isupper() and not callable(x) and not isinstance(
                            x, (property, types.FunctionType, classmethod, staticmethod)
                        ):
                            out[f"{m}.{k}.{a}"] = plain(x)
    # what a new instance starts from
    q = h.HyperPack(containers={"c": {"W": 3, "L": 3}}, items={"a": {"w": 1, "l": 1}})
    out["new instance"] = plain(result(q))
    out["new instance's strategies"] = hash_of(q.get_strategies())
    q = h.HyperPack(strip_pack_width=3, items={"a": {"w": 1, "l": 1}})
    out["new strip instance"] = plain(result(q))
    out["new strip instance's strategies"] = hash_of(q.get_strategies())
    return out


# ------------------------------------------------------------ running together
def interleaved(cases, ps, rng, mon):
    gens = [script(p, c) for p, c in zip(ps, cases)]
    out = [[] for _ in ps]
    live = list(range(len(ps)))
    sched = []
    while live:
        k = rng.choice(live)
        sched.append(k)
        try:
            out[k].append(next(gens[k]))
        except StopIteration:
            live.remove(k)
    return out, sched


def nested(cases, ps, rng, mon):
    """At random constructions of one instance, the others go on with their scripts."""
    gens = [script(p, c) for p, c in zip(ps, cases)]
    out = [[] for _ in ps]
    busy = set()
    done = set()
    sched = []

    def step(k):
        busy.add(k)
        try:
            out[k].append(next(gens[k]))
        except StopIteration:
            done.add(k)
        finally:
            busy.discard(k)

    def hook(k, p):
        orig = p.solve

        def solve(*a, **kw):
            if rng.random() < 0.3:
                free = [j for j in range(len(ps)) if j not in busy and j not in done]
                if free:
                    j = rng.choice(free)
                    sched.append((k, j))
                    mon.ev("nested_constructions")
                    step(j)
            orig(*a, **kw)

        p.solve = solve

    for k, p in enumerate(ps):
        hook(k, p)
    while len(done) < len(ps):
        free = [j for j in range(len(ps)) if j not in done]
        step(rng.choice(free))
    return out, sched


class Token:
    """Hands one token between threads at events of hyperpack's code, as the rng says."""

    def __init__(self, n, rng, density):
        self.rng = rng
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = set(range(n))
        self.sched = []
        self.density = density
        self.switches = 0

    def wait(self, k):
        self.sems[k].acquire()

    def point(self, k):
        if self.rng.random() < self.density and len(self.live) > 1:
            j = self.rng.choice(sorted(self.live))
            if j != k:
                self.switches += 1
                if len(self.sched) < 5000:
                    self.sched.append(j)
                self.sems[j].release()
                self.sems[k].acquire()

    def finish(self, k):
        self.live.discard(k)
        if self.live:
            self.sems[self.rng.choice(sorted(self.live))].release()


_cache = {}


def ours(fn):
    if fn not in _cache:
        _cache[fn] = env.in_repo(fn)
    return _cache[fn]


def threaded(cases, ps, rng, mon, scheduled):
    n = len(ps)
    out = [None] * n
    errors = []
    token = Token(n, rng, rng.choice([0.003, 0.02, 0.1])) if scheduled else None
    lines = scheduled and rng.random() < 0.5
    start = threading.Barrier(n)

    def body(k):
        def local(frame, event, arg):
            if event == "line":
                token.point(k)
            return local

        def tracer(frame, event, arg):
            if ours(frame.f_code.co_filename):
                token.point(k)
                return local if lines else None
            return None

        try:
            if scheduled:
                token.wait(k)
                sys.settrace(tracer)
            else:
                start.wait(30)
            out[k] = list(script(ps[k], cases[k]))
        except BaseException as e:
            errors.append(e)
        finally:
            sys.settrace(None)
            if scheduled:
                token.finish(k)

    ths = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
    old = sys.getswitchinterval()
    if not scheduled:
        sys.setswitchinterval(1e-6)
    try:
        for t in ths:
            t.start()
        if scheduled:
            token.sems[rng.randrange(n)].release()
        for t in ths:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    if scheduled:
        mon.ev("switches", token.switches)
        return out, token.sched
    return out, None


_base = None


def check(case, mon):
    global _base
    hp()
    vclock.Clock.on, vclock.Clock.source = True, source
    _timed_out[0] = 0
    if _base is None:
        _base = defaults()
    cases = case["insts"]
    rng = rng_for("sched", case["sched"])
    want = [alone(c) for c in cases]
    inputs = None
    if case["shared"]:
        mon.ev("shared_inputs")
        c0 = cases[0]
        inputs = {"items": G.items_of(c0), "settings": G.settings_of(c0)}
        if c0["mode"] == "bin":
            inputs["containers"] = G.containers_of(c0)
        for c in cases:
            c["rotation"] = c0["rotation"]
        want = [alone(dict(c)) for c in cases]
    mon.ev("searches_out_of_time", _timed_out[0])
    ps = [make(c, inputs) for c in cases]
    mode = case["mode"]
    mon.ev("mode_" + mode)
    if mode == "interleaved":
        got, sched = interleaved(cases, ps, rng, mon)
    elif mode == "nested":
        got, sched = nested(cases, ps, rng, mon)
    else:
        got, sched = threaded(cases, ps, rng, mon, mode == "scheduled")
    for k, (w, g) in enumerate(zip(want, got)):
        mon.ev("results_compared", len(w))
        if w != g:
            j = next((j for j in range(len(w)) if j >= len(g) or w[j] != g[j]), 0)
            a, b = w[j], g[j] if j < len(g) else None
            keys = [x for x in a if not b or a[x] != b[x]]
            mon.bad(
                f"differs_{mode}",
                f"instance {k}, operation {j} {cases[k]['ops'][j]} among {len(cases)} instances "
                f"({mode}): {keys}: alone {[a[x] for x in keys]}, together "
                f"{[b[x] for x in keys] if b else None}",
            )
            return
    now = defaults()
    mon.ev("class_defaults_checked")
    if now != _base:
        bad = [k for k in _base if now.get(k) != _base[k]]
        if bad:
            mon.bad(
                "class_default",
                f"{bad[:3]} were changed: {_base[bad[0]]} -> {now.get(bad[0])}"[:1500],
            )
            _base = now
            return
    if sched:
        mon.sig(mode, hashlib.sha256(repr(sched).encode()).hexdigest(), [c["items"] for c in cases])
    elif mode == "threads":
        mon.sig(mode, case["sched"])
