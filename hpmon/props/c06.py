"""C06: same problem, sequence and strategy give the same result, anywhere."""
import json
import os
import random
import subprocess
import sys

from .. import gen as G
from .. import oracle, runs
from ..env import hp

CASES = {"quick": 360, "thorough": 9000}
CAP = {"quick": 80, "thorough": 720}
RULE = (
    "batches of random problems run (construction, local search, single worker hypersearch incl. "
    "the whole default strategy set) on two fresh instances, on an instance with other history, "
    "under renamed ids, and a batch again in another interpreter with another hash seed; "
    "non-trivial: at least two items placed"
)
REQUIRED = {"compared_fresh": 1000, "compared_other_process": 1000, "compared_history": 700,
            "compared_renamed": 1000, "compared_reached_by_edits": 200, "hypersearches": 50, "full_hypersearches": 5}
ASSUMPTIONS = ["workloads end long before the 60 s default time limit"]


def gen(rng, tier):
    batch = []
    for k in range(12):
        case = runs.gen_run(rng, {"solve": 45, "seq": 20, "local": 25, "hyper": 10})
        if case["run"] == "hyper":
            case["rotation"] = case["rotation"] or None
        batch.append(case)
    if rng.random() < 0.12:
        case = G.bin_problem(rng, "tiny", n=rng.randint(3, 5), family="uniform")
        del case["items"][5:]
        case.update(run="hyper", strategies=None, strategy=None, presort=["wide", ["area", True]])
        batch.append(case)
    return {"batch": batch, "hashseed": rng.randint(1, 2**32 - 1), "history": rng.random()}


def shrink(case):
    b = case["batch"]
    if len(b) > 1:
        for i in range(len(b)):
            yield dict(case, batch=[b[i]])
    else:
        for c in runs.shrink(b[0]):
            yield dict(case, batch=[c])


def prepare(case, ren=None, cren=None):
    c = dict(case)
    if ren:
        c["items"] = [[ren[i], w, l] for i, w, l in case["items"]]
        if case.get("sequence") is not None:
            c["sequence"] = [ren[i] for i in case["sequence"]]
    if cren and case["mode"] == "bin":
        c["containers"] = [[cren[i], w, l] for i, w, l in case["containers"]]
    return c


def operate(p, case):
    run = case["run"]
    if run == "solve":
        p.solve()
    elif run == "seq":
        p.solve(sequence=case["sequence"])
    elif run == "local":
        p.local_search()
    else:
        if case.get("strategies"):
            runs.fix_strategies(p, case["strategies"])
        o, s = case["presort"]
        p.hypersearch(orientation=o, sorting_by=tuple(s) if s else None)


def result(p, case):
    bs = None
    if case["run"] == "hyper" and p.best_strategy is not None:
        bs = list(p.best_strategy)
    return [
        [[c, sorted([i, list(e)] for i, e in s.items())] for c, s in p.solution.items()],
        sorted([c, v] for c, v in p.obj_val_per_container.items()),
        bs,
    ]


def run_one(case):
    p = G.build(case)
    operate(p, case)
    return result(p, case)


def rename(res, ren, cren):
    sol, vals, bs = res
    return [
        [[cren.get(c, c), sorted([ren[i], e] for i, e in s)] for c, s in sol],
        sorted([cren.get(c, c), v] for c, v in vals),
        bs,
    ]


def disturb(p, case, rng):
    """Operations that must leave no trace in the next one (bins)."""
    ids = list(p.items)
    small = len(ids) < 8
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(7)
        if k == 5:
            # other data, and back
            s, a = rng.choice([(p.items, "wl"), (p.containers, "WL")])
            i, a = rng.choice(list(s)), rng.choice(a)
            v = s[i][a]
            s[i][a] = max(1, v + rng.choice([-2, -1, 1, 2, 3]))
            p.local_search() if small and rng.random() < 0.6 else p.solve()
            s[i][a] = v
        elif k == 6 and small:
            runs.fix_strategies(p, [p.potential_points_strategy])
            p.hypersearch(orientation=None, sorting_by=None)
            del p.get_strategies
        elif k == 0:
            p.solve()
        elif k == 1:
            seq = ids[:]
            rng.shuffle(seq)
            p.solve(sequence=seq[: rng.randint(1, len(seq))])
        elif k == 2 and len(ids) < 8:
            p.local_search(throttle=rng.random() < 0.5)
        elif k == 3:
            keep = p.potential_points_strategy
            p.potential_points_strategy = tuple(G.strategy(rng, "subset"))
            p.solve()
            p.potential_points_strategy = keep
        else:
            p.log_solution()


def check(case, mon):
    hp()
    rng = random.Random(case["history"])
    results = []
    for c in case["batch"]:
        r1 = run_one(c)
        results.append(r1)
        mon.ev("compared_fresh")
        if c["run"] == "hyper":
            mon.ev("hypersearches")
            if not c.get("strategies"):
                mon.ev("full_hypersearches")
        r2 = run_one(c)
        if r2 != r1:
            mon.bad("fresh_instance", f"{c['run']}: {r1} then on a fresh instance {r2}")
        if c["mode"] == "bin":
            p = G.build(c)
            disturb(p, c, rng)
            operate(p, c)
            mon.ev("compared_history")
            r3 = result(p, c)
            if r3 != r1:
                mon.bad("history", f"{c['run']}: {r1} but after other operations {r3}")
            if c["run"] != "hyper":
                operate(p, c)
                r4 = result(p, c)
                if r4 != r1:
                    mon.bad("repetition", f"{c['run']}: {r1} but repeated {r4}")
        if c.get("via"):
            p = G.build_via(c)
            operate(p, c)
            mon.ev("compared_reached_by_edits")
            r7 = result(p, c)
            if r7 != r1:
                mon.bad("reached_by_edits", f"{c['run']}: {r1} but after edits {c['via']} {r7}")
        # order preserving renaming of ids
        ids = sorted(i[0] for i in c["items"])
        ren = {i: f"z{rng.choice('abc')}{k:05d}" for k, i in enumerate(ids)}
        ren = dict(zip(ids, sorted(ren.values())))
        cren = {}
        if c["mode"] == "bin":
            cren = {x[0]: f"bin {k}" for k, x in enumerate(c["containers"])}
        r5 = run_one(prepare(c, ren, cren))
        mon.ev("compared_renamed")
        if r5 != rename(r1, ren, cren):
            mon.bad("renaming", f"{c['run']}: {r1} but with ids {ren} {r5}")
        n = sum(len(s) for _, s in r1[0])
        if n > 1:
            mon.sig(r1)
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = (
        "import sys; sys.dont_write_bytecode=True; sys.path.insert(0, %r)\n"
        "from hpmon.props.c06 import child; child()" % here
    )
    pr = subprocess.run(
        [sys.executable, "-c", code], input=json.dumps(case["batch"]), env=env,
        capture_output=True, text=True, timeout=300,
    )
    if pr.returncode != 0:
        raise RuntimeError(pr.stderr[-2000:])
    other = json.loads(pr.stdout)
    for c, r1, r6 in zip(case["batch"], results, other):
        mon.ev("compared_other_process")
        if json.loads(json.dumps(r1)) != r6:
            mon.bad("other_process", f"{c['run']}: {r1} but in another process {r6}")


def child():
    import contextlib
    import io

    batch = json.load(sys.stdin)
    with contextlib.redirect_stdout(io.StringIO()):
        hp()
        out = [run_one(c) for c in batch]
    print(json.dumps(out))
