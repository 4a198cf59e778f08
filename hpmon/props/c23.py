"""C23: generated and benchmark problems are valid and as asked."""
import contextlib
import copy
import importlib
import io
import math
import random

from .. import oracle
from ..env import hp

CASES = {"quick": 12000, "thorough": 300000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "generate_problem_data over random averages (given and defaulted, extreme aspect ratios) and "
    "random seeds, plus all benchmark data sets; non-trivial: distinct generated data"
)
REQUIRED = {"generated": 10000, "items_generated": 100000, "instances_built": 10000,
            "defaults_used": 2000, "spread_checked": 300, "benchmarks_checked": 21,
            "average_of_one": 300}
ASSUMPTIONS = ["the documented averages are read as at most 10% (containers) and 60% (items) away, "
               "rounded outwards; means are judged at 6 standard errors"]
KEYS = ("containers_num", "containers_width", "containers_length", "items_num", "items_width",
        "items_length")
DEFAULTS = dict(zip(KEYS, (1, 50, 50, 30, 5, 3)))
# containers and item counts as published by Hopper and Turton
PUBLISHED = {
    "C1": (20, 20, (16, 17, 16)), "C2": (40, 15, (25, 25, 25)), "C3": (60, 30, (28, 29, 28)),
    "C4": (60, 60, (49, 49, 49)), "C5": (60, 90, (73, 73, 73)), "C6": (80, 120, (97, 97, 97)),
    "C7": (160, 240, (196, 197, 196)),
}


def gen(rng, tier):
    kw = {}
    if rng.random() < 0.7:
        kw["containers_num"] = rng.choice([1, 1, 2, 3, 7, 7, rng.randint(8, 40)])
    for k, hi in (("containers_width", 200), ("containers_length", 200), ("items_width", 40),
                  ("items_length", 40)):
        if rng.random() < 0.75:
            kw[k] = rng.choice([1, 2, 3, rng.randint(1, hi), rng.randint(1, hi)])
    if rng.random() < 0.7:
        kw["items_num"] = rng.choice([1, 2, 5, 12, 30, rng.randint(13, 130)])
    spread = rng.random() < 0.03
    if spread:
        kw["items_num"] = 400
        kw["containers_num"] = rng.choice([1, 1, 30])
    return {"kw": kw, "seed": rng.randrange(1 << 40), "spread": spread}


def corpus(tier):
    for c in PUBLISHED:
        for s in "abc":
            yield {"bench": [c, s]}


def shrink(case):
    for k in case.get("kw", {}):
        yield dict(case, kw={a: b for a, b in case["kw"].items() if a != k})


def int_ok(v):
    return isinstance(v, int) and not isinstance(v, bool) and v > 0


def entries(d, keys):
    return isinstance(d, dict) and all(
        isinstance(i, str) and isinstance(x, dict) and set(x) == set(keys)
        and all(int_ok(v) for v in x.values())
        for i, x in d.items()
    )


def bench(case, mon):
    h = hp()
    c, s = case["bench"]
    W, L, counts = PUBLISHED[c]
    ht = importlib.import_module("hyperpack.benchmarks.datasets.hopper_and_turton_2000")
    mod = getattr(ht, c)
    conts = getattr(mod, "containers")
    items = getattr(mod, "items_" + s)
    where = f"benchmark {c}{s}"
    mon.ev("benchmarks_checked")
    if not entries(conts, "WL") or not entries(items, "wl"):
        return mon.bad("benchmark_format", f"{where}: {conts}")
    if [(d["W"], d["L"]) for d in conts.values()] != [(W, L)]:
        return mon.bad("benchmark_container", f"{where}: {conts}, published {W}x{L}")
    if len(items) != counts["abc".index(s)]:
        return mon.bad("benchmark_count", f"{where}: {len(items)} items")
    area = sum(d["w"] * d["l"] for d in items.values())
    if area != W * L:
        return mon.bad("benchmark_area", f"{where}: items' area {area}, container {W * L}")
    mon.sig(where)
    before = copy.deepcopy((conts, items))
    p = h.HyperPack(containers=conts, items=items)
    p.solve()
    cid = next(iter(conts))
    rects = list(p.solution[cid].items())
    if oracle.first_overlap(rects) or not rects:
        mon.bad("benchmark_solve", f"{where}: {p.solution}")
    if (conts, items) != before:
        mon.bad("benchmark_changed", f"{where}: the data set was changed by solving")


def check(case, mon):
    h = hp()
    if "bench" in case:
        return bench(case, mon)
    from hyperpack.utils import generate_problem_data

    kw = case["kw"]
    state = random.getstate()
    random.seed(case["seed"])
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            data = generate_problem_data(**kw)
    finally:
        random.setstate(state)
    a = dict(DEFAULTS, **kw)
    where = f"{kw} seed {case['seed']}"
    mon.ev("generated")
    if len(kw) < 6:
        mon.ev("defaults_used")
    if a["items_width"] == 1 or a["items_length"] == 1:
        mon.ev("average_of_one")
    if not isinstance(data, dict) or set(data) != {"containers", "items"}:
        return mon.bad("format", f"{where}: {data!r}")
    conts, items = data["containers"], data["items"]
    if not entries(conts, "WL") or not entries(items, "wl"):
        return mon.bad("invalid_entry", f"{where}: {data}")
    if len(conts) != a["containers_num"]:
        return mon.bad("containers_num", f"{where}: {len(conts)} containers")
    if len(items) != a["items_num"] * a["containers_num"]:
        return mon.bad("items_num", f"{where}: {len(items)} items")
    mon.ev("items_generated", len(items))
    for struct, key, avg, f in (
        (conts, "W", a["containers_width"], 0.1),
        (conts, "L", a["containers_length"], 0.1),
        (items, "w", a["items_width"], 0.6),
        (items, "l", a["items_length"], 0.6),
    ):
        dev = max(1, math.ceil(avg * f))
        vals = [d[key] for d in struct.values()]
        if min(vals) < max(1, avg - dev) or max(vals) > avg + dev:
            return mon.bad(
                f"spread_{key}", f"{where}: {key} from {min(vals)} to {max(vals)}, average {avg}"
            )
        if case["spread"] and len(vals) >= 400 and avg > 1:
            mon.ev("spread_checked")
            m = sum(vals) / len(vals)
            if abs(m - avg) > 6 * dev / math.sqrt(len(vals)) + 1e-9:
                return mon.bad(f"mean_{key}", f"{where}: mean {key} {m}, asked {avg}")
            if avg >= 5 and len(set(vals)) < 3:
                return mon.bad(f"constant_{key}", f"{where}: only {set(vals)}")
    mon.sig(conts, items)
    p = h.HyperPack(**data)
    mon.ev("instances_built")
    if len(p.items) != len(items) or len(p.containers) != len(conts):
        return mon.bad("instance", f"{where}: the instance lost entries")
    if len(items) < 40:
        p.solve()
