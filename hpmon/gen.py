"""Workload generators: packing problems as plain JSON data, and how to build them."""
import copy
import random

from .env import hp

CLASSES = ("A", "B", "C", "D", "A_", "B_", "A__", "B__", "E", "F")
ODD_IDS = [
    "", " ", "0", "-1", "strip-pack-container", "ітем", "箱", "a" * 60, "O", "A__",
    "None", "W", "Xo", "\n", "item 1", "{}", "%s", "é", "😀", "[]",
    "a.1", "a.2", "x.html", "A", "a",
]


# ---------------------------------------------------------------- pieces
def item_ids(rng, n, odd=None):
    odd = rng.random() < 0.12 if odd is None else odd
    if odd:
        base = rng.sample(ODD_IDS, min(n, len(ODD_IDS)))
        base += [f"x{i}" for i in range(n - len(base))]
        rng.shuffle(base)
        return base
    ids = [f"i{i}" for i in range(n)]
    if rng.random() < 0.3:
        rng.shuffle(ids)
    return ids


def guillotine(rng, W, L, n):
    """About n rectangles that partition W x L exactly."""
    rects = [(W, L)]
    tries = 0
    while len(rects) < n and tries < 10 * n:
        tries += 1
        i = rng.randrange(len(rects))
        w, l = rects[i]
        if rng.random() < 0.5 and w > 1:
            c = rng.randint(1, w - 1)
            rects[i : i + 1] = [(c, l), (w - c, l)]
        elif l > 1:
            c = rng.randint(1, l - 1)
            rects[i : i + 1] = [(w, c), (w, l - c)]
    rng.shuffle(rects)
    return rects


def item_dims(rng, n, W, L, family=None):
    f = family or rng.choice(
        ["uniform", "uniform", "small", "thin", "equal", "mix", "guillotine", "wide", "few"]
    )
    if f == "uniform":
        return [(rng.randint(1, W), rng.randint(1, L)) for _ in range(n)]
    if f == "small":
        a, b = max(1, W // 2), max(1, L // 2)
        return [(rng.randint(1, a), rng.randint(1, b)) for _ in range(n)]
    if f == "crowd":
        return [(rng.randint(1, 4), rng.randint(1, 4)) for _ in range(n)]
    if f == "grains":
        return [(rng.randint(1, 2), rng.randint(1, 2)) for _ in range(n)]
    if f == "thin":
        out = []
        for _ in range(n):
            k = rng.randint(1, max(W, L))
            t = rng.choice([1, 1, 1, 2])
            out.append((k, t) if rng.random() < 0.5 else (t, k))
        return out
    if f == "equal":
        d = (rng.randint(1, max(1, W // 2)), rng.randint(1, max(1, L // 2)))
        return [d if rng.random() < 0.8 else d[::-1] for _ in range(n)]
    if f == "mix":
        m = max(W, L)
        return [(rng.randint(1, m + 2), rng.randint(1, m + 2)) for _ in range(n)]
    if f == "wide":
        return [(rng.randint(max(1, W // 2), W), rng.randint(1, max(1, L // 4))) for _ in range(n)]
    if f == "few":
        kinds = [(rng.randint(1, max(1, W * 2 // 3)), rng.randint(1, max(1, L * 2 // 3))) for _ in range(3)]
        return [rng.choice(kinds) for _ in range(n)]
    rects = guillotine(rng, W, L, n)
    if rng.random() < 0.5:
        rects = [r if rng.random() < 0.5 else r[::-1] for r in rects]
    return rects


def strategy(rng, kind=None):
    """A potential points strategy: full permutation, the usual suffix, subset, empty."""
    k = kind or rng.choice(["default", "default", "perm", "perm", "perm", "suffix", "suffix2"])
    c = list(CLASSES)
    if k == "default":
        return None
    if k == "perm":
        rng.shuffle(c)
        return c
    if k in ("suffix", "suffix2"):
        suf = ["A__", "B__", "F", "E"] if k == "suffix" else ["B__", "A__", "F", "E"]
        head = [x for x in c if x not in suf]
        rng.shuffle(head)
        return head + suf
    rng.shuffle(c)
    return c[: rng.randint(0, len(c))]


def is_full(strat):
    return strat is None or len(strat) == len(CLASSES)


# ---------------------------------------------------------------- problems
def bin_problem(rng, size="small", n_cont=None, rotation=None, family=None, n=None):
    if size == "tiny":
        hi, nmax = 5, 5
    elif size == "small":
        hi, nmax = 12, 12
    elif size == "mid":
        hi, nmax = 40, 25
    else:
        hi, nmax = 90, 60
    k = n_cont or rng.choice([1, 1, 1, 2, 2, 3, 4] * 4 + [5, 6, 8])
    if size == "large" and n is None and n_cont is None and rng.random() < 0.02:
        # many containers, or many items
        r = rng.random()
        if r < 0.5:
            k, hi, n = rng.randint(10, 40), 25, rng.randint(30, 80)
        elif r < 0.75:
            k, hi, n, family = rng.randint(10, 60), 7, rng.randint(150, 500), rng.choice(["crowd", "grains", "grains"])
        else:
            hi, n, family = 80, rng.randint(150, 400), rng.choice(["crowd", None])
    elif size == "large" and n is None and rng.random() < 0.04:
        # beyond what one byte counts
        hi, nmax, k = rng.choice([150, 300, 600]), 140, rng.choice([1, 1, 2])
        n = rng.randint(20, nmax)
    conts = []
    for i in range(k):
        W, L = rng.randint(1 if size != "large" else min(20, hi // 2), hi), rng.randint(1, hi)
        if rng.random() < 0.2:
            L = W
        conts.append([f"c{i}", W, L])
    if rng.random() < 0.1 and k <= len(ODD_IDS):
        names = rng.sample(ODD_IDS, k)
        conts = [[nm, W, L] for nm, (_, W, L) in zip(names, conts)]
    if k > 1 and rng.random() < 0.3:
        rng.shuffle(conts)
    # items and containers have names of their own: they may coincide
    shared = rng.random() < 0.05
    n = n or rng.randint(1, nmax)
    fam = family
    if fam is None and size != "tiny" and rng.random() < 0.05:
        return rng.choice([stretched, crumbs])(rng, min(n, 25), rotation)
    if fam is None and rng.random() < 0.12:
        # perfect partition of all the containers
        dims = []
        for _, W, L in conts:
            dims += guillotine(rng, W, L, max(1, n // k))
    else:
        ref = rng.choice(conts)
        dims = item_dims(rng, n, ref[1], ref[2], fam)
    ids = item_ids(rng, len(dims))
    if shared:
        own = [c for c, _, _ in conts if c not in ids][: len(ids)]
        for at, name in zip(rng.sample(range(len(ids)), len(own)), own):
            ids[at] = name
    scale = rng.choice([1, 1, 1, 1, 2, 3]) if size in ("tiny", "small") else 1
    if scale > 1:
        conts = [[c, W * scale, L * scale] for c, W, L in conts]
        dims = [(w * scale, l * scale) for w, l in dims]
    case = {
        "mode": "bin",
        "containers": conts,
        "items": [[i, w, l] for i, (w, l) in zip(ids, dims)],
        "rotation": rng.choice([None, True, False, False]) if rotation is None else rotation,
    }
    return case


def stretched(rng, n, rotation=None):
    """Long (or wide) containers, very long and very short items on top of each other."""
    W, L = rng.randint(2, 12), rng.randint(60, 300)
    if rng.random() < 0.1:
        W, L = rng.randint(1, 4), rng.randint(1000, 5000)
    dims = []
    for _ in range(n):
        k = rng.choice([1, 1, 2, 3, rng.randint(30, L), rng.randint(30, L)])
        dims.append((rng.randint(1, max(1, W * 2 // 3)), k))
    flip = rng.random() < 0.4
    conts = [["c0", W, L]] + ([["c1", W, rng.randint(60, L)]] if rng.random() < 0.3 else [])
    if flip:
        conts = [[c, L, W] for c, W, L in conts]
        dims = [(l, w) for w, l in dims]
    return {
        "mode": "bin",
        "containers": conts,
        "items": [[i, w, l] for i, (w, l) in zip(item_ids(rng, n), dims)],
        "rotation": rng.choice([None, True, False, False]) if rotation is None else rotation,
    }


def crumbs(rng, n, rotation=None):
    """Big containers that big items fill but for a cell or a few; tiny items to follow."""
    W, L = rng.randint(25, 120), rng.randint(25, 120)
    dims = []
    if rng.random() < 0.5:
        # columns side by side, the last one shorter than the container
        cut = sorted(rng.sample(range(1, W - 1), rng.randint(1, 4)))
        widths = [b - a for a, b in zip([0] + cut, cut + [W])]
        dims = [(w, L) for w in widths[:-1]]
        last = widths[-1]
        if last > 1 and rng.random() < 0.7:
            dims += [(last - 1, L), (1, L - 1)]
        else:
            dims.append((last, L - 1))
    else:
        dims = [(W, L - 1), (W - rng.randint(1, 2), 1)]
    dims += [(rng.randint(1, 2), rng.randint(1, 2)) for _ in range(rng.randint(1, max(1, n - len(dims))))]
    flip = rng.random() < 0.4
    conts = [["c0", W, L]] + ([["c1", rng.randint(1, 9), rng.randint(1, 9)]] if rng.random() < 0.3 else [])
    if flip:
        conts = [[c, l, w] for c, w, l in conts]
        dims = [(l, w) for w, l in dims]
    return {
        "mode": "bin",
        "containers": conts,
        "items": [[i, w, l] for i, (w, l) in zip(item_ids(rng, len(dims)), dims)],
        "rotation": rng.choice([None, True, False, False]) if rotation is None else rotation,
    }


def strip_problem(rng, size="small", rotation=None, n=None, min_height=None, tight=None):
    hi, nmax = {"tiny": (4, 5), "small": (8, 10), "mid": (14, 18), "large": (20, 40)}[size]
    W = rng.randint(1, hi)
    if size == "large" and n is None and rng.random() < 0.06:
        W, n = rng.randint(20, 120), rng.randint(10, 110)
    n = n or rng.randint(1, nmax)
    H = W * 10
    fam = rng.choice(["uniform", "small", "thin", "equal", "wide", "few", "guillotine", "over"])
    if fam == "over":
        dims = [(rng.randint(1, W + 2), rng.randint(1, W + 2)) for _ in range(n)]
    else:
        dims = item_dims(rng, n, W, max(1, min(H, rng.choice([W, 2 * W]))), fam)
        dims = [(min(w, W), l) for w, l in dims] if rng.random() < 0.8 else dims
    ids = item_ids(rng, len(dims))
    case = {
        "mode": "strip",
        "W": W,
        "items": [[i, w, l] for i, (w, l) in zip(ids, dims)],
        "rotation": rng.choice([None, True, False, False]) if rotation is None else rotation,
    }
    if rng.random() < 0.35 if tight is None else tight:
        area = sum(w * l for w, l in dims)
        case["height"] = max(1, rng.choice([area // W, area // W + 2, rng.randint(1, H)]))
    if rng.random() < 0.2 if min_height is None else min_height:
        case["min_height"] = rng.randint(1, case.get("height", H))
    return case


def problem(rng, size="small", **kw):
    if rng.random() < 0.3:
        kw.pop("n_cont", None)
        kw.pop("family", None)
        return strip_problem(rng, size, **kw)
    return bin_problem(rng, size, **kw)


_bench = None


def benchmark(rng, sets=("C1", "C2", "C3")):
    """A shuffled published benchmark instance."""
    global _bench
    hp()
    from hyperpack.benchmarks.datasets import hopper_and_turton_2000 as ht  # noqa

    name = rng.choice(sets)
    data = getattr(ht, name)
    conts = [[k, v["W"], v["L"]] for k, v in data.containers.items()]
    keys = [k for k in vars(data) if k.startswith("items")]
    its = getattr(data, rng.choice(sorted(keys)))
    items = [[k, v["w"], v["l"]] for k, v in its.items()]
    if rng.random() < 0.7:
        rng.shuffle(items)
    return {"mode": "bin", "containers": conts, "items": items, "rotation": rng.choice([None, False])}


# ---------------------------------------------------------------- building
def settings_of(case, **extra):
    s = {}
    by_class = case.get("by_class")
    if case.get("rotation") is not None and not by_class:
        s["rotation"] = case["rotation"]
    if case.get("max_time") is not None and not by_class:
        s["max_time_in_seconds"] = case["max_time"]
    if case.get("workers") is not None:
        s["workers_num"] = case["workers"]
    s.update(copy.deepcopy(extra))
    return s


def items_of(case):
    return {i: {"w": w, "l": l} for i, w, l in case["items"]}


def containers_of(case):
    return {c: {"W": W, "L": L} for c, W, L in case["containers"]}


def build(case, cls=None, **extra):
    h = hp()
    cls = cls or h.HyperPack
    if case.get("limit") is not None:
        # searches of bigger problems, cut to some neighbours of each node
        cls = type(cls.__name__, (cls,), {"MAX_NEIGHBORS_THROTTLE": case["limit"]})
    if case.get("by_class"):
        # the settings are the defaults of a subclass
        own = {}
        if case.get("rotation") is not None:
            own["ROTATION_DEFAULT_VALUE"] = case["rotation"]
        if case.get("max_time") is not None:
            own["MAX_TIME_IN_SECONDS_DEFAULT_VALUE"] = case["max_time"]
        cls = type(cls.__name__, (cls,), own)
    kw = {"items": items_of(case), "settings": settings_of(case, **extra)}
    if case["mode"] == "strip":
        kw["strip_pack_width"] = case["W"]
    else:
        kw["containers"] = containers_of(case)
    p = cls(**kw)
    if case.get("strategy") is not None:
        p.potential_points_strategy = tuple(case["strategy"])
    if case.get("height") is not None:
        p.container_height = case["height"]
    if case.get("min_height") is not None:
        p.container_min_height = case["min_height"]
    return p


def gen_via(rng, case):
    """How else to reach a case's problem than by the constructor alone."""
    return {
        "seed": rng.randrange(10**6),
        "cont": rng.choice(["assign", "dims", "append", "drop", None]),
        "items": rng.choice(["assign", "dims", "append", "drop", None]),
        "before": rng.choice([None, "solve", "solve", "local", "hyper"]),
        "settings": rng.random() < 0.4,
        "strategy": rng.random() < 0.4,
    }


def _detour(rng, target, how, key):
    """(start data, function that edits the structure from start to target)."""
    k1, k2 = key
    near = lambda v: max(1, v + rng.choice([-2, -1, 1, 2]))  # noqa: E731
    if how == "append" and len(target) > 1:
        ids = list(target)
        keep = ids[: rng.randint(1, len(ids) - 1)]
        start = {i: dict(target[i]) for i in keep}

        def edit(s):
            for i in ids:
                if i not in start:
                    s[i] = dict(target[i])

    elif how == "drop":
        start = {i: dict(d) for i, d in target.items()}
        extra = [f"extra{k}" for k in range(rng.randint(1, 3))]
        for e in extra:
            d = rng.choice(list(target.values()))
            start[e] = {k1: near(d[k1]), k2: near(d[k2])}

        def edit(s):
            for e in extra:
                del s[e]

    else:
        ids = list(target)
        start = {i: dict(d) for i, d in target.items()}
        changed = rng.sample(ids, rng.randint(1, len(ids)))
        for i in changed:
            start[i] = {k1: near(target[i][k1]), k2: near(target[i][k2])}

        def edit(s):
            for i in changed:
                s[i][k1] = target[i][k1]
                s[i][k2] = target[i][k2]

    return start, edit


def build_via(case, cls=None, **extra):
    """As build, but after a detour: other data first, an operation on them, then edits."""
    via = case.get("via")
    if not via:
        return build(case, cls, **extra)
    rng = random.Random(via["seed"])
    items = items_of(case)
    first = dict(case)
    edit_items = edit_conts = None
    if via["items"] == "assign":
        n = rng.randint(1, 6)
        start = {f"o{k}": {"w": rng.randint(1, 5), "l": rng.randint(1, 5)} for k in range(n)}
    elif via["items"]:
        start, edit_items = _detour(rng, items, via["items"], ("w", "l"))
    else:
        start = items
    first["items"] = [[i, d["w"], d["l"]] for i, d in start.items()]
    if case["mode"] == "bin":
        conts = containers_of(case)
        if via["cont"] == "assign":
            n = rng.randint(1, 4)
            start = {f"o{k}": {"W": rng.randint(1, 9), "L": rng.randint(1, 9)} for k in range(n)}
        elif via["cont"]:
            start, edit_conts = _detour(rng, conts, via["cont"], ("W", "L"))
        else:
            start = conts
        first["containers"] = [[c, d["W"], d["L"]] for c, d in start.items()]
    first["height"] = first["min_height"] = None
    if via["settings"]:
        first["rotation"] = rng.choice([None, True, False])
    if via["strategy"]:
        first["strategy"] = strategy(rng, rng.choice(["perm", "subset"]))
    p = build(first, cls, **extra)
    small = len(first["items"]) <= 8
    if via["before"] == "solve" or (via["before"] and not small):
        p.solve()
    elif via["before"] and hasattr(p, "local_search"):
        if via["before"] == "local":
            p.local_search()
        else:
            own = vars(p).get("get_strategies")
            p.get_strategies = lambda **k: [p.potential_points_strategy]
            workers = p.settings.pop("workers_num", None)
            p.validate_settings()
            p.hypersearch(orientation=None, sorting_by=None)
            if workers is not None:
                p.settings["workers_num"] = workers
                p.validate_settings()
            del p.get_strategies
            if own is not None:
                p.get_strategies = own
    if via["settings"]:
        p.settings = settings_of(case, **extra)
    if via["strategy"]:
        d = type(p).DEFAULT_POTENTIAL_POINTS_STRATEGY
        p.potential_points_strategy = tuple(case["strategy"]) if case.get("strategy") is not None else d
    if via["items"] == "assign":
        p.items = items
    elif edit_items:
        edit_items(p.items)
    if case["mode"] == "bin":
        if via["cont"] == "assign":
            p.containers = conts
        elif edit_conts:
            edit_conts(p.containers)
    else:
        p.reset_container_height()
        if case.get("height") is not None:
            p.container_height = case["height"]
        if case.get("min_height") is not None:
            p.container_min_height = case["min_height"]
    return p


# ---------------------------------------------------------------- shrinking
def shrink_problem(case):
    """Smaller variants of a problem case, biggest steps first."""
    items = case["items"]
    n = len(items)
    if case.get("via"):
        yield {k: v for k, v in case.items() if k != "via"}
        for key in ("items", "cont", "before", "settings", "strategy"):
            if case["via"][key]:
                yield dict(case, via=dict(case["via"], **{key: None}))

    def with_items(its, seq=True):
        c = dict(case)
        c["items"] = its
        ids = {i[0] for i in its}
        for key in ("sequence",):
            if c.get(key) is not None:
                c[key] = [i for i in c[key] if i in ids]
        return c

    if n > 1:
        step = n // 2
        while step >= 1:
            for a in range(0, n, step):
                rest = items[:a] + items[a + step :]
                if rest:
                    yield with_items(rest)
            step //= 2
    if case["mode"] == "bin" and len(case["containers"]) > 1:
        for i in range(len(case["containers"])):
            c = dict(case)
            c["containers"] = case["containers"][:i] + case["containers"][i + 1 :]
            yield c
    for key in ("sequence", "strategy", "min_height", "height", "rotation"):
        if case.get(key) is not None:
            c = dict(case)
            c[key] = None
            yield c
    for i, (iid, w, l) in enumerate(items):
        for d in ((w // 2, l), (w, l // 2), (w - 1, l), (w, l - 1)):
            if min(d) >= 1:
                yield with_items(items[:i] + [[iid, *d]] + items[i + 1 :])
    if case["mode"] == "bin":
        for i, (cid, W, L) in enumerate(case["containers"]):
            for d in ((W - 1, L), (W, L - 1)):
                if min(d) >= 1:
                    c = dict(case)
                    c["containers"] = (
                        case["containers"][:i] + [[cid, *d]] + case["containers"][i + 1 :]
                    )
                    yield c
