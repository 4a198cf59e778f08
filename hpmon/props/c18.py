"""C18: sorting and orienting rearrange the items exactly as asked."""
import copy
from fractions import Fraction

from .. import gen as G
from .. import runs
from ..env import hp, listening

CASES = {"quick": 60000, "thorough": 1500000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "random chains of sort_items/orient_items/hypersearch presortings on random item sets (many "
    "ties, extreme ratios, huge sides); non-trivial: the operation had to move or turn an item"
)
REQUIRED = {"edits_between": 10000, "sorts": 30000, "orients": 30000, "ties_seen": 10000, "skipped": 5000,
            "refused_sort": 3000, "refused_orient": 3000, "rotation_off_orient": 3000,
            "presorts": 3000, "moved": 10000, "refused_with_solution": 2000, "turned": 10000}
CRIT = ("area", "perimeter", "longest_side_ratio")


def key(by, d):
    w, l = d["w"], d["l"]
    if by == "area":
        return w * l
    if by == "perimeter":
        return 2 * (w + l)
    return Fraction(max(w, l), min(w, l))


def approx(k):
    return k.numerator / k.denominator


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 5, 8, 15, 30])
    fam = rng.choice(["small", "any", "square", "huge", "ties", "ratio", "close"])
    dims = []
    for _ in range(n):
        if fam == "small":
            d = (rng.randint(1, 4), rng.randint(1, 4))
        elif fam == "any":
            d = (rng.randint(1, 60), rng.randint(1, 60))
        elif fam == "square":
            a = rng.randint(1, 9)
            d = (a, a)
        elif fam == "huge":
            d = (rng.randint(1, 10**9), rng.randint(1, 10**9))
        elif fam == "close":
            # areas and perimeters that only exact arithmetic tells apart
            d = (2 ** rng.choice([31, 53, 64, 200]) + rng.randint(0, 5), rng.randint(1, 2))
        elif fam == "ties":
            d = rng.choice([(2, 6), (6, 2), (3, 4), (4, 3), (1, 12), (12, 1), (4, 4)])
        else:
            k = rng.randint(1, 5)
            d = rng.choice([(k, 2 * k), (3 * k, k), (k, 3 * k), (k, 1)])
        dims.append(d)
    case = {
        "mode": "bin",
        "containers": [["c0", 9, 9]],
        "items": [[i, *d] for i, d in zip(G.item_ids(rng, n), dims)],
        "rotation": rng.choice([None, True, True, False]),
    }
    if rng.random() < 0.2:
        case["mode"] = "strip"
        case["W"] = 5
        del case["containers"]
    ops = []
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if k < 0.45:
            r = rng.random()
            if r < 0.1:
                ops.append(["sort", None])
            elif r < 0.2:
                ops.append(["sort", [rng.choice(["width", "", "AREA", "ratio"]), True]])
            else:
                ops.append(["sort", [rng.choice(CRIT), rng.choice([True, True, False, False, 1, 0])]])
        elif k < 0.95 or n > 8 or fam in ("huge", "close"):
            ops.append(["orient", rng.choice(["wide", "long", "wide", "long", None, "tall", "WIDE"])])
        else:
            ops.append(["presort", rng.choice(["wide", "long", None]),
                        rng.choice([None, [rng.choice(CRIT), rng.random() < 0.5]])])
    if rng.random() < 0.3:
        # the same instance's items change in between
        for _ in range(rng.randint(1, 3)):
            ops.insert(rng.randint(1, len(ops)),
                       ["edit", [rng.randrange(n), rng.choice("wl"), rng.randint(1, 40)]])
        ops.append(["sort", [rng.choice(CRIT), rng.choice([True, True, False, False, 1, 0])]])
    case["ops"] = ops
    case["solved"] = rng.random() < 0.4
    case["root"] = rng.random() < 0.25
    return case


def shrink(case):
    for i in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1 :])
    yield from runs.shrink(case)


def plain(s):
    return [(i, dict((k, s[i][k]) for k in s[i])) for i in s]


def judge_sort(before, after, by, rev, mon, where):
    mon.ev("sorts")
    if sorted(i for i, _ in before) != sorted(i for i, _ in after) or dict(before) != dict(after):
        mon.bad("sort_changes_items", f"{where}: {before} -> {after}")
        return False
    keys = [key(by, d) for _, d in after]
    bad = [
        j
        for j in range(len(keys) - 1)
        if (keys[j] < keys[j + 1] if rev else keys[j] > keys[j + 1])
    ]
    if len(set(keys)) < len(keys):
        mon.ev("ties_seen")
    # ratios closer than a float can tell may come in either order
    bad = [j for j in bad if by != "longest_side_ratio" or approx(keys[j]) != approx(keys[j + 1])]
    if bad:
        mon.bad("sort_order", f"{where}: {after} has {by} values {keys}")
        return False
    if [i for i, _ in before] != [i for i, _ in after]:
        mon.ev("moved")
        mon.sig(by, rev, after)
    return True


def judge_orient(before, after, how, mon, where):
    mon.ev("orients")
    want = []
    for i, d in before:
        lo, hi = sorted((d["w"], d["l"]))
        want.append((i, {"w": hi, "l": lo} if how == "wide" else {"w": lo, "l": hi}))
    if want != after:
        mon.bad("orient", f"{where}: {before} -> {after}")
        return False
    if want != before:
        mon.ev("turned")
        mon.sig(how, after)
    return True


def check(case, mon):
    hp()
    p = G.build(case)
    if case.get("root"):
        mon.ev("root_listeners")
    with listening(case.get("root")) as cap:
        steps(p, case, mon, cap)


def steps(p, case, mon, cap):
    rot = case.get("rotation") is not False
    for step, op in enumerate(case["ops"]):
        where = f"step {step}: {op} rotation {rot}"
        if op[0] == "edit":
            k, side, value = op[1]
            p.items[list(p.items)[k % len(p.items)]][side] = value
            mon.ev("edits_between")
            continue
        if case.get("solved"):
            p.solve()
        stored = copy.deepcopy((p.solution, getattr(p, "obj_val_per_container", None)))
        refused = False
        before = plain(p.items)
        conts = plain(p.containers)
        del cap.records[:]
        if op[0] == "sort":
            by = op[1]
            known = by is None or by[0] in CRIT
            try:
                p.sort_items(sorting_by=None if by is None else tuple(by))
                raised = None
            except NotImplementedError as e:
                raised = e
            if known and raised is not None:
                mon.bad("sort_refused", f"{where}: {raised!r}")
                return
            if not known:
                mon.ev("refused_sort")
                if raised is None:
                    mon.bad("sort_accepted", f"{where}: unknown criterion accepted")
                    return
            after = plain(p.items)
            if by is None or not known:
                mon.ev("skipped")
                refused = True
                if after != before:
                    mon.bad("skipped_changes", f"{where}: {before} -> {after}")
                    return
            elif not judge_sort(before, after, by[0], by[1], mon, where):
                return
        elif op[0] == "orient":
            p.orient_items(orientation=op[1])
            after = plain(p.items)
            warns = [r for r in cap.records if r[0] == "WARNING"]
            if op[1] in ("wide", "long") and rot:
                if not judge_orient(before, after, op[1], mon, where):
                    return
                if warns:
                    mon.bad("orient_warns", f"{where}: {warns}")
            else:
                mon.ev("skipped")
                refused = True
                if after != before:
                    mon.bad("skipped_changes", f"{where}: {before} -> {after}")
                    return
                if op[1] is not None:
                    mon.ev("rotation_off_orient" if not rot else "refused_orient")
                    if not warns:
                        mon.bad("no_warning", f"{where}: refused without a warning")
                        return
                elif warns:
                    mon.bad("orient_warns", f"{where}: {warns}")
        else:
            mon.ev("presorts")
            p.get_strategies = lambda **k: [tuple(hp().HyperPack.DEFAULT_POTENTIAL_POINTS_STRATEGY)]
            # the search itself is not this property's matter
            p.local_search = lambda **k: p.solve()
            p.hypersearch(orientation=op[1], sorting_by=tuple(op[2]) if op[2] else None)
            after = plain(p.items)
            # sides do not affect any criterion: order and sides are judged apart
            ids = {i: d for i, d in before}
            if sorted(ids) != sorted(i for i, _ in after):
                mon.bad("presort_items", f"{where}: {before} -> {after}")
                return
            unturned = [(i, ids[i]) for i, _ in after]
            if op[2]:
                if not judge_sort(before, unturned, op[2][0], op[2][1], mon, where):
                    return
            elif unturned != before:
                mon.bad("presort_order", f"{where}: {before} -> {after}")
                return
            if op[1] and rot:
                if not judge_orient(unturned, after, op[1], mon, where):
                    return
            elif unturned != after:
                mon.bad("presort_turned", f"{where}: {before} -> {after}")
                return
        if refused and case.get("solved"):
            mon.ev("refused_with_solution")
            now = (p.solution, p.obj_val_per_container)
            if now != stored:
                mon.bad("skipped_resets", f"{where}: solution and values {stored} became {now}")
                return
        if plain(p.containers) != conts:
            mon.bad("containers", f"{where}: containers changed")
            return
