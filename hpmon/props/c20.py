"""C20: a strategy is accepted exactly when it is a tuple of distinct point classes."""
import collections
import string

from .. import gen as G
from .. import runs
from ..env import hp

CASES = {"quick": 25000, "thorough": 700000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "random histories of strategy assignments and deletions (valid and invalid) on two instances "
    "interleaved with constructions and searches; what is in force is read back and observed by "
    "constructing; non-trivial: a refused value followed an accepted strategy, or an accepted "
    "strategy changed the construction"
)
REQUIRED = {"accepted": 20000, "refused": 20000, "deleted": 3000, "constructions_compared": 20000,
            "strategy_changed_the_construction": 3000, "empty_accepted": 500,
            "other_instance_checked": 20000, "own_tuples": 1000, "kept_over_search": 2000}


def gen_value(rng):
    c = list(G.CLASSES)
    k = rng.randrange(20)
    if k < 8:
        kind = rng.choice(["tuple"] * 6 + ["own tuple", "named tuple"])
        return [kind, G.strategy(rng, rng.choice(["perm", "suffix", "subset", "subset"]))]
    if k == 8:
        return ["list", G.strategy(rng, "perm")]
    if k == 9:
        if rng.random() < 0.3:
            return [rng.choice(["deque", "iterator", "keys"]), G.strategy(rng, "perm")]
        return ["other", rng.choice([None, "A", "AB", 5, {"A": 1}, True, "", 1.5])]
    if k == 10:
        return ["set", c]
    s = G.strategy(rng, rng.choice(["perm", "subset"])) or []
    at = rng.randint(0, len(s))
    if k in (11, 12):
        bad = rng.choice([1, None, ["A"], {}, 2.5, True])
    elif k in (13, 14, 15):
        bad = rng.choice(["O", "A'", "a", "", "A_ ", "A___", "G", "AB", "A,B", " A", "_A", "é"])
    elif k in (16, 17):
        s = s or ["A"]
        bad = rng.choice(s)
        at = rng.randint(0, len(s))
    elif k == 18:
        return ["tuple_of_tuple", s]
    else:
        return ["frozenset", c]
    return ["tuple", s[:at] + [bad] + s[at:]]


def related(rng, s):
    """A value close to the strategy in force."""
    k = rng.randrange(6)
    i = rng.randint(0, len(s))
    if k == 0:
        return ["tuple", s[::-1]]
    if k == 1:
        return ["tuple", s[i:] + s[:i]]
    if k == 2:
        return ["tuple", s[:i] + s[i + 1 :]]
    if k == 3:
        return [rng.choice(["tuple", "list"]), list(s)]
    if k == 4:
        return ["tuple", sorted(s)]
    s = list(s)
    if len(s) > 1:
        i = rng.randrange(len(s) - 1)
        s[i], s[i + 1] = s[i + 1], s[i]
    return ["tuple", s]


def gen(rng, tier):
    case = G.problem(rng, rng.choice(["small", "small", "mid", "tiny"]))
    case.pop("height", None)
    case.pop("min_height", None)
    del case["items"][14:]
    case["strategy"] = None
    ops = []
    last = [list(G.CLASSES)] * 2
    for _ in range(rng.randint(1, 6)):
        k = rng.random()
        if k < 0.85:
            who = rng.randrange(2)
            v = related(rng, last[who]) if rng.random() < 0.2 else gen_value(rng)
            ops.append(["set", who, v])
            if valid(v):
                last[who] = v[1]
        elif k < 0.93:
            ops.append(["del", rng.randrange(2)])
        else:
            ops.append([rng.choice(["local", "hyper"]), rng.randrange(2)])
    case["ops"] = ops
    return case


def shrink(case):
    for i in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1 :])
    yield from runs.shrink(case)


class Own(tuple):
    """A caller's own kind of tuple."""


# iterables that are no tuples
ONCE = {"deque": collections.deque, "iterator": iter, "keys": lambda d: dict.fromkeys(d).keys()}


def concrete(v):
    kind, data = v
    if kind == "own tuple":
        return Own(data)
    if kind == "named tuple":
        return collections.namedtuple("Strategy", list(string.ascii_letters[: len(data)]))(*data)
    if kind in ONCE:
        return ONCE[kind](data)
    if kind == "tuple":
        return tuple(data)
    if kind == "set":
        return set(data)
    if kind == "frozenset":
        return frozenset(data)
    if kind == "tuple_of_tuple":
        return (tuple(data),)
    return data


def valid(v):
    kind, data = v
    return (
        kind in ("tuple", "own tuple", "named tuple")
        and all(isinstance(x, str) and x in G.CLASSES for x in data)
        and len(set(data)) == len(data)
    )


def check(case, mon):
    h = hp()
    from hyperpack.exceptions import PotentialPointsError

    default = ("A", "B", "C", "D", "A_", "B_", "B__", "A__", "E", "F")
    ps = [G.build(case), G.build(case)]
    force = [default, default]
    plain = solved(ps[0])
    for step, (op, who, *arg) in enumerate(case["ops"]):
        p = ps[who]
        where = f"step {step}: {op} {arg} on instance {who} with {force[who]}"
        if op == "set":
            v = concrete(arg[0])
            raised = None
            try:
                p.potential_points_strategy = v
            except PotentialPointsError as e:
                raised = e
            except Exception as e:
                mon.bad("other_error", f"{where}: {type(e).__name__} {e}")
                return
            ok = valid(arg[0])
            if ok and raised is not None:
                mon.bad("refused", f"{where}: {raised}")
                return
            if not ok and raised is None:
                mon.bad("accepted", f"{where}: accepted")
                return
            mon.ev("accepted" if ok else "refused")
            if ok and type(v) is not tuple:
                mon.ev("own_tuples")
            if ok:
                force[who] = v
                if not v:
                    mon.ev("empty_accepted")
            elif force[who] != default:
                mon.sig("refused", arg[0], force[who])
        elif op == "del":
            mon.ev("deleted")
            try:
                del p.potential_points_strategy
            except PotentialPointsError:
                pass
            else:
                mon.bad("deleted", f"{where}: deletion accepted")
                return
        elif op == "local":
            if len(p.items) < 7:
                p.local_search()
                mon.ev("kept_over_search")
                p.reset_container_height()
        else:
            if len(p.items) < 7:
                p.get_strategies = lambda **k: [default[1:] + default[:1], default]
                p.hypersearch(orientation=None, sorting_by=None)
                mon.ev("kept_over_search")
                p.reset_container_height()
        for k in (0, 1):
            got = ps[k].potential_points_strategy
            if got != force[k] or not isinstance(got, tuple):
                mon.bad(
                    "in_force" if k == who else "shared",
                    f"{where}: instance {k} has {got!r}, should have {force[k]}",
                )
                return
            if k != who:
                mon.ev("other_instance_checked")
        got = solved(p)
        # the same strategy as the default of another class
        cls = type("Other", (h.HyperPack,), {"DEFAULT_POTENTIAL_POINTS_STRATEGY": force[who]})
        want = solved(G.build(case, cls))
        mon.ev("constructions_compared")
        if got != want:
            mon.bad("not_used", f"{where}: construction {got}, with {force[who]} it is {want}")
            return
        if got != plain:
            mon.ev("strategy_changed_the_construction")
            mon.sig(force[who], got)


def solved(p):
    p.solve()
    return {c: {i: list(e) for i, e in s.items()} for c, s in p.solution.items()}
