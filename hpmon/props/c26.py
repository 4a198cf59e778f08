"""C26: reading changes nothing, and copies of an instance are equal and independent."""
import copy
import inspect
import pickle

from .. import gen as G
from .. import runs
from ..env import hp
from . import c25

CASES = {"quick": 9000, "thorough": 200000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "random scripts of operations with random reads (iterating, comparing, copying, printing, "
    "pickling, inspecting, logging the instance and its structures) between the operations and at "
    "constructions inside of searches; at a random step a deep copied or pickled copy goes on with "
    "a script of its own; after every operation both are compared with controls that were neither "
    "read nor copied; non-trivial: reads happened while a solution was stored"
)
REQUIRED = {"reads": 30000, "reads_of_solved": 12000, "reads_inside_searches": 15000,
            "deepcopies": 1500, "pickles": 1500, "operations_compared": 20000,
            "copies_of_solved": 1000, "strip_instances": 1000}
OPS = ("solve", "local", "hyper", "strategy", "item", "sort", "height", "reset", "rotation",
       "own_container", "add", "remove", "min_height")


def gen_ops(rng, case, n):
    ops = []
    for _ in range(n):
        o = rng.choice(OPS) if rng.random() < 0.65 else rng.choice(("solve", "local", "hyper"))
        a = rng.randint(1, 7)
        if o == "hyper":
            a = [G.strategy(rng, "suffix2" if case["mode"] == "strip" else "suffix")
                 for _ in range(rng.randint(1, 2))]
        elif o == "strategy":
            a = G.strategy(rng, "perm")
        elif o == "rotation":
            a = rng.random() < 0.5
        ops.append([o, a])
    return ops


def gen(rng, tier):
    case = G.problem(rng, rng.choice(["tiny", "small"]))
    del case["items"][6:]
    case["strategy"] = G.strategy(rng)
    case["run"] = "pointgen" if rng.random() < 0.1 else "hyper"
    n = rng.randint(1, 5)
    case["ops"] = gen_ops(rng, case, n)
    case["reads"] = [[rng.randrange(len(READS)) for _ in range(rng.choice([0, 1, 2, 5]))]
                     for _ in range(n + 1)]
    case["inside"] = [rng.randrange(len(READS)) for _ in range(rng.randint(1, 3))] if (
        rng.random() < 0.35
    ) else []
    case["copy"] = rng.choice([None, ["deepcopy"], ["pickle"], ["deepcopy"], ["pickle"]])
    if case["copy"]:
        case["copy"] = [case["copy"][0], rng.randint(0, n - 1), gen_ops(rng, case, rng.randint(1, 3))]
        case["order"] = [rng.random() < 0.5 for _ in range(12)]
    return case


def shrink(case):
    if case["copy"]:
        yield dict(case, copy=None)
        at = case["copy"][1]
        for j in range(len(case["copy"][2])):
            if len(case["copy"][2]) > 1:
                o = case["copy"][2]
                yield dict(case, copy=[case["copy"][0], at, o[:j] + o[j + 1 :]])
    if case["inside"]:
        yield dict(case, inside=[])
    for k, r in enumerate(case["reads"]):
        for j in range(len(r)):
            new = list(case["reads"])
            new[k] = r[:j] + r[j + 1 :]
            yield dict(case, reads=new)
    if not case["copy"]:
        for j in range(len(case["ops"])):
            if len(case["ops"]) > 1:
                yield dict(
                    case, ops=case["ops"][:j] + case["ops"][j + 1 :],
                    reads=case["reads"][:j] + case["reads"][j + 1 :],
                )
    yield from G.shrink_problem(case)


# ------------------------------------------------------------------ reads
def walk(s):
    for i in s:
        d = s[i]
        list(d), len(d), list(d.keys()), list(d.values()), list(d.items())
        d.get("w"), d.get("x", 3), "w" in d, d == {"w": 1}, d == d, d != 5
        str(d), repr(d), bool(d), f"{d}"


def each(s, f):
    for i in s:
        f(s[i])


def equal(p):
    p.items == p.items, p.containers == {}, p.items != p.containers, p.items == p.items.copy()
    p == p, p is None, hash(p), p.solution == {}, p.settings == {}


def objective(p):
    if p.obj_val_per_container and hasattr(p, "calculate_obj_value"):
        v = p.calculate_obj_value()
        again = p.calculate_obj_value()
        if v != again:
            raise ValueError(f"objective {v}, asked again {again}")


def again(what):
    def f(p):
        a, b = what(p), what(p)
        if a != b:
            raise ValueError(f"{a}, asked again {b}"[:300])

    return f


READS = [
    ("walk items", lambda p: walk(p.items)),
    ("walk containers", lambda p: walk(p.containers)),
    ("list", lambda p: (list(p.items), list(p.containers), len(p.items), len(p.containers))),
    ("views", lambda p: (list(p.items.items()), list(p.containers.values()), list(p.items.keys()))),
    ("missing", lambda p: (p.items.get("no such item"), "x" in p.items, p.containers.get("y", 4))),
    ("compare", equal),
    ("print", lambda p: (str(p), repr(p), str(p.items), repr(p.items), str(p.containers),
                         repr(p.containers), f"{p.items} {p.containers}")),
    ("dict", lambda p: (dict(p.items), dict(p.containers), {**p.items}, sorted(p.items))),
    ("items.copy()", lambda p: p.items.copy()),
    ("containers.copy()", lambda p: p.containers.copy()),
    ("dimensions.copy()", lambda p: (each(p.items, lambda d: d.copy()),
                                     each(p.containers, lambda d: d.copy()))),
    ("copy.copy of structures", lambda p: (copy.copy(p.items), copy.copy(p.containers))),
    ("copy.copy of dimensions", lambda p: (each(p.items, copy.copy), each(p.containers, copy.copy))),
    ("copy.deepcopy of structures", lambda p: (copy.deepcopy(p.items), copy.deepcopy(p.containers))),
    ("copy.deepcopy of dimensions", lambda p: each(p.items, copy.deepcopy)),
    ("copy.copy of the instance", copy.copy),
    ("copy.deepcopy of the instance", copy.deepcopy),
    ("pickle.dumps", lambda p: pickle.dumps(p)),
    ("pickle round trip", lambda p: pickle.loads(pickle.dumps(p))),
    ("pickle of the items", lambda p: pickle.loads(pickle.dumps(p.items))),
    ("vars", lambda p: (dict(vars(p)), dir(p))),
    ("inspect", lambda p: inspect.getmembers(p)),
    ("settings", lambda p: (p.settings, list(p.settings.items()), p.settings.get("x"))),
    ("strategy", lambda p: (p.potential_points_strategy, list(p.potential_points_strategy))),
    ("heights", lambda p: (p.container_height, p.container_min_height)),
    ("solution", lambda p: (p.solution, copy.deepcopy(p.solution), p.obj_val_per_container)),
    ("objective", objective),
    ("log", lambda p: p.log_solution()),
    ("figure without settings", lambda p: p.create_figure()),
    ("strategies", again(lambda p: hasattr(p, "get_strategies") and list(p.get_strategies()))),
    ("predefined strategies", again(lambda p: hasattr(p, "get_strategies")
                                    and list(p.get_strategies(_exhaustive=False)))),
    ("best strategy", lambda p: getattr(p, "best_strategy", None)),
]


# ------------------------------------------------------------------ instances
_classes = {}


class Hook:
    reads = None  # the reads at constructions of one instance, if any
    mon = None
    busy = False


def classes():
    """Subclasses a user could write, at module level so that they can be pickled."""
    if _classes:
        return _classes
    h = hp()

    class Few(h.HyperPack):
        few = None

        def get_strategies(self, **kw):
            return [tuple(s) for s in self.few] if self.few else super().get_strategies(**kw)

        def solve(self, sequence=None, debug=False):
            super().solve(sequence=sequence, debug=debug)
            look(self)

    class Gen(h.PointGenPack):
        def solve(self, sequence=None, debug=False):
            super().solve(sequence=sequence, debug=debug)
            look(self)

    def look(p):
        if Hook.reads and not Hook.busy and getattr(p, "watched", False):
            Hook.busy = True
            try:
                for r in Hook.reads:
                    Hook.mon.ev("reads_inside_searches")
                    name, f = READS[r]
                    try:
                        f(p)
                    except Exception as e:
                        Hook.mon.bad(
                            "read_failed", f"reading ({name}) inside: {type(e).__name__} {e}"
                        )
            finally:
                Hook.busy = False

    for c in (Few, Gen):
        c.__module__ = __name__
        c.__qualname__ = c.__name__
        globals()[c.__name__] = c
        _classes[c.__name__] = c
    return _classes


def make(case):
    return G.build(case, classes()["Gen" if case["run"] == "pointgen" else "Few"])


def apply(p, op, a):
    if op == "hyper" and hasattr(p, "hypersearch"):
        p.few = a
        p.hypersearch()
    elif op == "add":
        p.items[f"added{a}"] = {"w": a, "l": 2}
    elif op == "remove":
        if len(p.items) > 1:
            del p.items[list(p.items)[a % len(p.items)]]
    elif op == "min_height":
        if p.container_height is not None:
            p.container_min_height = min(a, p.container_height)
    else:
        c25.apply(p, op, a)


def check(case, mon):
    classes()
    p, ref = make(case), make(case)
    p.watched = True
    mon.ev("strip_instances", case["mode"] == "strip")
    Hook.mon = mon
    looked = False
    q = qref = None

    def step(x, y, op, a, where, reads):
        Hook.reads = None
        apply(y, op, a)
        Hook.reads = reads
        try:
            apply(x, op, a)
        finally:
            Hook.reads = None
        return same(x, y, where)

    def same(x, y, where):
        a, b = c25.result(x), c25.result(y)
        mon.ev("operations_compared")
        if a == b:
            for k in ("solution", "values"):
                if list(a[k]) != list(b[k]):
                    mon.bad("order", f"{where}: {k} {a[k]}, control {b[k]}")
                    return False
            return True
        bad = [k for k in a if a[k] != b[k]]
        mon.bad("differs", f"{where}: {bad}: {[a[k] for k in bad]}, control {[b[k] for k in bad]}")
        return False

    def read(x, y, reads, where):
        nonlocal looked
        for r in reads:
            name, f = READS[r]
            mon.ev("reads")
            if x.solution:
                mon.ev("reads_of_solved")
                looked = True
            try:
                f(x)
            except Exception as e:
                mon.bad("read_failed", f"{where}: reading ({name}): {type(e).__name__} {e}")
                return False
            if not same(x, y, f"{where}, after reading ({name})"):
                return False
        return True

    mine = []
    for k, (op, a) in enumerate(case["ops"]):
        where = f"{case['run']} {case['mode']} step {k}"
        if not read(p, ref, case["reads"][k], where):
            return
        if case["copy"] and case["copy"][1] == k:
            kind = case["copy"][0]
            mon.ev("deepcopies" if kind == "deepcopy" else "pickles")
            mon.ev("copies_of_solved", bool(p.solution))
            try:
                q = copy.deepcopy(p) if kind == "deepcopy" else pickle.loads(pickle.dumps(p))
            except Exception as e:
                mon.bad("copy_failed", f"{where}: {kind}: {type(e).__name__} {e}")
                return
            # its control repeats the history from the start
            qref = make(case)
            for o, b in case["ops"][:k]:
                apply(qref, o, b)
            if not same(q, qref, f"{where}, the {kind} copy"):
                return
            mine = list(case["copy"][2])
        turn = iter(case.get("order", ()))
        while q is not None and mine and next(turn, True):
            o, b = mine.pop(0)
            if not step(q, qref, o, b, f"{where}, operation {o} {b} on the copy", None):
                return
            if not same(p, ref, f"{where}, the original after {o} {b} on the copy"):
                return
        if not step(p, ref, op, a, f"{where}: {op} {a}", case["inside"]):
            return
        if q is not None and not same(q, qref, f"{where}, the copy after {op} {a} on the original"):
            return
    for o, b in mine:
        if not step(q, qref, o, b, f"at the end, operation {o} {b} on the copy", None):
            return
    read(p, ref, case["reads"][-1], "at the end")
    if q is not None:
        same(q, qref, "at the end, the copy")
        same(p, ref, "at the end, the original")
    if looked:
        mon.sig(case["reads"], c25.result(p)["items"], case["ops"])
