"""C17: solving leaves the problem data as they were."""
import collections
import copy
import os
import tempfile

from .. import gen as G
from .. import runs
from ..env import hp
from ..runner import rng_for

CASES = {"quick": 9000, "thorough": 250000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "random histories of operations on one instance; after each one the instance's data, the "
    "caller's inputs and every solution taken so far are compared with deep snapshots; "
    "non-trivial: an operation followed a stored solution that holds items"
)
OPS = ("solve", "sequence", "local", "hyper", "log", "text", "figure", "objective",
       "strategies", "sort", "orient", "edit_input", "edit_items", "reassign", "mp")
REQUIRED = {f"op_{o}": 400 for o in OPS if o not in ("mp", "figure")}
REQUIRED.update({"repeating_sequences": 800, "default_workers": 25, "other_dictionaries": 500, "op_mp": 60, "op_figure": 200, "figure_settings": 2000, "taken_solutions_compared": 20000,
                 "inputs_compared": 20000})
W = {"solve": 5, "sequence": 4, "local": 4, "hyper": 2, "log": 2, "text": 1, "figure": 0.4,
     "objective": 1, "strategies": 1, "sort": 2, "orient": 2, "edit_input": 3,
     "edit_items": 2, "reassign": 2, "mp": 0.15}


FIGURES = (None, None, {}, {"show": False}, {"show": True},
           {"export": {"type": "html", "path": None}},
           {"export": {"type": "html", "path": None, "file_name": "f"}, "show": False})


def settings_of(case, folder):
    """The case's settings; figures are exported into the folder."""
    s = G.settings_of(case)
    if case.get("figure") is not None:
        s["figure"] = copy.deepcopy(case["figure"])
        if "export" in s["figure"]:
            s["figure"]["export"]["path"] = folder
    return s


def gen(rng, tier):
    case = G.problem(rng, rng.choice(["tiny", "small"]))
    del case["items"][8:]
    case["strategy"] = G.strategy(rng)
    case["workers"] = rng.choice([None, None, 1])
    case["figure"] = rng.choice(FIGURES)
    case["kind"] = rng.choice(["dict", "dict", "dict", "own", "ordered"])
    ops = []
    for _ in range(rng.randint(3, 9)):
        op = rng.choices(list(W), list(W.values()))[0]
        arg = None
        if op == "sequence":
            ids = [i[0] for i in case["items"]]
            rng.shuffle(ids)
            ids = ids[: rng.randint(1, len(ids))]
            if rng.random() < 0.3:
                # some named more than once
                ids += rng.choices(ids, k=rng.randint(1, 3))
                rng.shuffle(ids)
            arg = [rng.choice(["list", "list", "tuple"]), ids]
        elif op == "local":
            arg = [rng.random() < 0.5]
        elif op in ("hyper", "mp"):
            arg = [
                rng.choice(["wide", "long", None]),
                rng.choice([None, ["area", True], ["perimeter", False]]),
                [G.strategy(rng, "suffix2" if case["mode"] == "strip" else "suffix")
                 for _ in range(rng.randint(1, 3))],
                rng.random() < 0.5,
            ]
        elif op == "sort":
            arg = [rng.choice(["area", "perimeter", "longest_side_ratio"]), rng.random() < 0.5]
        elif op == "figure":
            arg = rng.random() < 0.7
        elif op == "orient":
            arg = rng.choice(["wide", "long", None, "none such"])
        elif op in ("edit_input", "edit_items"):
            arg = rng.randrange(1 << 30)
        elif op == "reassign":
            arg = rng.choice(["items", "containers"])
        ops.append([op, arg])
    case["ops"] = ops
    return case


def shrink(case):
    ops = case["ops"]
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1 :])
    yield from runs.shrink(case)


def plain(s):
    return [(i, dict((k, s[i][k]) for k in s[i])) for i in s]


def state(p):
    """The instance's data, as the user sees it."""
    return {
        "items": plain(p.items),
        "containers": plain(p.containers),
        "settings": named(p.settings),
        "strategy": tuple(p.potential_points_strategy),
    }


def named(settings):
    """A copy with the default file name filled in, as validation may do."""
    s = copy.deepcopy(settings)
    export = s.get("figure", {}).get("export")
    if export is not None:
        export.setdefault("file_name", hp().HyperPack.FIGURE_DEFAULT_FILE_NAME)
    return s


class Own(dict):
    """A caller's own kind of dictionary."""


KINDS = {"dict": dict, "own": Own, "ordered": collections.OrderedDict}


def wrap(structure, kind):
    k = KINDS[kind]
    return k((i, k(d)) for i, d in structure.items())


def turned(d):
    return {"w": d["l"], "l": d["w"]}


def figure(p, show):
    import plotly.io as pio

    old = pio.show
    pio.show = lambda *a, **k: None
    try:
        p.create_figure(show=show)
    finally:
        pio.show = old


def check(case, mon):
    with tempfile.TemporaryDirectory(dir=os.environ.get("HPMON_TMP")) as folder:
        history(case, mon, folder)


def history(case, mon, folder):
    hp()
    if case.get("figure") is not None:
        mon.ev("figure_settings")
    given = {"items": G.items_of(case), "settings": settings_of(case, folder)}
    if case["mode"] == "strip":
        given["strip_pack_width"] = case["W"]
    else:
        given["containers"] = G.containers_of(case)
    for name in ("items", "containers"):
        if name in given:
            given[name] = wrap(given[name], case["kind"])
    if case["kind"] != "dict":
        mon.ev("other_dictionaries")
    want_given = copy.deepcopy(given)

    class Sub(hp().HyperPack):
        pass

    p = Sub(**given)
    strat = None
    if case.get("strategy") is not None:
        strat = tuple(case["strategy"])
        p.potential_points_strategy = strat
    if case.get("height") is not None:
        p.container_height = case["height"]
    if case.get("min_height") is not None:
        p.container_min_height = case["min_height"]
    expect = {
        "items": [(i, {"w": w, "l": l}) for i, w, l in case["items"]],
        "containers": plain(p.containers),
        "settings": named(settings_of(case, folder)),
        "strategy": strat or tuple(hp().HyperPack.DEFAULT_POTENTIAL_POINTS_STRATEGY),
    }
    taken = []  # (object taken from the instance, deep copy at that time, when)
    rot = case.get("rotation") is not False
    for step, (op, arg) in enumerate(case["ops"]):
        where = f"step {step}: {op} {arg}"
        mon.ev("op_" + op)
        had = any(p.solution.values()) if p.solution else False
        free = None  # presorting may reorder (and turn) the instance's items
        seq_obj = seq_copy = None
        if op == "solve":
            p.solve()
        elif op == "sequence":
            # only ids the instance still has
            ids = [i for i in arg[1] if i in p.items]
            seq_obj = tuple(ids) if arg[0] == "tuple" else list(ids)
            seq_copy = copy.deepcopy(seq_obj)
            if len(set(ids)) < len(ids):
                mon.ev("repeating_sequences")
            p.solve(sequence=seq_obj)
        elif op == "local":
            p.local_search(throttle=arg[0])
        elif op in ("hyper", "mp"):
            strategies = [tuple(s) for s in arg[2]]
            seq_obj, seq_copy = strategies, copy.deepcopy(strategies)
            p.get_strategies = lambda **k: strategies
            sorting = tuple(arg[1]) if arg[1] else None
            former = p.settings
            if op == "mp":
                mine = dict(former, workers_num=2) if rot is False or arg[3] else {"workers_num": 2}
                Sub.WORKERS_NUM_DEFAULT_VALUE = 1
                if step % 2:
                    # the number of workers is the subclass's default
                    del mine["workers_num"]
                    Sub.WORKERS_NUM_DEFAULT_VALUE = 2
                    mon.ev("default_workers")
                mine_copy = named(mine)
                p.settings = mine
            p.hypersearch(orientation=arg[0], sorting_by=sorting)
            free = (bool(sorting), rot and arg[0] is not None)
            if op == "mp":
                if named(mine) != mine_copy or named(p.settings) != mine_copy:
                    mon.bad(
                        "changed_settings_by_mp",
                        f"{where}: settings {mine_copy} became {p.settings}, the caller's {mine}",
                    )
                    return
                p.settings = former
        elif op == "log":
            p.log_solution()
        elif op == "text":
            str(p.items), str(p.containers), repr(p.items), repr(p.containers)
        elif op == "figure":
            figure(p, arg)
        elif op == "objective":
            if p.solution:
                p.calculate_obj_value()
        elif op == "strategies":
            got = hp().HyperPack.get_strategies(p)
            if isinstance(got, list):
                got.reverse()
                got.clear()
        elif op == "sort":
            p.sort_items(sorting_by=tuple(arg))
            free = (True, False)
        elif op == "orient":
            p.orient_items(orientation=arg)
            free = (False, rot)
        elif op == "edit_input":
            rng = rng_for(arg)
            its = given["items"]
            k = rng.choice(sorted(its))
            mode = rng.randrange(3)
            if mode == 0:
                its[k]["w"] = its[k]["w"] + 5
            elif mode == 1:
                its["added later"] = {"w": 1, "l": 1}
            elif len(its) > 1:
                del its[k]
            if "containers" in given:
                c = rng.choice(sorted(given["containers"]))
                given["containers"][c]["W"] += 7
            want_given = copy.deepcopy(given)
        elif op == "edit_items":
            rng = rng_for(arg)
            k = rng.choice(list(p.items))
            p.items[k]["w"] = v = rng.randint(1, 6)
            expect["items"] = [(i, dict(d, w=v) if i == k else d) for i, d in expect["items"]]
        elif op == "reassign":
            if arg == "containers" and case["mode"] == "strip":
                continue
            # a new caller's dict, edited right after handing it over
            fresh = wrap(dict(expect[arg]), case["kind"])
            setattr(p, arg, fresh)
            k = next(iter(fresh))
            fresh[k]["w" if arg == "items" else "W"] += 3
            fresh["added later"] = {}
        mon.ev("inputs_compared")
        now = state(p)
        if free is not None:
            # same items, order and/or sides as allowed
            a, b = dict(now["items"]), dict(expect["items"])
            ok = set(a) == set(b) and len(now["items"]) == len(expect["items"]) and all(
                a[i] == b[i] or (free[1] and a[i] == turned(b[i])) for i in a
            )
            if ok and not free[0]:
                ok = [i for i, _ in now["items"]] == [i for i, _ in expect["items"]]
            if not ok:
                mon.bad(f"presort_{op}", f"{where}: items {expect['items']} -> {now['items']}")
                return
            expect["items"] = now["items"]
        for key in expect:
            if now[key] != expect[key]:
                mon.bad(
                    f"changed_{key}_by_{op}",
                    f"{where}: the instance's {key} {expect[key]} became {now[key]}",
                )
                return
        both = [dict(g, settings=named(g["settings"])) for g in (given, want_given)]
        if both[0] != both[1] or list(given["items"]) != list(want_given["items"]):
            mon.bad(f"caller_by_{op}", f"{where}: the caller's input {want_given} became {given}")
            return
        if seq_obj != seq_copy or type(seq_obj) is not type(seq_copy):
            mon.bad(f"caller_sequence_by_{op}", f"{where}: {seq_copy} became {seq_obj}")
            return
        for obj, snap, when in taken:
            mon.ev("taken_solutions_compared")
            if obj != snap:
                mon.bad(
                    f"taken_altered_by_{op}",
                    f"{where}: what was taken after {when} was {snap}, is now {obj}",
                )
                return
        for name in ("solution", "obj_val_per_container", "best_strategy"):
            obj = getattr(p, name, None)
            if obj:
                taken.append((obj, copy.deepcopy(obj), f"step {step} ({op}): {name}"))
                if name == "solution":
                    # also the parts of it the user may hold
                    for part in obj.values():
                        taken.append((part, copy.deepcopy(part), f"step {step} ({op}): part"))
        taken = taken[-40:]
        if had:
            mon.sig(op, now["items"], [t[1] for t in taken[-1:]])
