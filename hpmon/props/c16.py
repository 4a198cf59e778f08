"""C16: edits of items and containers are validated and reset the solution."""
import collections
import copy
import types

from .. import gen as G
from .. import oracle, runs
from ..env import hp

CASES = {"quick": 26000, "thorough": 700000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "random histories of mapping operations (valid and invalid) on items, containers and their "
    "dimensions interleaved with solving, against a plain dict model; non-trivial: a valid edit "
    "changed the data after a solution was stored"
)
OPS = ("set", "dim", "del", "pop", "pop_default", "popitem", "setdefault", "update", "update_kw",
       "ior", "clear", "dim_ior", "dim_update", "dim_del", "dim_pop", "dim_popitem", "dim_clear",
       "dim_setdefault", "assign", "delete", "replace_same", "sort", "orient",
       "update_pairs", "dim_update_pairs", "dim_held")
REQUIRED = {f"op_{o}": 300 for o in OPS}
REQUIRED.update({"accepted": 10000, "refused": 10000, "resets_checked": 10000,
                 "compared_with_fresh": 10000, "strip_container_edits": 1000})

BAD_DIM = [0, -1, 1.5, 3.0, "3", None, [1], {}]
BAD_ID = [1, None, 2.5, ["t", "a"], True]


def rid(v):
    return tuple(v) if isinstance(v, list) else v


def gen_dims(rng, keys, bad):
    a, b = rng.randint(1, 9), rng.randint(1, 9)
    d = {keys[0]: a, keys[1]: b}
    if not bad:
        return d if rng.random() < 0.7 else {keys[1]: b, keys[0]: a}
    k = rng.randrange(8)
    if k == 0:
        return {}
    if k == 1:
        return {keys[0]: a}
    if k == 2:
        return {**d, "h": 3}
    if k == 3:
        return rng.choice([None, 5, [a, b], "dims", "<Dimensions>", "<UserDict>", "<proxy>",
                           [[keys[0], a], [keys[1], b]]])
    if k == 4:
        return {keys[0].swapcase(): a, keys[1].swapcase(): b}
    d[rng.choice(keys)] = rng.choice(BAD_DIM)
    return d


def gen(rng, tier):
    if rng.random() < 0.25:
        case = G.strip_problem(rng, "tiny", tight=False, min_height=False)
    else:
        case = G.bin_problem(rng, "tiny")
    ops = []
    names = [i[0] for i in case["items"]]
    cnames = [c[0] for c in case.get("containers", [])] or ["strip-pack-container"]
    for _ in range(rng.randint(2, 10)):
        target = rng.choice(["items", "items", "containers"])
        keys = ("w", "l") if target == "items" else ("W", "L")
        pool = (names if target == "items" else cnames) + ["new1", "new2", "", "箱"]
        op = rng.choice(OPS)
        if op in ("sort", "orient"):
            target = "items"
            arg = [rng.choice(["area", "perimeter", "longest_side_ratio"]), rng.random() < 0.5]
            if op == "orient":
                arg = rng.choice(["wide", "long"])
            ops.append([target, op, [names[0], None], arg, rng.choice(["solve", "solve", "local"])])
            continue
        bad = rng.random() < 0.35
        entry = [rng.choice(BAD_ID) if bad and rng.random() < 0.2 else rng.choice(pool)]
        entry.append(gen_dims(rng, keys, bad))
        arg = None
        if op in ("update", "update_pairs", "ior", "assign"):
            arg = [entry]
            for _ in range(rng.randint(0, 3)):
                b = rng.random() < 0.1
                arg.append([rng.choice(pool), gen_dims(rng, keys, b)])
            if op == "assign" and rng.random() < 0.15:
                arg = rng.choice([[], None, "x", 7])
        elif op == "update_kw":
            arg = [["new1", gen_dims(rng, keys, bad)]]
        elif op in ("dim_ior", "dim_update", "dim_update_pairs"):
            arg = [[rng.choice(keys), rng.randint(1, 9)] for _ in range(rng.randint(1, 2))]
            if bad:
                arg.append(rng.choice([["h", 3], [keys[0], rng.choice(BAD_DIM)]]))
        elif op in ("dim", "dim_held"):
            arg = [rng.choice(keys), rng.choice(BAD_DIM) if bad else rng.randint(1, 9)]
            if bad and rng.random() < 0.3:
                arg = [rng.choice(["x", "h", keys[0].swapcase()]), 3]
        else:
            arg = rng.choice(keys)
        ops.append([target, op, entry, arg, rng.choice(["solve", "solve", "local", "none"])])
    case["ops"] = ops
    case["kind"] = rng.choice(["dict", "dict", "own", "ordered"])
    return case


def shrink(case):
    ops = case["ops"]
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1 :])
    yield from runs.shrink(case)


def plain(struct):
    return {i: {k: struct[i][k] for k in struct[i]} for i in struct}


def valid_dims(d, keys):
    return (
        isinstance(d, dict)
        and set(d) == set(keys)
        and all(isinstance(v, int) and v > 0 for v in d.values())
    )


def valid(s, keys):
    return (
        isinstance(s, dict)
        and len(s) > 0
        and all(isinstance(i, str) and valid_dims(d, keys) for i, d in s.items())
    )


def pairs(arg):
    return {rid(k): v for k, v in arg}


class Own(dict):
    """A caller's own kind of dictionary."""


KINDS = {"dict": dict, "own": Own, "ordered": collections.OrderedDict}


def apply_real(p, target, op, entry, arg, kind, held):
    s = getattr(p, target)
    K = KINDS[kind]

    def given(d):
        if isinstance(d, str) and d.startswith("<"):
            # no dictionaries, though they look like one
            old = next(iter(s.values()))
            if d == "<Dimensions>":
                # those of another instance
                return next(iter(getattr(hp().HyperPack(**{
                    "containers": {"c": {"W": 3, "L": 2}}, "items": {"i": {"w": 2, "l": 1}}
                }), target).values()))
            return {"<UserDict>": collections.UserDict, "<proxy>": types.MappingProxyType}[d](
                dict(old)
            )
        return K(d) if isinstance(d, dict) else copy.deepcopy(d)

    def pairs(arg):
        return K((rid(k), given(v)) for k, v in arg)

    i, d = rid(entry[0]), given(entry[1])
    arg = copy.deepcopy(arg)
    if op == "set":
        s[i] = d
    elif op == "del":
        del s[i]
    elif op == "pop":
        s.pop(i)
    elif op == "pop_default":
        s.pop(i, None)
    elif op == "popitem":
        s.popitem()
    elif op == "setdefault":
        s.setdefault(i, d)
    elif op == "update":
        s.update(pairs(arg))
    elif op == "update_pairs":
        s.update(list(pairs(arg).items()))
    elif op == "update_kw":
        s.update(**pairs(arg))
    elif op == "ior":
        if p.container_height is None and len(str(arg)) % 3:
            # through the attribute
            if target == "items":
                p.items |= pairs(arg)
            else:
                p.containers |= pairs(arg)
        else:
            was = s
            s |= pairs(arg)
            if s is not was:
                raise AssertionError(f"{target} |= ... gives {s!r}")
    elif op == "clear":
        s.clear()
    elif op == "assign":
        setattr(p, target, pairs(arg) if isinstance(arg, list) else arg)
    elif op == "delete":
        delattr(p, target)
    elif op == "replace_same":
        setattr(p, target, plain(s))
    elif op == "sort":
        p.sort_items(sorting_by=tuple(arg))
    elif op == "orient":
        p.orient_items(orientation=arg)
    else:
        x = held if op == "dim_held" else s[i]
        if op in ("dim", "dim_held"):
            x[arg[0]] = arg[1]
        elif op == "dim_ior":
            if target == "items":
                p.items[i] |= dict(arg)
            else:
                p.containers[i] |= dict(arg)
        elif op == "dim_update":
            x.update(dict(arg))
        elif op == "dim_update_pairs":
            x.update([(k, v) for k, v in dict(arg).items()])
        elif op == "dim_del":
            del x[arg]
        elif op == "dim_pop":
            x.pop(arg)
        elif op == "dim_popitem":
            x.popitem()
        elif op == "dim_clear":
            x.clear()
        elif op == "dim_setdefault":
            x.setdefault(arg, 5)


def outcomes(old, keys, op, entry, arg):
    """
    (must_fail, [acceptable data after the operation]) by the rules of a validated dict.
    """
    i, d = rid(entry[0]), entry[1]
    cur = copy.deepcopy(old)
    if op == "delete":
        return True, [old]
    if op in ("replace_same", "sort", "orient"):
        return False, [old]
    if op == "assign":
        new = pairs(arg) if isinstance(arg, list) else arg
        return (False, [new]) if valid(new, keys) else (True, [old])
    if op == "clear":
        subs = []
        for k in old:
            subs.append({k: old[k]})
        return True, [old] + subs
    if op == "popitem":
        if len(old) == 1:
            return True, [old]
        return False, [{k: v for k, v in old.items() if k != j} for j in old]
    if op in ("set", "setdefault"):
        if op == "setdefault" and i in cur:
            return False, [old]
        if isinstance(i, str) and valid_dims(d, keys):
            cur[i] = d
            return False, [cur]
        return True, [old]
    if op in ("del", "pop", "pop_default"):
        if i not in cur:
            return (op != "pop_default"), [old]
        if len(cur) == 1:
            return True, [old]
        del cur[i]
        return False, [cur]
    if op in ("update", "update_pairs", "update_kw", "ior"):
        for k, v in pairs(arg).items():
            if not isinstance(k, str) or not valid_dims(v, keys):
                # stops here; refusing the whole update is as good
                return True, [cur, old]
            cur[k] = v
        return False, [cur]
    # operations on one entry's dimensions
    if i not in cur:
        return True, [old]
    x = cur[i]
    if op in ("dim", "dim_held"):
        if arg[0] in keys and isinstance(arg[1], int) and arg[1] > 0:
            x[arg[0]] = arg[1]
            return False, [cur]
        return True, [old]
    if op in ("dim_ior", "dim_update", "dim_update_pairs"):
        for k, v in dict(arg).items():
            if k not in keys or not isinstance(v, int) or v <= 0:
                return True, [cur, old]
            x[k] = v
        return False, [cur]
    if op == "dim_setdefault":
        return False, [old]
    return True, [old]


def check(case, mon):
    hp()
    p = G.build(case)
    strip = case["mode"] == "strip"
    model = {"items": plain(p.items), "containers": plain(p.containers)}
    KEYS = {"items": ("w", "l"), "containers": ("W", "L")}
    held = {}
    for step, (target, op, entry, arg, then) in enumerate(case["ops"]):
        where = f"step {step}: {op} {entry} {arg} on {target} {model[target]}"
        if then == "solve":
            p.solve()
        elif then == "local" and len(p.items) < 7:
            p.local_search()
        had = bool(p.solution)
        frozen = strip and target == "containers"
        if frozen:
            mon.ev("strip_container_edits")
            must_fail, ok = True, [model[target]]
            if op in ("setdefault", "pop_default", "dim_setdefault"):
                must_fail = None  # may change nothing silently
        else:
            must_fail, ok = outcomes(model[target], KEYS[target], op, entry, arg)
        mon.ev("op_" + op)
        # the user may still hold what it took from the structure before
        for t in model:
            for i in model[t]:
                held.setdefault((t, i), getattr(p, t)[i])
        i = rid(entry[0])
        handle = None
        if op == "dim_held":
            handle = held.get((target, i)) if isinstance(i, str) else None
            if handle is None:
                continue
            if handle is not getattr(p, target).get(i):
                mon.ev("outdated_handles")
                must_fail, ok = None, ok + [model[target]]
        raised = None
        try:
            apply_real(p, target, op, entry, arg, case["kind"], handle)
        except Exception as e:  # the kind of error is C24's matter
            raised = e
        mon.ev("refused" if raised else "accepted")
        now = plain(getattr(p, target))
        if op in ("sort", "orient") and sorted(now) == sorted(model["items"]):
            # how they arrange the items is C18's matter
            ok = [now]
        if must_fail and raised is None:
            mon.bad(f"accepted_{op}", f"{where}: accepted, now {now}")
            return
        if must_fail is False and raised is not None:
            mon.bad(f"refused_{op}", f"{where}: {type(raised).__name__} {raised}")
            return
        if not any(now == x for x in ok):
            mon.bad(f"data_{op}", f"{where}: now {now}")
            return
        if not raised and op not in ("popitem", "clear") and list(now) != list(ok[0]):
            mon.bad(f"order_{op}", f"{where}: order now {list(now)}, expected {list(ok[0])}")
            return
        other = "containers" if target == "items" else "items"
        if plain(getattr(p, other)) != model[other]:
            mon.bad("other_structure", f"{where}: {other} changed")
            return
        if not valid(now, KEYS[target]):
            mon.bad("invalid_structure", f"{where}: now {now}")
            return
        changed = list(now.items()) != list(model[target].items())
        model[target] = now
        if changed:
            mon.ev("resets_checked")
            if p.solution != {} or p.obj_val_per_container != {}:
                mon.bad(
                    f"not_reset_{op}",
                    f"{where}: solution {p.solution} values {p.obj_val_per_container} kept",
                )
                return
            if had:
                mon.sig(target, op, now)
        if changed or step == len(case["ops"]) - 1:
            p.solve()
            q = G.build(
                dict(
                    case,
                    items=[[i, d["w"], d["l"]] for i, d in model["items"].items()],
                    **(
                        {}
                        if strip
                        else {
                            "containers": [
                                [c, d["W"], d["L"]] for c, d in model["containers"].items()
                            ]
                        }
                    ),
                )
            )
            if strip:
                q.container_height = p.container_height
            q.solve()
            mon.ev("compared_with_fresh")
            if (
                p.solution != q.solution
                or list(p.solution) != list(q.solution)
                or p.obj_val_per_container != q.obj_val_per_container
            ):
                mon.bad(
                    "stale", f"{where}: construction {p.solution}, fresh instance {q.solution}"
                )
            elif p.calculate_obj_value() != q.calculate_obj_value():
                mon.bad(
                    "stale_objective",
                    f"{where}: objective {p.calculate_obj_value()}, fresh instance "
                    f"{q.calculate_obj_value()}",
                )
