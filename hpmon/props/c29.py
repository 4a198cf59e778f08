"""C29: items and containers read, copy and print as what they hold."""
import copy
import re

from .. import gen as G
from .. import runs
from ..env import hp
from . import c16

CASES = {"quick": 22000, "thorough": 500000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "random histories of edits, valid and refused, sorting, orienting and solving as for C16; at "
    "every step the structures are read in all the ways a dictionary is read, copied, and printed, "
    "and all of it compared with the entries got one by one; non-trivial: the structure read had "
    "been changed by an edit before"
)
REQUIRED = {"more_than_100": 250, "structures_read": 60000, "printed_entries": 120000, "copies_changed": 60000,
            "partial_copies": 40000, "unknown_ids": 60000, "read_after_refused": 10000,
            "read_while_solved": 20000, "rebuilt": 20000, "strip_containers_printed": 5000,
            "read_after_sort": 300, "read_after_orient": 300}
ASSUMPTIONS = [
    "the text printed is read leniently: the ids, and the numbers next to 'width' and 'length'",
    "a shallow copy's entries may be either independent or the original's own",
]
KEYS = {"items": ("w", "l"), "containers": ("W", "L")}


def gen(rng, tier):
    case = c16.gen(rng, tier)
    case["probe"] = [rng.randrange(1000) for _ in range(len(case["ops"]) + 1)]
    if rng.random() < 0.12:
        # longer ones
        n = rng.randint(101, 260) if rng.random() < 0.04 else rng.randint(12, 60)
        number = rng.random() < 0.3
        case["items"] = [[str(k) if number else f"k{k}" if rng.random() < 0.8 else f"width: {k}", rng.randint(1, 1500),
                          rng.randint(1, 1500)] for k in range(n)]
        case["ops"] = [o[:4] + ["none"] for o in case["ops"]]
    return case


def shrink(case):
    ops, probe = case["ops"], case["probe"]
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1 :], probe=probe[:i] + probe[i + 1 :])
    yield from runs.shrink(case)


def numbers(word, text):
    return [int(x) for x in re.findall(r"\b" + word + r"\s*[:=]?\s*(\d+)", text, re.I)]


def read(p, target, model, strip, mon, k, where):
    """All the ways of reading one structure against its entries in order."""
    s = getattr(p, target)
    keys = KEYS[target]
    ids = list(model)
    mon.ev("structures_read")

    def bad(key, what, got, want):
        mon.bad(f"{key}_{target}", f"{where}: {what}: {str(got)[:400]}, expected {str(want)[:400]}")
        return False

    def plain(x):
        return {i: dict(d) for i, d in x.items()}

    looks = (
        ("iter", lambda: list(s), ids),
        ("keys", lambda: list(s.keys()), ids),
        ("len", lambda: len(s), len(ids)),
        ("bool", lambda: bool(s), bool(ids)),
        ("reversed", lambda: list(reversed(list(s))), ids[::-1]),
        ("values", lambda: [dict(d) for d in s.values()], list(model.values())),
        ("items", lambda: [(i, dict(d)) for i, d in s.items()], list(model.items())),
        ("in", lambda: [i in s for i in ids], [True] * len(ids)),
        ("get", lambda: [dict(s.get(i)) for i in ids], list(model.values())),
        ("dict", lambda: {i: dict(d) for i, d in dict(s).items()}, model),
        ("unpacked", lambda: {i: dict(d) for i, d in {**s}.items()}, model),
        ("dimensions", lambda: [(d[keys[0]], d[keys[1]]) for d in s.values()],
         [(d[keys[0]], d[keys[1]]) for d in model.values()]),
        ("dimensions len", lambda: [len(d) for d in s.values()], [2] * len(ids)),
        ("dimensions get", lambda: [d.get(keys[1], -1) for d in s.values()],
         [d[keys[1]] for d in model.values()]),
        ("dimensions in", lambda: [(keys[0] in d, keys[1] in d, "h" in d) for d in s.values()],
         [(True, True, False)] * len(ids)),
        ("dimensions sorted values", lambda: [sorted(d.values()) for d in s.values()],
         [sorted(d.values()) for d in model.values()]),
        ("dimensions ==", lambda: all(s[i] == model[i] for i in ids), True),
        ("dimensions !=", lambda: any(s[i] != model[i] for i in ids), False),
        ("==", lambda: s == {i: s[i] for i in ids}, True),
        ("the property again", lambda: getattr(p, target) is s, True),
    )
    for what, f, want in looks:
        try:
            got = f()
        except Exception as e:
            return bad("reading_failed", what, f"{type(e).__name__} {e}", want)
        if got != want or (isinstance(want, dict) and list(got) != list(want)):
            return bad("reads", what, got, want)
    # unknown entries
    one = ids[k % len(ids)]
    if len(ids) > 100:
        mon.ev("more_than_100")
    for unknown in ("no such id", "", one + " ", one.upper() + "\t", (one,), None, k % len(ids),
                    one.encode("utf8", "replace"), int(one) if one.isdecimal() else 1.5):
        if unknown in model:
            continue
        mon.ev("unknown_ids")
        if unknown in s or s.get(unknown) is not None or s.get(unknown, 7) != 7:
            return bad("unknown", f"{unknown!r} in", True, False)
        try:
            s[unknown]
        except KeyError:
            pass
        except Exception as e:
            return bad("unknown", f"[{unknown!r}]", f"{type(e).__name__} {e}", "KeyError")
        else:
            return bad("unknown", f"[{unknown!r}]", s[unknown], "KeyError")
    # copies
    sub = [ids[(k * 7 + j * (1 + k % 3)) % len(ids)] for j in range(1 + k % 5)]
    sub = list(dict.fromkeys(sub))
    if k % 2:
        sub = tuple(reversed(sub))
    for what, f, want in (
        ("deepcopy()", s.deepcopy, model),
        ("copy()", s.copy, model),
        (f"deepcopy({sub})", lambda: s.deepcopy(sub), {i: model[i] for i in sub}),
        (f"deepcopy(ids_sequence={sub})", lambda: s.deepcopy(ids_sequence=sub),
         {i: model[i] for i in sub}),
        ("copy.deepcopy()", lambda: copy.deepcopy(s), model),
    ):
        try:
            c = f()
            got = plain(c)
        except Exception as e:
            return bad("copy_failed", what, f"{type(e).__name__} {e}", want)
        if got != want or list(got) != list(want):
            return bad("copies", what, got, want)
        if "sequence" in what or f"deepcopy({sub})" == what:
            mon.ev("partial_copies")
        if what.startswith("copy.deepcopy"):
            continue
        if what.startswith("deepcopy") and (type(c) is not dict or any(
            type(d) is not dict for d in c.values()
        )):
            return bad("copy_type", what, type(c), "plain dictionaries")
        # plain copies: theirs to change
        mon.ev("copies_changed")
        if type(c) is dict:
            for d in c.values():
                if type(d) is dict:
                    d[keys[0]] = 0
                    d.clear()
            c.clear()
            now = plain(getattr(p, target))
            if now != model or list(now) != ids:
                return bad("copy_shared", f"after changing {what}", now, model)
    # one entry's copy
    i = ids[k % len(ids)]
    c = s[i].copy()
    if dict(c) != model[i]:
        return bad("copies", f"[{i!r}].copy()", c, model[i])
    if type(c) is dict:
        c[keys[0]] = -1
        if dict(s[i]) != model[i]:
            return bad("copy_shared", f"after changing [{i!r}].copy()", s[i], model[i])
    # print
    for what, f in (("str", str), ("format", lambda x: f"{x}")):
        try:
            text = f(s)
        except Exception as e:
            return bad("print_failed", what, f"{type(e).__name__} {e}", "a text")
        at = 0
        tail = text
        spots = []
        for i in ids:
            mon.ev("printed_entries")
            j = text.find(f"id: {i}\n", at)
            if j < 0:
                return bad("printed_ids", what, text, ids)
            spots.append((j, j + len(f"id: {i}\n")))
            at = j + 1
        if len(re.findall(r"^\W*id: ", text, re.M)) != len(ids):
            return bad("printed_count", what, text, ids)
        for n, i in enumerate(ids):
            tail = text[spots[n][1] : spots[n + 1][0] if n + 1 < len(ids) else len(text)]
            w, ln = numbers("width", tail), numbers("length", tail)
            if w != [model[i][keys[0]]]:
                return bad("printed_width", f"{what} of {i!r}", text, model[i])
            if strip and target == "containers":
                mon.ev("strip_containers_printed")
                if ln:
                    return bad("printed_length", f"{what} of the strip", text, "its width only")
            elif ln != [model[i][keys[1]]]:
                return bad("printed_length", f"{what} of {i!r}", text, model[i])
    return True


def check(case, mon):
    H = hp()
    p = G.build(case)
    strip = case["mode"] == "strip"

    def entries():
        return {
            t: {i: {k: getattr(p, t)[i][k] for k in getattr(p, t)[i]} for i in getattr(p, t)}
            for t in KEYS
        }

    def read_all(where, k):
        model = entries()
        if p.solution:
            mon.ev("read_while_solved")
        for t in ("items", "containers"):
            if not read(p, t, model[t], strip, mon, k, where):
                return False
        return True

    # what is there at the start is what was given
    given = {i[0]: {"w": i[1], "l": i[2]} for i in case["items"]}
    if {i: dict(d) for i, d in p.items.items()} != given or list(p.items) != list(given):
        mon.bad("start_items", f"items {dict(p.items)}, given {given}")
        return
    if not strip:
        given = {c[0]: {"W": c[1], "L": c[2]} for c in case["containers"]}
        if {i: dict(d) for i, d in p.containers.items()} != given or list(p.containers) != list(given):
            mon.bad("start_containers", f"containers {dict(p.containers)}, given {given}")
            return
    elif len(p.containers) != 1 or [d["W"] for d in p.containers.values()] != [case["W"]]:
        mon.bad("start_containers", f"strip's container {dict(p.containers)}, width {case['W']}")
        return
    if not read_all("at the start", case["probe"][-1]):
        return
    before = entries()
    held = {}
    edited = False
    for step, (target, op, entry, arg, then) in enumerate(case["ops"]):
        if then == "solve":
            p.solve()
        elif then == "local" and len(p.items) < 7:
            p.local_search()
        for t in KEYS:
            for i in getattr(p, t):
                held.setdefault((t, i), getattr(p, t)[i])
        i = c16.rid(entry[0])
        handle = held.get((target, i)) if isinstance(i, str) else None
        if op == "dim_held" and handle is None:
            continue
        raised = None
        try:
            c16.apply_real(p, target, op, entry, arg, case["kind"], handle)
        except Exception as e:  # whether it may is C16's matter
            raised = e
        mon.ev("read_after_refused" if raised else "read_after_" + op)
        where = f"step {step}: after {op} {entry} {arg} on {target}"
        if not read_all(where, case["probe"][step]):
            return
        now = entries()
        if now != before:
            edited = True
        before = now
        if edited:
            mon.sig(op, target, sorted((i, *d.values()) for i, d in now[target].items()))
        # the copies make an equal problem again
        if case["probe"][step] % 3 == 0:
            mon.ev("rebuilt")
            try:
                if strip:
                    q = H.HyperPack(items=p.items.deepcopy(), strip_pack_width=case["W"])
                else:
                    q = H.HyperPack(items=p.items.deepcopy(), containers=p.containers.deepcopy())
            except Exception as e:
                mon.bad("rebuild_failed", f"{where}: {type(e).__name__} {e}")
                return
            if {i: dict(d) for i, d in q.items.items()} != now["items"] or list(q.items) != list(
                now["items"]
            ):
                mon.bad("rebuilt_items", f"{where}: {dict(q.items)}, of {now['items']}")
                return
