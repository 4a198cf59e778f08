"""C21: the solution log states what the solution is."""
import ast
import logging
import re

from .. import gen as G
from .. import oracle, runs
from ..env import hp, listening

CASES = {"quick": 40000, "thorough": 1200000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "log_solution() on random histories of constructions, searches, edits and partial sequences, "
    "parsed and compared with the numbers computed from the solution; non-trivial: a log of a "
    "solution with at least one item placed"
)
REQUIRED = {"logs_compared": 40000, "without_solution": 5000, "with_remaining": 10000,
            "strip_logs": 8000, "empty_strip_logs": 80, "min_height_logs": 500,
            "empty_container_logs": 1000, "after_edit": 3000,
            "edited_and_solved_again": 3000}
ASSUMPTIONS = ["numbers are compared within the 4 decimals printed; wording and layout are free "
               "as long as the documented lines can be found"]


EDITS = ("item", "new item", "delete", "solve again", "height", "settings", "strategy",
         "container", "container", "new container", "containers", "items")


def gen(rng, tier):
    case = runs.gen_run(
        rng, {"solve": 45, "seq": 30, "pointgen": 10, "local": 12, "hyper": 3},
        rng.choices(["tiny", "small", "mid"], [30, 55, 15])[0],
    )
    case["edits"] = [
        [rng.choice(EDITS), rng.randrange(9)] for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4]))
    ]
    case["min_after"] = rng.randint(1, 60) if rng.random() < 0.2 else None
    case["root"] = rng.random() < 0.25
    return case


def shrink(case):
    for i in range(len(case["edits"])):
        yield dict(case, edits=case["edits"][:i] + case["edits"][i + 1 :])
    yield from runs.shrink(case)


NUM = r"([0-9]+(?:\.[0-9]+)?(?:e[-+]?\d+)?)"


def near(text, want):
    return abs(float(text) - want) <= 1e-4 * max(1, abs(want) * 1e-6) + 1e-9


def judge(p, text, mon, where, height_floor):
    """Compares the parsed text with the solution."""
    sol = p.solution
    strip = p.container_height is not None
    placed = {i for s in sol.values() for i in s}
    n = len(p.items)
    m = re.search(r"items stored\s*:\s*" + NUM + r"\s*%", text)
    if not m:
        return mon.bad("no_percentage", f"{where}: {text!r}")
    if not near(m.group(1), 100 * len(placed) / n):
        return mon.bad("percentage", f"{where}: {m.group(1)}% logged, {len(placed)} of {n} placed")
    # the part about each container starts at its own line, in the order of the containers
    pos = m.end()
    starts = []
    for c in p.containers:
        at = text.find(f"Container: {c} ", pos)
        if at < 0:
            return mon.bad("container_missing", f"{where}: {c!r} not in {text!r}")
        starts.append(at)
        pos = at + len(f"Container: {c} ")
    tail = text.rfind("Remaining items")
    if tail < pos:
        return mon.bad("no_remaining", f"{where}: {text!r}")
    for c, a, b in zip(p.containers, starts, starts[1:] + [tail]):
        part = text[a + len(f"Container: {c} ") : b]
        W, L = p.containers[c]["W"], p.containers[c]["L"]
        s = sol[c]
        used = oracle.used_height(s)
        if strip:
            L = max(used, height_floor or 0)
        if not s:
            mon.ev("empty_strip_logs" if strip else "empty_container_logs")
        m = re.match(r"\s*(\d+)\s*x\s*(\d+)", part)
        if not m or (int(m.group(1)), int(m.group(2))) != (W, L):
            return mon.bad("size", f"{where}: {c!r} is {W}x{L}, logged {part!r}")
        m = re.search(r"util%?\]?\s*:\s*" + NUM + r"\s*%", part)
        want = 100 * oracle.area(s) / (W * L) if L else 0
        if not m or not near(m.group(1), want):
            return mon.bad("utilization", f"{where}: {c!r} has {want}%, logged {part!r}")
        if strip:
            m = re.search(r"max height\]?\s*:\s*(\d+)", part)
            if not m or int(m.group(1)) != used:
                return mon.bad("height", f"{where}: height {used}, logged {part!r}")
    m = re.search(r"Remaining items\s*:\s*(\[.*\])", text[tail:], re.S)
    try:
        left = ast.literal_eval(m.group(1))
    except Exception:
        return mon.bad("remaining_unreadable", f"{where}: {text[tail:]!r}")
    want = [i for i in p.items if i not in placed]
    if left != want:
        return mon.bad("remaining", f"{where}: not placed {want}, logged {left}")
    if want:
        mon.ev("with_remaining")
    if placed:
        mon.sig(text)


def log(p, mon, cap, where, floor):
    del cap.records[:]
    before = oracle.plain_solution(p) if p.solution else None
    out = p.log_solution()
    infos = [m for lv, m in cap.records if lv == "INFO"]
    warns = [m for lv, m in cap.records if lv == "WARNING"]
    worse = [r for r in cap.records if r[0] in ("ERROR", "CRITICAL")]
    if worse:
        mon.bad("logs_error", f"{where}: {worse}")
    if before is None:
        mon.ev("without_solution")
        if not warns or infos or out:
            mon.bad("no_solution_log", f"{where}: without a solution: {out!r} {cap.records}")
        return
    mon.ev("logs_compared")
    if not isinstance(out, str) or infos != [out] or warns:
        mon.bad("not_logged", f"{where}: returned {out!r}, logged {cap.records}")
        return
    if p.container_height is not None:
        mon.ev("strip_logs")
        if floor:
            mon.ev("min_height_logs")
    judge(p, out, mon, where, floor)
    if oracle.plain_solution(p) != before:
        mon.bad("changes_solution", f"{where}: the solution was changed")


def check(case, mon):
    hp()
    if case.get("root"):
        mon.ev("root_listeners")
    lg = logging.getLogger("hyperpack")
    level = lg.level
    lg.setLevel(logging.INFO)
    try:
        with listening(case.get("root")) as cap:
            _check(case, mon, cap)
    finally:
        lg.setLevel(level)


def _check(case, mon, cap):
    h = hp()
    cls = h.PointGenPack if case["run"] == "pointgen" else h.HyperPack
    q = G.build(case, cls)
    log(q, mon, cap, "new instance", None)
    p = runs.execute(case, lambda o: None, mon)
    strip = case["mode"] == "strip"
    log(p, mon, cap, case["run"], p.container_min_height if strip else None)
    if strip and case["min_after"] and case["min_after"] <= p.container_height:
        p.container_min_height = case["min_after"]
        log(p, mon, cap, "with minimum height", p.container_min_height)
    for e, n in case["edits"]:
        i = list(p.items)[n % len(p.items)]
        c = list(p.containers)[n % len(p.containers)]
        if e == "item":
            p.items[i]["w"] += 1
        elif e == "new item":
            p.items["a brand new one"] = {"w": 2, "l": 1}
        elif e == "delete":
            if len(p.items) > 1:
                del p.items[i]
        elif e == "height":
            if strip:
                p.container_height = max(n + 4, p.container_min_height or 0)
        elif e == "container":
            if not strip:
                p.containers[c]["WL"[n % 2]] = n + 1
        elif e == "new container":
            if not strip:
                p.containers["another container"] = {"W": n + 1, "L": 4}
        elif e == "containers":
            if not strip:
                p.containers = {k: {"W": d["L"], "L": d["W"]} for k, d in p.containers.items()}
        elif e == "items":
            p.items = {k: {"w": d["l"], "l": d["w"] + n} for k, d in list(p.items.items())[::-1]}
        elif e == "settings":
            # what the solution was found with may change afterwards
            p.settings = {"rotation": p.settings.get("rotation") is False}
        elif e == "strategy":
            p.potential_points_strategy = ("B", "A")
        elif e == "solve again":
            p.solve(sequence=[i])
        mon.ev("after_edit")
        log(p, mon, cap, f"after edits {case['edits']} {e}", floor(p, strip))
        if n % 3:
            if n % 3 == 1 or case["run"] == "pointgen" or len(p.items) > 6:
                p.solve()
            else:
                p.local_search()
            mon.ev("edited_and_solved_again")
            log(p, mon, cap, f"edits {case['edits']}, {e}, solved again", floor(p, strip))


def floor(p, strip):
    return p.container_min_height if strip else None
