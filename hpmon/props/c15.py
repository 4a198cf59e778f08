"""C15: the strip's height limit is kept, tightened and guarded consistently."""
from .. import gen as G
from .. import oracle, runs
from ..env import hp

CASES = {"quick": 16000, "thorough": 350000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "random histories of height changes (valid and invalid), resets, forbidden edits, "
    "constructions and searches on strips, against a model of the limits; non-trivial: a search "
    "lowered the height"
)
REQUIRED = {"op_solve": 3000, "op_local": 3000, "op_hyper": 300, "op_mp": 50, "op_reset": 1000,
            "set_accepted": 3000, "set_refused": 3000, "forbidden_edits": 2000,
            "heights_lowered": 800, "height_at_minimum": 20}
NAMES = ("height", "min_height")


def gen(rng, tier):
    case = G.strip_problem(rng, rng.choice(["tiny", "small", "small", "mid"]), tight=False, min_height=False)
    del case["items"][rng.randint(2, 8) :]
    W = case["W"]
    if rng.random() < 0.8:
        case["items"] = [[i, min(w, W), min(l, 8 * W)] for i, w, l in case["items"]]
    case["strategy"] = G.strategy(rng)
    tall = max(i[2] for i in case["items"])
    ops = []
    for _ in range(rng.randint(3, 12)):
        k = rng.choices(
            ["solve", "local", "hyper", "mp", "height", "min_height", "reset", "forbidden"],
            [14, 18, 4, 0.7, 22, 18, 10, 10],
        )[0]
        v = None
        if k in NAMES:
            v = rng.choice(
                [rng.randint(1, 10 * W), rng.randint(1, tall + 3), rng.randint(1, 20 * W),
                 0, -1, -5, "5", None, 2.0, 3.5, [4]]
            )
        if k == "forbidden":
            v = rng.randrange(9)
        if k in ("hyper", "mp"):
            v = [G.strategy(rng, "suffix2") for _ in range(rng.randint(1, 3))]
        ops.append([k, v])
    case["ops"] = ops
    return case


def shrink(case):
    ops = case["ops"]
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1 :])
    yield from runs.shrink(case)


def forbidden(p, cid, k):
    c = p.containers
    if k == 0:
        p.containers = {"a": {"W": 3, "L": 3}}
    elif k == 1:
        c[cid]["W"] = 7
    elif k == 2:
        c[cid] = {"W": 3, "L": 3}
    elif k == 3:
        del c[cid]
    elif k == 4:
        c["other"] = {"W": 3, "L": 3}
    elif k == 5:
        c.update({cid: {"W": 4, "L": 4}})
    elif k == 6:
        del p.container_height
    elif k == 7:
        del p.container_min_height
    else:
        c[cid]["L"] = 3


def check(case, mon):
    hyperpack = hp()
    ev = []

    class Traced(hyperpack.HyperPack):
        def solve(self, sequence=None, debug=False):
            h = self.container_height
            super().solve(sequence=sequence, debug=debug)
            used = max([oracle.used_height(s) for s in self.solution.values()] or [0])
            ev.append((h, self.container_height, used, self.calculate_obj_value(),
                       sum(map(len, self.solution.values()))))

    p = G.build(case, Traced)
    W = case["W"]
    n = len(case["items"])
    H, M = 10 * W, None
    cid = list(p.containers)[0]
    mon.check(
        (p.container_height, p.container_min_height) == (H, None), "start",
        lambda: f"width {W} starts with height {p.container_height}, {p.container_min_height}",
    )
    lowered = False
    for k, (op, v) in enumerate(case["ops"]):
        ev.clear()
        before = (p.container_height, p.container_min_height)
        where = f"step {k} {op} {v!r} at height {before}"
        if op in NAMES:
            if op == "height":
                ok = isinstance(v, int) and v >= 1 and (M is None or v >= M)
            else:
                ok = isinstance(v, int) and v >= 1 and v <= H
            try:
                setattr(p, "container_" + op, v)
                done = True
            except (hyperpack.DimensionsError, hyperpack.ContainersError):
                done = False
            mon.ev("set_accepted" if done else "set_refused")
            if done != ok:
                mon.bad("guard", f"{where}: {'accepted' if done else 'refused'}")
                return
            if ok:
                H, M = (v, M) if op == "height" else (H, v)
        elif op == "reset":
            p.reset_container_height()
            H, M = 10 * W, None
            mon.ev("op_reset")
        elif op == "forbidden":
            try:
                forbidden(p, cid, v)
                mon.bad("forbidden_edit", f"{where}: accepted")
            except (hyperpack.DimensionsError, hyperpack.ContainersError):
                mon.ev("forbidden_edits")
            if list(p.containers) != [cid] or p.containers[cid]["W"] != W:
                mon.bad("forbidden_edit", f"{where}: containers now {p.containers}")
                return
        elif op == "solve":
            p.solve()
            mon.ev("op_solve")
            used = oracle.used_height(p.solution[cid])
            if used > H:
                mon.bad("limit_exceeded", f"{where}: construction reaches {used}")
        elif op == "local":
            p.local_search()
            mon.ev("op_local")
            if not ev:
                continue
            now, best = H, ev[0][3]
            accepted = False
            for j, (h, h2, used, obj, placed) in enumerate(ev):
                if h != now or h2 != now:
                    mon.bad(
                        "height_in_search",
                        f"{where}: construction {j} under height {h}, {now} expected",
                    )
                    break
                if used > h:
                    mon.bad("limit_exceeded", f"{where}: construction {j} reaches {used}")
                if j and obj > best and (M is not None or placed == n):
                    best, accepted = obj, True
                    now = max(used, M or 0)
            final = oracle.used_height(p.solution[cid])
            want = max(final, M or 0) if accepted else H
            if p.container_height != want:
                mon.bad(
                    "height_after_search",
                    f"{where}: height {p.container_height} after a result of height {final} "
                    f"(accepted nodes: {accepted})",
                )
            if p.container_height > H:
                mon.bad("height_raised", f"{where}: raised to {p.container_height}")
            if p.container_height < H:
                lowered = True
                mon.ev("heights_lowered")
                if M is not None and p.container_height == M:
                    mon.ev("height_at_minimum")
            H = p.container_height
        else:
            p.settings = {**p.settings, "workers_num": 2 if op == "mp" else 1}
            runs.fix_strategies(p, v)
            p.hypersearch(orientation=None, sorting_by=None)
            mon.ev("op_" + op)
            used = oracle.used_height(p.solution[cid])
            if used > H:
                mon.bad("limit_exceeded", f"{where}: result reaches {used}")
            hs = [x for e in ev for x in e[:2]]
            if any(b > a for a, b in zip(hs, hs[1:])):
                mon.bad("height_raised", f"{where}: heights {hs}")
            if p.container_height > H:
                mon.bad("height_raised", f"{where}: raised to {p.container_height}")
            if M is not None and p.container_height < M:
                mon.bad("below_minimum", f"{where}: lowered to {p.container_height}")
            H = p.container_height
        if (p.container_height, p.container_min_height) != (H, M):
            mon.bad(
                "limits",
                f"{where}: limits now {(p.container_height, p.container_min_height)}, "
                f"expected {(H, M)}",
            )
            return
    if lowered:
        mon.sig(case["ops"], case["items"], W)
