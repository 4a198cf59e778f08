"""Geometric facts computed from a reported solution and the problem data alone."""


def overlap(a, b):
    return (
        a[0] < b[0] + b[2] and b[0] < a[0] + a[2] and a[1] < b[1] + b[3] and b[1] < a[1] + a[3]
    )


def first_overlap(rects):
    """rects: list of (id, [x, y, w, l]). Sweep by x; returns a pair of ids or None."""
    rs = sorted(rects, key=lambda r: r[1][0])
    active = []
    for rid, r in rs:
        active = [q for q in active if q[1][0] + q[1][2] > r[0]]
        for qid, q in active:
            if overlap(q, r):
                return qid, rid
        active.append((rid, r))
    return None


def fits(W, L, rects, x, y, w, l):
    if x + w > W or y + l > L:
        return False
    r = (x, y, w, l)
    return not any(overlap(r, q) for q in rects)


def well_formed(entry):
    return (
        isinstance(entry, (list, tuple))
        and len(entry) == 4
        and all(isinstance(v, int) and not isinstance(v, bool) for v in entry)
    )


def used_height(placed):
    return max([e[1] + e[3] for e in placed.values()] or [0])


def area(placed):
    return sum(e[2] * e[3] for e in placed.values())


def objective(case_mode, solution, cont_dims):
    """
    Per container values and the total objective of a solution.
    cont_dims: {id: (W, L)} in the order of the instance's containers.
    """
    per = {}
    for c, (W, L) in cont_dims.items():
        placed = solution[c]
        if case_mode == "strip":
            h = used_height(placed)
            per[c] = area(placed) / (W * h) if h else 0
        else:
            per[c] = area(placed) / (W * L)
    vals = list(per.values())
    if len(vals) == 1:
        tot = vals[0]
    else:
        tot = sum(vals[:-1]) + 0.7 * vals[-1]
    return per, tot


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def dims_of(p):
    """{container id: (W, L)} of an instance (public attributes only)."""
    return {c: (p.containers[c]["W"], p.containers[c]["L"]) for c in p.containers}


def plain_solution(p):
    return {c: {i: list(e) for i, e in s.items()} for c, s in p.solution.items()}
