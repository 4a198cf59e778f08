"""
Reference model of the point generation construction, over rectangles (no grid).

Written from the published description of the heuristic: potential points of each
placed item, taken in the order of the strategy (first in first out inside a class),
each given the first item of the sequence that fits there, upright before turned.
"""
from collections import deque

RATIO = 0.2


class Bin:
    def __init__(self, W, L):
        self.W, self.L = W, L
        self.rects = []
        self.own = {}

    def mark(self, x, y):
        """0 free, 3 corner cell of an item, 2 side cell, 1 inner cell."""
        r = self.own.get((x, y))
        if r is None:
            return 0
        x0, y0, x1, y1 = r
        sx, sy = x in (x0, x1), y in (y0, y1)
        return 3 if sx and sy else 2 if sx or sy else 1

    def fits(self, x, y, w, l):
        if x + w > self.W or y + l > self.L:
            return False
        for a, b, c, d in self.rects:
            if x < a + c and a < x + w and y < b + d and b < y + l:
                return False
        return True

    def put(self, x, y, w, l):
        self.rects.append((x, y, w, l))
        box = (x, y, x + w - 1, y + l - 1)
        for j in range(y, y + l):
            for i in range(x, x + w):
                self.own[(i, j)] = box


def points_of(b, x, y, w, l):
    """The potential points a just placed item creates, per class."""
    out = {}
    m = b.mark
    W, L = b.W, b.L
    up, right = y + l, x + w
    # -- upper left corner: A, or its projection to the left (A' near, E far), and A"
    if up < L:
        free = m(x, up) == 0
        is_a = free and (
            x == 0
            or (m(x - 1, up - 1) in (2, 3) and m(x - 1, up) in (2, 3))
            or (m(x - 1, up - 1) in (0, 3) and m(x - 1, up) == 3)
        )
        if is_a:
            out["A"] = [(x, up)]
        else:
            if x > 0 and m(x - 1, up) == 0 and m(x - 1, up - 1) == 0:
                stop = None
                for i in range(x - 1, -1, -1):
                    if m(i, up) != 0:
                        stop = i + 1
                        break
                else:
                    if m(0, up - 1) == 0:
                        stop = 0
                if stop is not None:
                    near = (x - stop) / W <= RATIO
                    out["A_" if near else "E"] = [(stop, up)]
            if free:
                out["A__"] = [(x, up)]
    # -- lower right corner: B, or its projection downwards (B' near, F far), and B"
    if right < W:
        free = m(right, y) == 0
        is_b = free and (
            y == 0
            or (m(right - 1, y - 1) in (2, 3) and m(right, y - 1) in (2, 3))
            or (m(right - 1, y - 1) in (0, 3) and m(right, y - 1) == 3)
        )
        if is_b:
            out["B"] = [(right, y)]
        else:
            if y > 0 and m(right, y - 1) == 0 and m(right - 1, y - 1) == 0:
                stop = None
                for j in range(y - 1, -1, -1):
                    here, left = m(right, j), m(right - 1, j)
                    if here != 0:
                        stop = j + 1
                        break
                    if left != 0:
                        break
                    if j == 0:
                        stop = 0
                if stop is not None:
                    near = (y - stop) / L <= RATIO
                    out["B_" if near else "F"] = [(right, stop)]
            if free:
                out["B__"] = [(right, y)]
    # -- C: gaps that start under the upper side's overhanging items; D: likewise on the right
    if up < L:
        cs = [(i + 1, up) for i in range(x, right - 1) if m(i, up) == 3 and m(i + 1, up) == 0]
        if cs:
            out["C"] = cs
    if right < W:
        ds = [
            (right, j + 1)
            for j in range(y, up - 1)
            if m(right, j) == 3 and m(right, j + 1) == 0
        ]
        if ds:
            out["D"] = ds
    return out


def construct(W, L, items, strategy, rotation):
    """items: list of (id, w, l). Returns (placements {id: [x, y, w, l]}, left, trace)."""
    b = Bin(W, L)
    queues = {c: deque() for c in strategy}
    left = list(items)
    placed = {}
    used = {}
    point, cls = (0, 0), "O"
    while point is not None and left:
        x, y = point
        for k, (iid, w, l) in enumerate(left):
            d = None
            if b.fits(x, y, w, l):
                d = (w, l)
            elif rotation and b.fits(x, y, l, w):
                d = (l, w)
            if d is None:
                continue
            del left[k]
            b.put(x, y, *d)
            placed[iid] = [x, y, *d]
            used[cls] = used.get(cls, 0) + 1
            for c, pts in points_of(b, x, y, *d).items():
                if c in queues:
                    queues[c].extend(pts)
            break
        point = None
        for c in strategy:
            if queues[c]:
                point, cls = queues[c].popleft(), c
                break
    return placed, left, used


def solve(conts, items, strategy, rotation):
    """conts: list of (id, W, L)."""
    sol, used = {}, {}
    left = list(items)
    for c, W, L in conts:
        if not left:
            sol[c] = {}
            continue
        sol[c], left, u = construct(W, L, left, strategy, rotation)
        for k, v in u.items():
            used[k] = used.get(k, 0) + v
    return sol, used
