"""C24: library errors are of the documented types and logged when raised."""
import builtins
import os

from .. import gen as G
from .. import runs
from ..env import hp, listening
from . import c16, c19, c20
from .c19 import Versions

CASES = {"quick": 20000, "thorough": 500000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "random histories mixing invalid and valid operations on one instance (construction, mapping "
    "edits, settings, strategies, heights, figures, worker failures) with a handler on the "
    "library's logger; non-trivial: an error was raised, signature is its type and message"
)
REQUIRED = {"raised_ContainersError": 2000, "raised_ItemsError": 2000, "raised_DimensionsError": 5000,
            "raised_SettingsError": 4000, "raised_PotentialPointsError": 2000,
            "raised_FigureExportError": 200, "raised_MultiProcessError": 30,
            "quiet_operations": 30000, "constructor_errors": 2000, "searches_quiet": 2000,
            "strip_width_errors": 300}
ASSUMPTIONS = ["missing keys (KeyError) and unknown sorting criteria (NotImplementedError) are "
               "Python's own exceptions, not the library's"]
FAILURES = ["OSError", "RuntimeError", "ValueError", "KeyError", "TypeError", "PermissionError",
            "ImportError", "AttributeError", "MemoryError", "ZeroDivisionError", "custom"]
TEXTS = ["injected", "long " * 120, "can't write {file}", "{}", "100%", "%s", "{0!r} %d", "", "two\nlines", "箱"]
BAD_INT = [0, -1, 1.5, "3", None, [], {}]


def gen(rng, tier):
    case = c16.gen(rng, tier)
    ops = [["edit", *o] for o in case["ops"]]
    for _ in range(rng.randint(1, 5)):
        k = rng.randrange(11)
        if k == 0:
            o = ["settings", c19.gen_settings(rng, rng.choice([0, 0.3, 0.6])),
                 [rng.choice(c19.PLOTLY), rng.choice(c19.KALEIDO)], rng.choice(["assign", "init"])]
        elif k == 1:
            o = ["strategy", c20.gen_value(rng)]
        elif k == 2:
            o = ["del", rng.choice(["items", "containers", "settings", "potential_points_strategy",
                                    "container_height", "container_min_height"])]
        elif k == 3:
            o = [rng.choice(["height", "min_height"]), rng.choice(BAD_INT + list(range(1, 60)) * 2)]
        elif k == 4:
            o = ["width", rng.choice([0, -3, 2.5, "4", [], {}, 3, 5])]
        elif k == 5:
            o = ["new", rng.choice(["items", "containers", "both"]),
                 rng.choice([None, [], {}, 5, "x", {"a": 5}, {"a": {}}, {"a": {"w": 1}},
                             {"a": {"w": 0, "l": 1}}, {"a": {"W": 1, "L": 1}},
                             {"a": {"w": 1, "l": 1}}, {"a": {"w": 1, "l": "1"}}])]
        elif k == 6:
            o = ["figure", rng.choice(["none", "gone", "gone", "plotly", "show"]),
                 [rng.choice(FAILURES), rng.choice(TEXTS)]]
        elif k == 7 and rng.random() < 0.06:
            o = ["mp", rng.choice(["all", "all", "ok"])]
        elif k == 8:
            o = ["reference"]
        else:
            o = [rng.choice(["solve", "local", "log", "sort", "orient", "hyper"])]
        ops.append(o)
    rng.shuffle(ops)
    case["ops"] = ops
    case["root"] = rng.random() < 0.25
    return case


def shrink(case):
    for i in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1 :])
    yield from runs.shrink(case)


class Fail(Exception):
    pass


def check(case, mon):
    h = hp()
    from hyperpack import exceptions as E

    p = G.build(dict(case, ops=None))
    if case.get("root"):
        mon.ev("root_listeners")
    with listening(case.get("root")) as cap:
        for step, op in enumerate(case["ops"]):
            where = f"step {step}: {op}"
            allowed, builtin = set(), set()
            fn = plan(h, E, p, op, case, allowed, builtin, mon)
            if fn is None:
                continue
            del cap.records[:]
            raised = None
            try:
                fn()
            except Exception as e:
                raised = e
            errors = [m for lv, m in cap.records if lv in ("ERROR", "CRITICAL")]
            if raised is None:
                mon.ev("quiet_operations")
                if op[0] in ("local", "hyper", "solve", "mp"):
                    mon.ev("searches_quiet")
                if errors:
                    mon.bad("logged_without_error", f"{where}: succeeded but logged {errors}")
                    return
                continue
            if isinstance(raised, Fail):
                raise raised
            if isinstance(raised, tuple(builtin)) and not isinstance(
                raised, E.ErrorLoggingException
            ):
                mon.ev("builtin_errors")
                continue
            name = type(raised).__name__
            if type(raised) not in allowed:
                mon.bad(
                    f"type_{op[0]}",
                    f"{where}: raised {name} {raised}, documented: "
                    f"{sorted(t.__name__ for t in allowed)}",
                )
                return
            mon.ev("raised_" + name)
            text = str(raised)
            if not text or text == "None":
                mon.bad("no_message", f"{where}: {name} without a message")
                return
            if text not in errors:
                mon.bad("not_logged", f"{where}: {name} {text!r}, logged {cap.records}")
                return
            mon.sig(name, text, op[0])


def plan(h, E, p, op, case, allowed, builtin, mon):
    """The operation to run; fills the error types documented for it."""
    strip = case["mode"] == "strip"
    kind = op[0]
    if kind == "edit":
        _, target, what, entry, arg, _ = op
        own = E.ItemsError if target == "items" else E.ContainersError
        allowed |= {own, E.DimensionsError}
        if what == "dim_held":  # handles kept over other edits are C16's matter
            what = "dim"
        i = c16.rid(entry[0])
        keys = ("w", "l") if target == "items" else ("W", "L")
        if not (strip and target == "containers"):
            narrow(E, p, target, what, i, entry[1], arg, keys, own, allowed, builtin)
        else:
            builtin.add(KeyError)
        return lambda: c16.apply_real(p, target, what, entry, arg, case["kind"], None)
    if kind == "settings":
        allowed.add(E.SettingsError)
        _, s, vers, how = op
        real = c19.concrete(s)

        def fn():
            with Versions(vers):
                if how == "init":
                    c19.fresh(h.HyperPack, strip, settings=real)
                else:
                    keep = {k: v for k, v in p.settings.items()}
                    try:
                        p.settings = real
                    except Exception:
                        # (what is in force afterwards is left open)
                        p.settings = keep
                        raise
                    p.settings = keep

        return fn
    if kind == "strategy":
        allowed.add(E.PotentialPointsError)

        def fn():
            p.potential_points_strategy = c20.concrete(op[1])

        return fn
    if kind == "del":
        allowed.add(
            {"items": E.ItemsError, "containers": E.ContainersError, "settings": E.SettingsError,
             "potential_points_strategy": E.PotentialPointsError}.get(op[1], E.DimensionsError)
        )
        return lambda: delattr(p, op[1])
    if kind in ("height", "min_height"):
        if not strip:
            return None
        v = op[1]
        if isinstance(v, int) and v > 0:
            allowed.add(E.ContainersError)
        else:
            allowed.add(E.DimensionsError)

        def fn():
            setattr(p, "container_" + kind, v)

        return fn
    if kind == "width":
        allowed.add(E.DimensionsError)
        if not (isinstance(op[1], int) and op[1] > 0):
            mon.ev("strip_width_errors")
        return lambda: h.HyperPack(items={"a": {"w": 1, "l": 1}}, strip_pack_width=op[1])
    if kind == "new":
        mon.ev("constructor_errors")
        items = {"a": {"w": 1, "l": 1}}
        conts = {"c": {"W": 4, "L": 4}}
        if op[1] == "items":
            allowed |= {E.ItemsError, E.DimensionsError}
            return lambda: h.HyperPack(containers=conts, items=op[2])
        if op[1] == "containers":
            allowed |= {E.ContainersError, E.DimensionsError}
            return lambda: h.PointGenPack(containers=op[2], items=items)
        allowed |= {E.ContainersError}
        return lambda: h.HyperPack(containers=conts, items=items, strip_pack_width=3)
    if kind == "figure":
        return figure(h, E, op[1], op[2], allowed)
    if kind == "mp":
        allowed.add(E.MultiProcessError)
        return lambda: mp(h, op[1])
    if kind == "reference":
        from hyperpack.structures import Dimensions

        allowed.add(E.DimensionsError)
        return lambda: Dimensions({"w": 1, "l": 1}, None, None)
    if kind == "solve":
        return p.solve
    if kind == "local":
        return p.local_search if len(p.items) < 6 else p.solve
    if kind == "log":
        return p.log_solution
    if kind == "sort":
        return p.sort_items
    if kind == "orient":
        return p.orient_items
    if kind == "hyper":
        if len(p.items) > 5:
            return None
        d = tuple(h.HyperPack.DEFAULT_POTENTIAL_POINTS_STRATEGY)
        p.get_strategies = lambda **k: [d, d[1:] + d[:1]]
        return p.hypersearch


def narrow(E, p, target, what, i, dims, arg, keys, own, allowed, builtin):
    """Which of the types fits the particular mistake."""
    s = getattr(p, target)
    present = isinstance(i, str) and i in s
    if what in ("set", "setdefault"):
        allowed.clear()
        if not isinstance(i, str):
            allowed.add(own)
        if not c16.valid_dims(dims, keys):
            allowed.add(E.DimensionsError)
    elif what in ("del", "pop", "pop_default", "popitem", "clear"):
        allowed.discard(E.DimensionsError)
        if not present:
            builtin.add(KeyError)
    elif what == "delete":
        allowed.discard(E.DimensionsError)
    elif what.startswith("dim"):
        allowed.discard(own)
        if not present:
            builtin.add(KeyError)
    elif what == "assign" and (not isinstance(arg, list) or not arg):
        allowed.discard(E.DimensionsError)


def figure(h, E, what, failure, allowed):
    import plotly.io as pio

    base = os.path.join(c19.dirs()["<dir>"], "figs")
    os.makedirs(base, exist_ok=True)
    s = {} if what == "show" else {"figure": {"export": {"type": "html", "path": base}}}
    q = h.PointGenPack(containers={"c": {"W": 2, "L": 2}}, items={"a": {"w": 1, "l": 1}}, settings=s)
    if what == "none":
        # without a solution: only a warning
        return q.create_figure
    q.solve()
    if what == "show":
        def fn():
            old, pio.show = pio.show, lambda *a, **k: None
            try:
                q.create_figure(show=True)
            finally:
                pio.show = old

        return fn
    if what == "gone":
        allowed.add(E.FigureExportError)

        def fn():
            old = pio.write_html

            def fail(*a, **k):
                raise getattr(builtins, failure[0], Fail)(failure[1])

            pio.write_html = fail
            try:
                q.create_figure()
            finally:
                pio.write_html = old

        return fn
    allowed.add(E.SettingsError)

    def fn():
        with Versions([None, None]):
            r = h.PointGenPack(containers={"c": {"W": 2, "L": 2}}, items={"a": {"w": 1, "l": 1}})
        r.solve()
        r.create_figure(show=True)

    return fn


def mp(h, what):
    p = h.HyperPack(
        containers={"c": {"W": 3, "L": 3}},
        items={"a": {"w": 1, "l": 1}, "b": {"w": 2, "l": 1}},
        settings={"workers_num": 2},
    )
    d = tuple(h.HyperPack.DEFAULT_POTENTIAL_POINTS_STRATEGY)
    p.get_strategies = lambda **k: [d, d[1:] + d[:1]]
    if what == "ok":
        return p.hypersearch()
    pid = os.getpid()
    orig = h.HyperPack.solve

    def solve(self, *a, **k):
        if os.getpid() != pid:
            raise Fail("injected in a worker")
        return orig(self, *a, **k)

    h.HyperPack.solve = solve
    try:
        p.hypersearch()
    finally:
        h.HyperPack.solve = orig
