"""C22: figures show exactly the solution."""
import json
import os
import pathlib
import shutil
import tempfile

from .. import gen as G
from .. import oracle, runs
from ..env import hp, listening
from .c19 import Versions

CASES = {"quick": 4000, "thorough": 40000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "create_figure on solutions of random bins and strips under random figure settings; the "
    "figures handed to plotly's writers are captured and compared with the solution, some html "
    "files are really written and parsed back; non-trivial: a figure of a container with items"
)
REQUIRED = {"figures_judged": 1500, "rectangles_judged": 4000, "html_captured": 300,
            "image_captured": 300, "shown": 300, "html_files_parsed": 20, "nothing_to_do": 60,
            "without_solution": 60, "export_failures": 60, "strip_figures": 200,
            "without_plotly": 40, "many_items": 1, "figures_again": 300, "default_file_name": 60, "empty_container": 30,
            "not_shown_by_setting": 40}
ASSUMPTIONS = [
    "pixels are not looked at: the figure is judged as the plotly object handed to the writer "
    "(and, for html, as parsed from the file); image rendering itself is plotly's and kaleido's",
]
DEFAULT_NAME = "PlotlyGraph"
# what happens between two figures of the same instance
AGAIN = ("container", "containers", "new container", "item", "items", "height", "min_height",
         "solve", "local", "settings", "settings in place", "nothing")


def gen(rng, tier):
    case = runs.gen_run(
        rng, {"solve": 45, "seq": 25, "pointgen": 15, "local": 12, "hyper": 3},
        rng.choices(["tiny", "small", "mid"], [55, 40, 5])[0],
    )
    r = rng.random()
    if r < 0.06:
        case["figure"] = None
    elif r < 0.12:
        case["figure"] = {}
    else:
        f = {}
        if rng.random() < 0.4:
            f["show"] = rng.random() < 0.7
        if rng.random() < 0.75:
            e = {"type": rng.choice(["html", "image"])}
            if rng.random() < 0.75:
                e["file_name"] = rng.choice(["a", "plot_1", "A-b", "x" * 45])
            if e["type"] == "image":
                e["format"] = rng.choice(["pdf", "png", "jpeg", "webp", "svg"])
                for k in ("width", "height"):
                    if rng.random() < 0.3:
                        e[k] = rng.choice([1, 300, 2500])
            f["export"] = e
        case["figure"] = f
    case["arg"] = rng.choice([None, None, True, False])
    case["fail"] = rng.choice([None] * 9 + ["raise", "dir"])
    case["fail_at"] = rng.randint(0, 2)
    case["real"] = rng.random() < 0.05
    case["skip_solve"] = rng.random() < 0.08
    case["plotly"] = None if rng.random() < 0.05 else "ok"
    case["min_after"] = rng.randint(1, 40) if rng.random() < 0.15 else None
    if case["mode"] == "bin" and rng.random() < 0.15 and not case.get("via"):
        names = rng.sample(["a.1", "a.2", "b.png", "v1.0.0", ".x", "a b", "A.1", "x__y"], 8)
        case["containers"] = [[n, *c[1:]] for n, c in zip(names, case["containers"])]
    case["root"] = rng.random() < 0.25
    case["again"] = [
        [rng.choice(AGAIN), rng.randrange(12)] for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))
    ]
    return case


def corpus(tier):
    n = 1003
    yield {
        "mode": "bin", "containers": [["c0", 40, 40]], "rotation": None, "run": "solve",
        "items": [[f"i{k}", 1, 1] for k in range(n)], "strategy": None,
        "figure": {"export": {"type": "html", "file_name": "many"}}, "arg": None, "fail": None,
        "fail_at": 0, "real": False, "skip_solve": False, "plotly": "ok", "min_after": None,
    }
    base = {"strategy": None, "fail": None, "fail_at": 0, "real": True, "skip_solve": False,
            "plotly": "ok", "min_after": None, "rotation": None, "run": "solve", "arg": None,
            "figure": {"export": {"type": "html"}}}
    # items that are hardly visible in their containers
    yield dict(base, mode="bin", containers=[["c0", 400, 350], ["c1", 1500, 2]],
               items=[["a", 350, 349], ["b", 1, 1], ["c", 1, 2], ["d", 3, 1], ["e", 1000, 1],
                      ["f", 1, 2]])
    yield dict(base, mode="bin", containers=[[f"c{k}", 300, 300] for k in range(12)],
               items=[["b", 1, 1], ["c", 300, 300], ["d", 299, 300], ["e", 300, 1]])
    # a strip without any item placed
    yield dict(base, mode="strip", W=2, items=[["too big", 3, 5]])
    yield dict(base, mode="bin", containers=[["", 4, 3], ["箱 %s {}", 3, 3]],
               items=[["<b>x</b>", 3, 3], ["", 2, 1], ["%{x}", 1, 1]])


def shrink(case):
    a = case.get("again") or []
    for i in range(len(a)):
        yield dict(case, again=a[:i] + a[i + 1 :])
    yield from runs.shrink(case)


class Fail(Exception):
    pass


class Spy:
    """Captures the figures handed to plotly's show and writers."""

    def __init__(self, case):
        self.case = case
        self.calls = []  # (kind, path, figure dict, scope size)

    def __enter__(self):
        # the figures' own methods end up in these functions
        import plotly.io as pio

        self.pio = pio
        self.saved = (pio.show, pio.write_html, pio.write_image)
        self.saved_add = None
        if len(self.case["items"]) > 300:
            self.collect()
        real_html = pio.write_html
        spy = self

        def show(fig, *a, **k):
            spy.calls.append(("show", None, fig.to_plotly_json(), None))

        def maybe_fail():
            if spy.case["fail"] == "raise":
                n = sum(1 for c in spy.calls if c[0] != "show")
                if n == spy.case["fail_at"]:
                    raise Fail("injected failure")

        def write_html(fig, file, *a, **k):
            maybe_fail()
            if spy.case["real"]:
                real_html(fig, file, *a, **k)
            elif not os.path.isdir(os.path.dirname(file)):
                open(file, "w")  # raises as the real one does
            spy.calls.append(("html", file, fig.to_plotly_json(), None))

        def write_image(fig, file, *a, **k):
            maybe_fail()
            if not os.path.isdir(os.path.dirname(file)):
                open(file, "wb")
            scope = pio.kaleido.scope
            size = (
                k.get("width") or scope.default_width,
                k.get("height") or scope.default_height,
            )
            spy.calls.append(("image", file, fig.to_plotly_json(), size))

        pio.show, pio.write_html, pio.write_image = show, write_html, write_image
        return self

    def collect(self):
        """
        plotly's add_shape takes quadratic time: for many items each shape is validated on
        its own and joins the layout when the figure is handed over.
        """
        import plotly.graph_objects as go

        F = self.G = go.Figure
        self.saved_add = (F.add_shape, F.add_trace, F.to_plotly_json)
        dumps = F.to_plotly_json

        def add_shape(fig, *a, **k):
            fig.__dict__.setdefault("_hpmon", []).append(go.layout.Shape(*a, **k).to_plotly_json())
            return fig

        def to_plotly_json(fig):
            d = dumps(fig)
            lay = d["layout"]
            lay["shapes"] = list(lay.get("shapes") or ()) + fig.__dict__.get("_hpmon", [])
            return d

        F.add_shape, F.to_plotly_json = add_shape, to_plotly_json
        F.add_trace = lambda fig, *a, **k: fig

    def __exit__(self, *a):
        if self.saved_add:
            self.G.add_shape, self.G.add_trace, self.G.to_plotly_json = self.saved_add
        self.pio.show, self.pio.write_html, self.pio.write_image = self.saved


def judge_figure(fig, cid, p, strip, min_height, mon, where):
    mon.ev("figures_judged")
    s = p.solution[cid]
    W, L = p.containers[cid]["W"], p.containers[cid]["L"]
    if strip:
        mon.ev("strip_figures")
        L = max(oracle.used_height(s), min_height or 0)
    lay = fig["layout"]
    title = (lay.get("title") or {}).get("text")
    if title != cid:
        return mon.bad("title", f"{where}: the figure of {cid!r} has the title {title!r}")
    rects = []
    for sh in lay.get("shapes") or ():
        if sh.get("type") != "rect":
            continue
        if any(not isinstance(sh.get(k), (int, float)) for k in ("x0", "x1", "y0", "y1")):
            return mon.bad("shape", f"{where}: {cid!r}: a rectangle at no place: {sh}")
        x0, x1 = sorted((sh["x0"], sh["x1"]))
        y0, y1 = sorted((sh["y0"], sh["y1"]))
        rects.append((x0, y0, x1 - x0, y1 - y0, (sh.get("label") or {}).get("text")))
    want = [(*e, i) for i, e in s.items()] + [(0, 0, W, L, None)]
    mon.ev("rectangles_judged", len(rects))
    k = lambda r: tuple(map(repr, r))
    if sorted(rects, key=k) != sorted(want, key=k):
        extra = [r for r in rects if r not in want][:3]
        missing = [r for r in want if r not in rects][:3]
        return mon.bad(
            "rectangles", f"{where}: {cid!r}: drawn but not in the solution {extra}, missing {missing}"
        )
    # neither must traces (hover points, outlines) tell of other places
    for tr in fig.get("data") or ():
        if "x" not in tr and "y" not in tr:
            continue
        xs, ys = tr.get("x", ()), tr.get("y", ())
        if isinstance(xs, (str, dict)) or isinstance(ys, (str, dict)):
            continue  # encoded
        xs, ys = list(xs), list(ys)
        mon.ev("trace_points_judged", len(xs))
        if len(xs) != len(ys) or not all(
            any(x <= a <= x + w and y <= b <= y + l for x, y, w, l, _ in want)
            for a, b in zip(xs, ys)
        ):
            return mon.bad("trace", f"{where}: {cid!r}: trace points {xs} {ys}, solution {s}")
    # the axes must not cut the container off
    for ax, size in (("xaxis", W), ("yaxis", L)):
        r = (lay.get(ax) or {}).get("range")
        if r and (min(r) > 0 or max(r) < size):
            return mon.bad("axis", f"{where}: {cid!r}: {ax} shows {r} of 0..{size}")
    if s:
        mon.sig(cid, want)
    else:
        mon.ev("empty_container")
    return True


def parse_html(path):
    text = open(path, encoding="utf-8").read()
    at = text.rindex("Plotly.newPlot(")
    dec = json.JSONDecoder()
    at = text.index("[", at)
    data, end = dec.raw_decode(text, at)
    layout, _ = dec.raw_decode(text, text.index("{", end))
    return {"layout": layout, "data": data}


def check(case, mon):
    h = hp()
    from hyperpack.exceptions import FigureExportError, SettingsError

    base = tempfile.mkdtemp(prefix="c22-", dir=os.environ.get("HPMON_TMP"))
    if case.get("root"):
        mon.ev("root_listeners")
    try:
        with listening(case.get("root")) as cap:
            _check(case, mon, h, base, cap, FigureExportError, SettingsError)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _check(case, mon, h, base, cap, FigureExportError, SettingsError):
    target = os.path.join(base, "figs")
    os.mkdir(target)
    no_plotly = case["plotly"] is None
    f = None if no_plotly else case["figure"]
    extra = {}
    if f is not None:
        f = json.loads(json.dumps(f))
        if "export" in f:
            f["export"]["path"] = target
        extra["figure"] = f
    strip = case["mode"] == "strip"
    fig = f or {}
    export = fig.get("export")
    with Versions([None, None] if no_plotly else ["5.24.1", "0.2.1"]):
        if case["skip_solve"]:
            cls = h.PointGenPack if case["run"] == "pointgen" else h.HyperPack
            p = G.build(case, cls, **extra)
        else:
            p = runs.execute(case, lambda o: None, mon, **extra)
    if not case["skip_solve"] and strip and case["min_after"]:
        if case["min_after"] <= p.container_height:
            p.container_min_height = case["min_after"]
    before = None if case["skip_solve"] else oracle.plain_solution(p)
    mh = p.container_min_height if strip else None
    # the setting has precedence
    show = bool(fig["show"] if "show" in fig else case["arg"])
    if fig.get("show") is False and case["arg"]:
        mon.ev("not_shown_by_setting")
    if case["fail"] == "dir" and export:
        os.rmdir(target)
    del cap.records[:]
    raised = None
    kw = {} if case["arg"] is None else {"show": case["arg"]}
    where = f"figure {f}, show={case['arg']}, {case['run']} {case['mode']}"
    with Spy(case) as spy:
        try:
            p.create_figure(**kw)
        except (FigureExportError, SettingsError, Fail, OSError) as e:
            raised = e
    warns = [m for lv, m in cap.records if lv == "WARNING"]
    files = sorted(
        os.path.relpath(os.path.join(d, x), base) for d, _, fs in os.walk(base) for x in fs
    )
    if case["skip_solve"] or (not no_plotly and not show and not export):
        mon.ev("without_solution" if case["skip_solve"] else "nothing_to_do")
        if raised or spy.calls or files or not warns:
            mon.bad(
                "not_only_warned", f"{where}: {raised!r}, calls {spy.calls}, files {files}, "
                f"warnings {warns}"
            )
        return
    if no_plotly:
        mon.ev("without_plotly")
        if not isinstance(raised, SettingsError) or spy.calls or files:
            mon.bad("without_plotly", f"{where}: {raised!r} {len(spy.calls)} figures, files {files}")
        return
    conts = list(p.containers)
    failing = export and (
        case["fail"] == "dir" or (case["fail"] == "raise" and case["fail_at"] < len(conts))
    )
    if failing:
        mon.ev("export_failures")
        if not isinstance(raised, FigureExportError):
            mon.bad("failure_not_raised", f"{where}: export failure {case['fail']}: {raised!r}")
            return
        conts = conts[: case["fail_at"] if case["fail"] == "raise" else 0]
        # figures of the containers before the failure are judged all the same
    elif raised is not None:
        mon.bad("raised", f"{where}: {raised!r}")
        return
    if warns:
        mon.bad("warned", f"{where}: {warns}")
    kinds = [c[0] for c in spy.calls]
    want_kinds = []
    for _ in conts:
        want_kinds += ([export["type"]] if export else []) + (["show"] if show else [])
    if sorted(kinds) != sorted(want_kinds):
        mon.bad("operations", f"{where}: {kinds} for {len(conts)} containers")
        return
    if len(p.items) > 1000:
        mon.ev("many_items")
    for kind in ("show", "html", "image"):
        calls = [c for c in spy.calls if c[0] == kind]
        if not calls:
            continue
        for cid, (_, path, got, size) in zip(conts, calls):
            if not judge_figure(got, cid, p, strip, mh, mon, f"{where} {kind}"):
                return
            if kind == "show":
                mon.ev("shown")
                continue
            name = export.get("file_name") or DEFAULT_NAME
            if "file_name" not in case["figure"]["export"]:
                mon.ev("default_file_name")
                name = DEFAULT_NAME
            ext = "html" if kind == "html" else export["format"]
            want = os.path.join(target, f"{name}__{cid}.{ext}")
            mon.ev(kind + "_captured")
            if str(pathlib.Path(path)) != str(pathlib.Path(want)):
                mon.bad("path", f"{where}: written to {path}, asked {want}")
                return
            if kind == "image":
                ws = (export.get("width") or 1700, export.get("height") or 1700)
                if size != ws:
                    mon.bad("image_size", f"{where}: image of {size}, asked {ws}")
                    return
            elif case["real"]:
                got = parse_html(want)
                mon.ev("html_files_parsed")
                if not judge_figure(got, cid, p, strip, mh, mon, f"{where} file"):
                    return
    if case["real"] and export and export["type"] == "html":
        if len(files) != len(conts):
            mon.bad("files", f"{where}: files {files}")
    if oracle.plain_solution(p) != before:
        mon.bad("changes_solution", f"{where}: the solution was changed")
        return
    if failing or len(p.items) > 300:
        return
    done = 0
    for op, n in case.get("again") or ():
        done += 1
        if not again(p, op, n, strip, base, target):
            continue
        mon.ev("figures_again")
        here = f"{where}, after {case['again'][:done]}"
        fig = p.settings.get("figure") or {}
        export = fig.get("export")
        show = fig.get("show", True)
        before = oracle.plain_solution(p)
        mh = p.container_min_height if strip else None
        with Spy(dict(case, fail=None, real=False)) as spy:
            p.create_figure(show=True)
        for kind, on in (("show", show), ("html", export), ("image", export)):
            calls = [c for c in spy.calls if c[0] == kind]
            expected = on and (kind == "show" or export["type"] == kind)
            if len(calls) != (len(p.containers) if expected else 0):
                mon.bad("again_operations", f"{here} {fig}: {len(calls)} {kind} operations")
                return
            for cid, (_, path, got, size) in zip(p.containers, calls):
                if not judge_figure(got, cid, p, strip, mh, mon, f"{here} {kind}"):
                    return
                if kind == "show":
                    continue
                ext = "html" if kind == "html" else export["format"]
                name = export.get("file_name") or DEFAULT_NAME
                want = os.path.join(export["path"], f"{name}__{cid}.{ext}")
                if str(pathlib.Path(path)) != str(pathlib.Path(want)):
                    mon.bad("again_path", f"{here}: written to {path}, asked {want}")
                    return
                if kind == "image":
                    ws = (export.get("width") or 1700, export.get("height") or 1700)
                    if size != ws:
                        mon.bad("again_image_size", f"{here}: image of {size}, asked {ws}")
                        return
        if oracle.plain_solution(p) != before:
            mon.bad("changes_solution", f"{here}: the solution was changed")
            return


def again(p, op, n, strip, base, target):
    """What happens before the next figure; returns whether there is a solution to draw."""
    ids, cids = list(p.items), list(p.containers)
    if op in ("container", "containers", "new container") and strip:
        op = "item"
    if op == "container":
        p.containers[cids[n % len(cids)]]["WL"[n % 2]] = n + 1
    elif op == "containers":
        p.containers = {k: {"W": d["L"], "L": d["W"] + n} for k, d in p.containers.items()}
    elif op == "new container":
        p.containers["another container"] = {"W": n + 1, "L": 4}
    elif op == "item":
        p.items[ids[n % len(ids)]]["wl"[n % 2]] = n + 1
    elif op == "items":
        p.items = {k: {"w": d["l"], "l": d["w"]} for k, d in list(p.items.items())[::-1]}
    elif op in ("height", "min_height") and strip:
        p.container_height = max(60 + n, p.container_min_height or 0)
        if op == "min_height":
            p.container_min_height = n + 1
    elif op == "local" and len(p.items) < 6 and hasattr(p, "local_search"):
        p.local_search()
    elif op.startswith("settings"):
        other = os.path.join(base, "others")
        os.makedirs(other, exist_ok=True)
        f = [
            {"export": {"type": "html", "path": other, "file_name": "second"}},
            {"export": {"type": "image", "path": target, "format": "png", "width": 77}},
            {"show": False, "export": {"type": "html", "path": target}},
            {"show": True},
        ][n % 4]
        if op == "settings":
            p.settings = dict(p.settings, figure=f)
        else:
            p.settings["figure"] = f
            p.validate_settings()
    if op not in ("local", "nothing", "settings", "settings in place"):
        p.solve()
    return bool(p.solution)
