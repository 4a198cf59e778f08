"""C27: operations leave nothing behind in the process."""
import atexit
import contextlib
import decimal
import gc
import locale
import logging
import multiprocessing
import os
import random
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import warnings
import weakref

from .. import gen as G
from .. import runs
from ..env import hp

CASES = {"quick": 2400, "thorough": 60000}
CAP = {"quick": 80, "thorough": 700}
RULE = (
    "every kind of operation (constructions, searches with one and many workers, also failing "
    "ones, figures, logs, edits, refused edits, generated data), each carried out three times "
    "between snapshots of the process: workers, threads, descriptors, files, instances alive, "
    "global state of the interpreter, output; non-trivial: the operation placed an item or failed"
)
OPS = {"solve": 10, "seq": 5, "pointgen": 4, "local": 12, "hyper": 8, "mp": 12, "mp_fail": 6,
       "mp_some": 4, "log": 4, "html": 5, "show": 3, "export_fail": 4, "sort": 3, "edit": 5,
       "refused": 8, "settings": 4, "strategy": 3, "generate": 5, "height": 3, "mp_edge": 3}
REQUIRED = {f"op_{o}": 10 for o in OPS}
REQUIRED.update({"snapshots": 5000, "instances_freed": 1500, "workers_run": 400, "all_workers_failed": 50,
                 "other_start_method": 8})
ASSUMPTIONS = [
    "what Python's multiprocessing and plotly keep for themselves (their temporary directory, "
    "kaleido's process, image sizes in kaleido's scope) is theirs: only growth with every "
    "repetition counts for descriptors and exit handlers",
]
EXPORT_ERRORS = ("OSError", "ValueError", "RuntimeError")


def gen(rng, tier):
    op = rng.choices(list(OPS), list(OPS.values()))[0]
    case = G.problem(rng, rng.choice(["tiny", "tiny", "small"]))
    del case["items"][7:]
    case["strategy"] = G.strategy(rng)
    kind = "suffix2" if case["mode"] == "strip" else "suffix"
    case["strategies"] = [G.strategy(rng, kind) for _ in range(rng.randint(1, 5))]
    case["presort"] = [rng.choice(["wide", "long", None]), rng.choice([None, ["area", True]])]
    if op.startswith("mp"):
        case["workers"] = rng.randint(2, 4)
        case["victim"] = rng.randrange(case["workers"])
        # programs may start their processes by another method
        case["start"] = "spawn" if op == "mp" and rng.random() < 0.08 else None
    case["op"] = op
    case["how"] = rng.randrange(1000)
    return case


def shrink(case):
    return G.shrink_problem(case)


# ------------------------------------------------------------------ what the process is like
def children():
    out = []
    for t in os.listdir("/proc/self/task"):
        try:
            with open(f"/proc/self/task/{t}/children") as f:
                out += [int(x) for x in f.read().split()]
        except OSError:
            pass
    return sorted(out)


def what(pid):
    try:
        with open(f"/proc/{pid}/cmdline", "rb") as f:
            cmd = f.read().replace(b"\0", b" ").decode("utf8", "replace")
        with open(f"/proc/{pid}/stat") as f:
            state = f.read().rsplit(")", 1)[1].split()[0]
    except OSError:
        return None
    if "resource_tracker" in cmd or "forkserver" in cmd or "kaleido" in cmd:
        return None
    return f"{pid} {state} {cmd[:60]}"


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            pass
    return out


def tree(d):
    return sorted(
        os.path.relpath(os.path.join(b, x), d) for b, ds, fs in os.walk(d) for x in ds + fs
        if not x.startswith("pymp-")
    )


def log_state():
    out = {"disable": logging.root.manager.disable, "raise": logging.raiseExceptions}
    for name in ("", "hyperpack", "pointgenpack"):
        lg = logging.getLogger(name)
        out[name or "root"] = (lg.level, list(map(id, lg.handlers)), lg.propagate, lg.disabled,
                               len(lg.filters))
    return out


def state():
    """Global state of the interpreter that no library is to change."""
    um = os.umask(0)
    os.umask(um)
    ctx = decimal.getcontext()
    return {
        "random state": random.getstate(),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": um,
        "sys.path": list(sys.path),
        "sys.argv": list(sys.argv),
        "logging": log_state(),
        "warning filters": list(warnings.filters),
        "showwarning": warnings.showwarning,
        "signal handlers": {s: signal.getsignal(s) for s in
                            (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE,
                             signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2)},
        "signal mask": signal.pthread_sigmask(signal.SIG_BLOCK, []),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_freeze_count()),
        "tracing": (sys.gettrace(), sys.getprofile()),
        "hooks": (sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook),
        "streams": (sys.stdin, sys.stdout, sys.stderr),
        "decimal": (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax),
        "locale": locale.setlocale(locale.LC_ALL),
        "socket timeout": socket.getdefaulttimeout(),
        "start method": multiprocessing.get_start_method(),
        "affinity": sorted(os.sched_getaffinity(0)),
        "nice": os.nice(0),
        "limits": [resource.getrlimit(r) for r in
                   (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_CPU,
                    resource.RLIMIT_STACK, resource.RLIMIT_CORE)],
        "byte code": sys.dont_write_bytecode,
        "int digits": sys.get_int_max_str_digits(),
        "process name": multiprocessing.current_process().name,
        "import hooks": (len(sys.meta_path), len(sys.path_hooks)),
    }


def alive(h):
    gc.collect()
    return sum(1 for o in gc.get_objects() if isinstance(o, (h.HyperPack, h.PointGenPack)))


@contextlib.contextmanager
def caught_output(path):
    """Everything written to the standard streams, workers' output included, goes to path."""
    sys.stdout.flush()
    sys.stderr.flush()
    keep = [os.dup(1), os.dup(2)]
    fd = os.open(path, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND)
    try:
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(keep[0], 1)
        os.dup2(keep[1], 2)
        for x in (fd, *keep):
            os.close(x)


_warm = []
_changed_at_first = []
mon_failed = []


def warm_up(h, scratch):
    """First uses: imports, the multiprocessing context, plotly's templates."""
    if _warm:
        return
    _warm.append(1)
    import plotly.graph_objects as go
    import plotly.io

    out = os.path.join(scratch, "warm")
    os.mkdir(out)
    # Python's and plotly's own first uses
    plotly.io.renderers.default  # noqa: B018
    go.Figure().write_html(os.path.join(out, "own.html"))
    queue = multiprocessing.Queue()
    worker = multiprocessing.Process(target=queue.put, args=(1,))
    worker.start()
    queue.get()
    worker.join()
    queue.close()
    queue.join_thread()
    before = state()
    conf = {"workers_num": 2, "figure": {"export": {"type": "html", "path": out}}}
    p = h.HyperPack(containers={"c": {"W": 3, "L": 3}}, items={"a": {"w": 1, "l": 1}}, settings=conf)
    one = p.potential_points_strategy
    p.get_strategies = lambda **k: [one, one]
    p.hypersearch()
    p.create_figure()
    shutil.rmtree(out)
    now = state()
    _changed_at_first.extend(
        (k, f"{str(before[k])[:300]} became {str(now[k])[:300]}")
        for k in before if before[k] != now[k]
    )


def refused(h, p, case, how):
    """An operation that is refused with an error."""
    todo = [
        lambda: p.items.__setitem__("bad", {"w": 0, "l": 1}),
        lambda: p.containers.__setitem__(3, {"W": 1, "L": 1}),
        lambda: setattr(p, "settings", {"rotation": 5}),
        lambda: setattr(p, "potential_points_strategy", ["A"]),
        lambda: setattr(p, "items", {}),
        lambda: h.HyperPack(containers={}, items={}),
        lambda: h.HyperPack(strip_pack_width=-1, items=G.items_of(case)),
        lambda: setattr(p, "container_height", "x"),
        lambda: p.sort_items(("nonsense", True)),
        lambda: p.validate_settings() or delattr(p, "items"),
    ]
    try:
        todo[how % len(todo)]()
    except Exception:
        pass


def check(case, mon):
    h = hp()
    scratch = tempfile.mkdtemp(prefix="hpmon-C27-", dir=os.environ.get("HPMON_TMP"))
    cwd, tmp, out = (os.path.join(scratch, x) for x in ("cwd", "tmp", "out"))
    for d in (cwd, tmp, out):
        os.mkdir(d)
    old = os.getcwd()
    warm_up(h, scratch)
    for k, text in _changed_at_first:
        mon.bad(f"changed_{k}", f"the process's first search with workers and figure: {text}")
    tempfile.tempdir, keep_tmp = tmp, tempfile.tempdir
    os.chdir(cwd)
    import plotly.graph_objects as go
    import plotly.io

    show, write = plotly.io.show, go.Figure.write_html
    try:
        plotly.io.show = lambda *a, **k: None
        if case.get("start"):
            multiprocessing.set_start_method(case["start"], force=True)
            mon.ev("other_start_method")
        inner(h, case, mon, scratch, cwd, tmp, out, go)
    finally:
        if case.get("start"):
            multiprocessing.set_start_method("fork", force=True)
        plotly.io.show, go.Figure.write_html = show, write
        os.chdir(old)
        tempfile.tempdir = keep_tmp
        shutil.rmtree(scratch, ignore_errors=True)


def operation(h, p, case, op, how, r, out, go):
    """Returns whether the operation may print."""
    if op in ("solve", "pointgen"):
        p.solve(debug=how % 5 == 0)
    elif op == "seq":
        ids = list(p.items)
        p.solve(sequence=ids[how % len(ids) :] + ids[: how % len(ids)])
    elif op == "local":
        p.local_search(throttle=how % 2 == 0)
    elif op in ("hyper", "mp", "mp_fail", "mp_some", "mp_edge"):
        todo = list(case["strategies"])
        if op == "mp_fail":
            todo = [("nonsense",)] * len(todo)
        elif op == "mp_some":
            todo[case["victim"] % len(todo)] = ("nonsense",)
        runs.fix_strategies(p, todo)
        o, s = case["presort"]
        try:
            p.hypersearch(orientation=o, sorting_by=tuple(s) if s else None)
        except Exception:
            if op not in ("mp_fail", "mp_some"):
                raise
            mon_failed.append(op)
    elif op == "log":
        p.log_solution()
        p.solve()
        p.log_solution()
    elif op in ("html", "show", "export_fail"):
        p.solve()
        try:
            p.create_figure(show=op == "show")
        except h.FigureExportError:
            if op != "export_fail":
                raise
    elif op == "sort":
        p.sort_items((("area", "perimeter", "longest_side_ratio")[how % 3], how % 2 == 0))
        p.orient_items(("wide", "long")[how // 3 % 2])
    elif op == "edit":
        i = list(p.items)[how % len(p.items)]
        p.items[i]["w"] = 1 + (how + r) % 5
        p.items[f"new{r}"] = {"w": 1, "l": 2}
        del p.items[f"new{r}"]
        p.items = p.items.deepcopy()
        p.solve()
    elif op == "refused":
        refused(h, p, case, how)
    elif op == "settings":
        p.settings = {"rotation": how % 2 == 0, "max_time_in_seconds": 1 + how % 50}
        p.validate_settings()
    elif op == "strategy":
        p.potential_points_strategy = tuple(G.CLASSES)[how % 9 :]
        p.get_strategies()
    elif op == "height":
        p.reset_container_height()
        if case["mode"] == "strip":
            p.container_height = 5 + how % 20
            p.container_min_height = 1 + how % 5
    elif op == "generate":
        h.generate_problem_data(containers_num=1 + how % 3, items_num=1 + how % 20)


def inner(h, case, mon, scratch, cwd, tmp, out, go):
    op, how = case["op"], case["how"]
    extra = {}
    if op in ("html", "export_fail"):
        extra["figure"] = {"export": {"type": "html", "path": out, "file_name": "fig"}}
    if op == "mp_edge":
        case = dict(case, strategies=case["strategies"][:1])
    c = dict(case, run="pointgen" if op == "pointgen" else "hyper")
    before_alive = alive(h)
    cls = h.PointGenPack if op == "pointgen" else h.HyperPack
    p = G.build(c, cls, **extra)
    ref = weakref.ref(p)
    log = os.path.join(scratch, "output")
    grown = []
    mon.ev(f"op_{op}")
    if op == "export_fail":
        err = {"OSError": OSError, "ValueError": ValueError, "RuntimeError": RuntimeError}[
            EXPORT_ERRORS[how % 3]
        ]

        def fail(*a, **k):
            raise err("injected")

        go.Figure.write_html = fail
    for r in range(1 if case.get("start") else 4):
        a, kids, threads = state(), children(), set(threading.enumerate())
        files = tree(cwd), tree(tmp), tree(out)
        with caught_output(log):
            operation(h, p, case, op, how, r, out, go)
        if mon_failed:
            mon.ev("all_workers_failed", len(mon_failed))
            mon_failed.clear()
        b = state()
        mon.ev("snapshots")
        if op.startswith("mp"):
            mon.ev("workers_run", min(case["workers"], len(case["strategies"])))
        for k in a:
            if a[k] != b[k] and not (k == "random state" and op == "generate"):
                mon.bad(f"changed_{k}", f"{op}: {str(a[k])[:300]} became {str(b[k])[:300]}")
        left = [x for x in map(what, set(children()) - set(kids)) if x]
        if left:
            mon.bad("processes_left", f"{op}: {left}")
        more = set(threading.enumerate()) - threads
        if more:
            mon.bad("threads_left", f"{op}: {more}")
        with open(log, encoding="utf8", errors="replace") as f:
            text = f.read()
        if text and op != "generate":
            mon.bad("prints", f"{op}: {text[:400]!r}")
        now = tree(cwd), tree(tmp), tree(out)
        if op == "html":
            want = sorted(f"fig__{x}.html" for x, *_ in case["containers"]) if (
                case["mode"] == "bin") else ["fig__strip-pack-container.html"]
            now = now[0], now[1], sorted(set(now[2]) - set(want))
            files = files[0], files[1], []
        if now != files:
            mon.bad("files_left", f"{op}: {files} became {now}")
        gc.collect()
        grown.append((len(fds()), atexit._ncallbacks(), len(gc.get_referrers(p))))
    for k, name in enumerate(("descriptors", "exit_handlers", "references")):
        n = [g[k] for g in grown]
        if len(n) == 4 and n[0] < n[1] < n[2] < n[3]:
            mon.bad(f"{name}_grow", f"{op}: {n} with every repetition; {sorted(fds().items())[-8:]}")
    if op in ("mp_fail", "export_fail", "refused") or any((p.solution or {}).values()):
        mon.sig(op, case.get("workers"), how, len(case["items"]))
    del p
    gc.collect()
    if ref() is not None:
        refs = [type(x).__name__ for x in gc.get_referrers(ref())]
        mon.bad("instance_kept", f"{op}: an instance nobody uses is kept by {refs}")
    else:
        mon.ev("instances_freed")
    n = alive(h)
    if n > before_alive:
        mon.bad("instances_left", f"{op}: {before_alive} instances before, {n} after")
