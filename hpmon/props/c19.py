"""C19: settings are validated completely and take effect."""
import collections
import copy
import os
import sys
import tempfile
import types

from .. import vclock
from ..env import hp

vclock.install()

CASES = {"quick": 40000, "thorough": 900000}
CAP = {"quick": 90, "thorough": 720}
RULE = (
    "random histories of settings (instantiation, assignment, in place edit with revalidation), "
    "valid and invalid in every key, under simulated plotly/kaleido versions, judged by the "
    "documented rules; effects observed as turned items, virtual seconds used and workers "
    "started; non-trivial: a settings value with at least one key was judged"
)
REQUIRED = {"accepted": 30000, "refused": 30000, "by_init": 20000, "by_assignment": 15000,
            "by_revalidation": 5000, "image_accepted": 1000, "version_refused": 2000,
            "rotation_effects": 10000, "time_effects": 800, "worker_effects": 100,
            "default_effects": 300, "two_bad_keys": 500,
            "other_dicts": 5000, "other_mappings": 500,
            "more_workers_than_processors": 8}
ASSUMPTIONS = [
    "booleans in place of integers, two component version strings, relative paths, file names "
    "ending in a newline are left open"
]
PLOTLY = ["5.14.0", "5.14.1", "5.24.1", "5.100.2", "5.15.0", "5.13.9", "5.13.1", "5.9.0", "5.2.0",
          "4.99.9", "4.14.3", "6.0.0", "6.0.1", "10.0.0", None]
KALEIDO = ["0.2.1", "0.2.1.post1", "0.2.10", "0.2.9", "0.2.0", "0.1.9", "0.1.0", "0.3.0", "0.10.0",
           "1.0.0", "0.0.3", None]


def ver_ok(v, lo, hi):
    if v is None:
        return False
    t = tuple(int(x) for x in v.split(".")[:3])
    return lo <= t < hi


# how likely a generated key is invalid
def val(rng, good, bad, p):
    if rng.random() < p:
        return copy.deepcopy(rng.choice(bad)), False
    return copy.deepcopy(rng.choice(good)), True


def gen_settings(rng, p):
    if rng.random() < 0.03:
        return rng.choice([[], 0, "", "settings", 5, [1], False, 1.5, "<UserDict>", "<proxy>",
                           "<pairs>"])
    s = {}
    if rng.random() < 0.5:
        s["rotation"], _ = val(rng, [True, False, None], [1, 0, "True", "", [], {}, 1.0], p)
    if rng.random() < 0.5:
        s["max_time_in_seconds"], _ = val(
            rng, [1, 2, 5, 60, 10**6], [0, -1, 1.5, 2.0, "5", None, [1], {}], p
        )
    if rng.random() < 0.5:
        s["workers_num"], _ = val(
            rng, [1, 2, 3, None, 10**6], [0, -1, 1.5, 2.0, "2", [1], {}, ""], p
        )
    if rng.random() < 0.5:
        s["figure"] = gen_figure(rng, p)
    if rng.random() < 0.05:
        s["unknown key"] = rng.choice([1, None])
    return s


def gen_figure(rng, p):
    if rng.random() < p / 2:
        return rng.choice([None, 1, "html", [], ["export"], True, "<UserDict>", "<proxy>"])
    f = {}
    if rng.random() < 0.4:
        f["show"], _ = val(rng, [True, False], [None, 1, 0, "True", []], p)
    if rng.random() < 0.75:
        if rng.random() < p / 2:
            f["export"] = rng.choice([None, 1, "html", [], True, ["type"], "<UserDict>",
                                      "<proxy>"])
        else:
            e = {}
            kind, ok = val(rng, ["html", "image", "image"], ["png", "", 1, None, "HTML", ["html"]], p / 2)
            if rng.random() > p / 4:
                e["type"] = kind
            if rng.random() > p / 4:
                e["path"], _ = val(
                    rng,
                    ["<dir>", "<dir>", "<odd dir>"],
                    ["<file>", "<missing>", 5, None, ["<dir>"], "<nul>", "<long>", "<dir>/x/y"],
                    p / 2,
                )
            if kind == "image" or rng.random() < 0.2:
                if rng.random() > p / 4:
                    e["format"], _ = val(
                        rng,
                        ["pdf", "png", "jpeg", "webp", "svg"],
                        ["html", "PNG", "", None, 3, ["png"], "gif", "pn"],
                        p / 2,
                    )
            if rng.random() < 0.7:
                e["file_name"], _ = val(
                    rng,
                    ["a", "plot", "A-b_9", "x" * 45, None, "0"],
                    ["", "x" * 46, "a b", "a.b", "../a", "a/b", "é", 5, ["a"], {}, "a$", " a"],
                    p / 2,
                )
            if kind == "image" or rng.random() < 0.3:
                for k in ("width", "height"):
                    if rng.random() < 0.3:
                        e[k], _ = val(rng, [1, 800, 10000, None], [0, -5, 1.5, "800", []], p / 2)
            f["export"] = e
    return f


def gen(rng, tier):
    steps = []
    for k in range(rng.randint(1, 4)):
        how = "init" if k == 0 else rng.choice(["init", "assign", "assign", "inplace"])
        p = rng.choice([0, 0, 0.15, 0.5])
        if rng.random() < 0.55:
            vers = [rng.choice(PLOTLY[:5]), rng.choice(KALEIDO[:4])]
        else:
            vers = [rng.choice(PLOTLY), rng.choice(KALEIDO)]
        steps.append([how, gen_settings(rng, p), vers])
    return {
        "cls": rng.choice(["HyperPack", "HyperPack", "HyperPack", "PointGenPack"]),
        "steps": steps,
        # what the dictionaries of the settings are
        "kind": rng.choice(["dict"] * 6 + ["own", "ordered", "default"]),
        "strip": rng.random() < 0.2,
        # how many processors the machine seems to have
        "cpus": rng.choice([None, None, 1, 2]),
        "probe": rng.choices(["rotation", "time", "workers"], [85, 12, 2])[0],
    }


def shrink(case):
    st = case["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield dict(case, steps=st[:i] + st[i + 1 :])
    for i, (how, s, v) in enumerate(st):
        if isinstance(s, dict):
            for k in s:
                t = {a: b for a, b in s.items() if a != k}
                yield dict(case, steps=st[:i] + [[how, t, v]] + st[i + 1 :])
            e = s.get("figure")
            e = e.get("export") if isinstance(e, dict) else None
            if isinstance(e, dict):
                for k in e:
                    t = copy.deepcopy(s)
                    del t["figure"]["export"][k]
                    yield dict(case, steps=st[:i] + [[how, t, v]] + st[i + 1 :])


# ---------------------------------------------------------------- the rules
def int_ok(v):
    return isinstance(v, int) and v > 0


def problems(s, cls, vers, dirs):
    """The documented rules: names of the keys that are wrong."""
    if not isinstance(s, dict):
        return ["settings"]
    bad = []
    if s.get("rotation") is not None and not isinstance(s["rotation"], bool):
        bad.append("rotation")
    if cls == "HyperPack":
        if "max_time_in_seconds" in s and not int_ok(s["max_time_in_seconds"]):
            bad.append("max_time_in_seconds")
        if s.get("workers_num") is not None and not int_ok(s["workers_num"]):
            bad.append("workers_num")
    if "figure" in s:
        f = s["figure"]
        if not isinstance(f, dict):
            bad.append("figure")
        elif f:
            if not ver_ok(vers[0], (5, 14, 0), (6, 0, 0)):
                bad.append("plotly version")
            if not isinstance(f.get("show", False), bool):
                bad.append("figure.show")
            if "export" in f:
                bad += export_problems(f["export"], vers, dirs)
    return bad


def export_problems(e, vers, dirs):
    if not isinstance(e, dict):
        return ["export"]
    bad = []
    kind = e.get("type")
    if kind not in ("html", "image"):
        bad.append("export.type")
    if e.get("path") not in ("<dir>", "<odd dir>"):
        bad.append("export.path")
    name = e.get("file_name")
    if name is not None and not (
        isinstance(name, str)
        and 1 <= len(name) <= 45
        and all(c.isascii() and (c.isalnum() or c in "_-") for c in name)
    ):
        bad.append("export.file_name")
    if kind == "image":
        if e.get("format") not in ("pdf", "png", "jpeg", "webp", "svg"):
            bad.append("export.format")
        if not ver_ok(vers[1], (0, 2, 1), (0, 3, 0)):
            bad.append("kaleido version")
    for k in ("width", "height"):
        if e.get(k) is not None and not int_ok(e[k]):
            bad.append("export." + k)
    return bad


# ---------------------------------------------------------------- the real thing
_dirs = None


def dirs():
    global _dirs
    if _dirs is None:
        base = tempfile.mkdtemp(prefix="c19-", dir=os.environ.get("HPMON_TMP"))
        odd = os.path.join(base, "ein Ördner $HOME 箱")
        os.mkdir(odd)
        f = os.path.join(base, "file")
        open(f, "w").close()
        _dirs = {
            "<dir>": base,
            "<odd dir>": odd,
            "<file>": f,
            "<missing>": os.path.join(base, "none"),
            "<nul>": base + "\0x",
            "<long>": os.path.join(base, "y" * 300),
            "<dir>/x/y": os.path.join(base, "x/y"),
        }
    return _dirs


class Own(dict):
    """A caller's own kind of dictionary."""


class Default(collections.defaultdict):
    def __init__(self, d):
        super().__init__(None, d)

    def __deepcopy__(self, memo):
        return Default(copy.deepcopy(dict(self), memo))


KINDS = {"dict": dict, "own": Own, "ordered": collections.OrderedDict, "default": Default}
# mappings and others that are no dictionaries
OTHERS = {
    "<UserDict>": lambda d: collections.UserDict(d),
    "<proxy>": lambda d: types.MappingProxyType(d),
    "<pairs>": lambda d: list(d.items()),
}


def concrete(s, kind="dict"):
    s = _concrete(s)
    K = KINDS[kind]

    def of(v, default):
        if isinstance(v, dict):
            return K({k: of(x, EXPORT if k == "export" else FIGURE) for k, x in v.items()})
        if isinstance(v, str) and v in OTHERS:
            return OTHERS[v](default)
        return v

    FIGURE = {"show": False}
    EXPORT = {"type": "html", "path": dirs()["<dir>"]}
    return of(s, {"rotation": True})


def _concrete(s):
    s = copy.deepcopy(s)
    if isinstance(s, dict) and isinstance(s.get("figure"), dict):
        e = s["figure"].get("export")
        if isinstance(e, dict) and isinstance(e.get("path"), str):
            e["path"] = dirs()[e["path"]]
    return s


class Versions:
    def __init__(self, vers):
        self.vers = vers

    def __enter__(self):
        self.saved = {}
        for name, v in zip(("plotly", "kaleido"), self.vers):
            mod = __import__(name)
            self.saved[name] = (sys.modules[name], mod.__version__)
            if v is None:
                sys.modules[name] = None
            else:
                mod.__version__ = v

    def __exit__(self, *a):
        for name, (mod, v) in self.saved.items():
            sys.modules[name] = mod
            mod.__version__ = v


def fresh(cls, strip, **kw):
    items = {"a": {"w": 9, "l": 5}}
    if strip:
        return cls(items=items, strip_pack_width=7, **kw)
    return cls(containers={"c": {"W": 7, "L": 30}}, items=items, **kw)


def check(case, mon):
    if case["cpus"] is None:
        return _check(case, mon)
    orig = os.cpu_count
    os.cpu_count = lambda: case["cpus"]
    try:
        _check(case, mon)
    finally:
        os.cpu_count = orig


def _check(case, mon):
    h = hp()
    cls = getattr(h, case["cls"])
    from hyperpack.exceptions import SettingsError

    p = None
    good = None  # settings in force
    for step, (how, s, vers) in enumerate(case["steps"]):
        if p is None:
            how = "init"
        if how == "inplace" and not isinstance(s, dict):
            how = "assign"
        bad = problems(s, case["cls"], vers, dirs())
        real = concrete(s, case["kind"])
        where = f"step {step}: {how} {real} with plotly {vers[0]}, kaleido {vers[1]} ({case['cls']})"
        raised = None
        q = p
        with Versions(vers):
            try:
                if how == "init":
                    q = fresh(cls, case["strip"], settings=real)
                elif how == "assign":
                    p.settings = real
                else:
                    p.settings.clear()
                    p.settings.update(real)
                    p.validate_settings()
            except SettingsError as e:
                raised = e
            except Exception as e:
                mon.bad(
                    f"other_error_{'+'.join(bad[:1])}",
                    f"{where}: {type(e).__name__} {e} (wrong: {bad})",
                )
                return
        mon.ev({"init": "by_init", "assign": "by_assignment", "inplace": "by_revalidation"}[how])
        mon.ev("refused" if bad else "accepted")
        if case["kind"] != "dict":
            mon.ev("other_dicts")
        if any(f"'{o}'" in repr(s) for o in OTHERS):
            mon.ev("other_mappings")
        if len(bad) > 1:
            mon.ev("two_bad_keys")
        if bad and raised is None:
            mon.bad(f"accepted_{bad[0]}", f"{where}: accepted, though {bad} is wrong")
            return
        if not bad and raised is not None:
            mon.bad("refused", f"{where}: {raised}")
            return
        if s:
            mon.sig(s, vers if isinstance(s, dict) and "figure" in s else 0)
        if bad:
            if "version" in bad[0]:
                mon.ev("version_refused")
            if how != "init":
                # what is in force after a refused assignment is left open
                p.settings = dict(good or {})
            continue
        if isinstance(s, dict) and isinstance(s.get("figure"), dict):
            if (s["figure"].get("export") or {}).get("type") == "image":
                mon.ev("image_accepted")
        p = q
        good = {k: v for k, v in s.items() if k != "figure"}
        # every accepted value must be in force at once
        p.solve()
        mon.ev("rotation_effects")
        want = s.get("rotation") is not False
        placed = any(p.solution.values())
        if placed != want:
            mon.bad("rotation_effect", f"{where}: the item was {'' if placed else 'not '}turned")
            return
    if p is None or case["cls"] != "HyperPack" or case["probe"] == "rotation":
        return
    if not isinstance(p.settings, dict):
        return
    # probe time and workers with the settings in force
    where = f"with {p.settings}"
    T = p.settings.get("max_time_in_seconds")
    if case["probe"] == "time":
        seen = probe_time(p, case["strip"])
        mon.ev("time_effects")
        if T is None:
            mon.ev("default_effects")
            T = h.HyperPack.MAX_TIME_IN_SECONDS_DEFAULT_VALUE
            if T != 60:
                mon.bad("time_default", f"the default time limit is {T}")
        lo, hi = min(T - 1, NEIGHBOURS + 1), min(T + 6, NEIGHBOURS + 1)
        if not lo <= seen <= hi:
            mon.bad(
                "time_effect",
                f"{where}: a local search of {NEIGHBOURS} neighbours, one second each, "
                f"made {seen} constructions",
            )
    elif case["probe"] == "workers":
        n = p.settings.get("workers_num")
        if n is not None and n > 3:
            return
        mon.ev("worker_effects")
        if n is None:
            mon.ev("default_effects")
        n = n or 1
        if case["cpus"] and n > case["cpus"]:
            mon.ev("more_workers_than_processors")
        started = probe_workers(p)
        if started != (n if n > 1 else 0):
            mon.bad("workers_effect", f"{where}: {started} worker processes were started")


NEIGHBOURS = 13 * 14 // 2


def probe_time(p, strip):
    # equal items: no neighbour is better, every one is evaluated once
    p.items = {f"i{k}": {"w": 1, "l": 1} for k in range(14)}
    Clock = vclock.Clock
    Clock.on, Clock.now = True, 0.0
    n = 0
    orig = p.solve

    def solve(*a, **k):
        nonlocal n
        n += 1
        Clock.now += 1.0
        return orig(*a, **k)

    p.solve = solve
    try:
        p.local_search()
    finally:
        Clock.on = False
        del p.solve
    return n


def probe_workers(p):
    from multiprocessing.process import BaseProcess

    p.items = {"i0": {"w": 1, "l": 1}, "i1": {"w": 2, "l": 1}}
    d = tuple(type(p).DEFAULT_POTENTIAL_POINTS_STRATEGY)
    p.get_strategies = lambda **k: [d, d[1:] + d[:1], d[2:] + d[:2]] * 2
    n = 0
    orig = BaseProcess.start

    def start(self):
        nonlocal n
        n += 1
        return orig(self)

    BaseProcess.start = start
    try:
        p.hypersearch()
    finally:
        BaseProcess.start = orig
    return n
