"""
Runs the cases of one property in parallel shards (fresh interpreters), merges
what the monitors observed, writes evidence and decides the verdict.

Verdicts: exit 0 held on what was observed, exit 1 violated (VIOLATION line),
exit 2 inconclusive or a failure of the machinery itself.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
STEP_LIMIT = 60_000_000  # executed lines of hyperpack, for the re-run of a stuck case


class CaseTimeout(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Inconclusive(Exception):
    """Raised by a property's check when a case decides nothing."""


class Mon:
    """What the monitors of one case observed: event counters and violations."""

    def __init__(self):
        self.events = collections.Counter()
        self.violations = []  # (key, message)
        self.sigs = []

    def ev(self, name, n=1):
        self.events[name] += n

    def bad(self, key, msg):
        """key names the mechanism (for known findings), msg the witness."""
        if len(self.violations) < 20:
            self.violations.append((key, str(msg)[:2000]))

    def check(self, ok, key, msg):
        if not ok:
            self.bad(key, msg() if callable(msg) else msg)
        return ok

    def sig(self, *parts):
        """Marks a distinct non-trivial observation."""
        self.sigs.append(hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest())


def rng_for(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def from_repo(exc):
    """Whether the exception was raised inside hyperpack (not by the harness)."""
    # raised by hyperpack, or by a library function hyperpack called; or a public
    # attribute that hyperpack's objects always have is gone
    if isinstance(exc, AttributeError) and exc.obj is not None and exc.name:
        public = not exc.name.startswith("_")
        if public and any(
            getattr(c, "__module__", "").split(".")[0] == "hyperpack"
            for c in type(exc.obj).__mro__
        ):
            return True
    tb = exc.__traceback__
    hit = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if env.in_repo(fn):
            hit = True
        elif os.path.realpath(fn).startswith(VERIF + os.sep):
            hit = False
        tb = tb.tb_next
    return hit


def run_case(mod, case, timeout):
    """Runs one case. Returns (Mon, status) with status ok / slow / stuck."""
    mon = Mon()

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    status = "ok"
    try:
        mod.check(case, mon)
    except CaseTimeout:
        status = "timeout"
    except Inconclusive as e:
        mon.ev("inconclusive_case")
        mon.note = str(e)
    except Exception as e:
        if not from_repo(e):
            raise
        mon.bad(
            f"raised:{type(e).__name__}",
            f"unexpected {type(e).__name__}: {e} | "
            + " <- ".join(
                f"{os.path.basename(f.filename)}:{f.name}"
                for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])
            ),
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return mon, status


def rerun_stepwise(mod, case):
    """
    A case that hit its (generous) wall-clock watchdog is re-run counting the lines
    hyperpack executes, so that the verdict rests on steps and not on time.
    """
    count = 0

    def local(frame, event, arg):
        nonlocal count
        if event == "line":
            count += 1
            if count > STEP_LIMIT:
                raise StepLimit()
        return local

    def tracer(frame, event, arg):
        return local if env.in_repo_cached(frame.f_code.co_filename) else None

    cache = {}

    def in_repo_cached(fn):
        if fn not in cache:
            cache[fn] = env.in_repo(fn)
        return cache[fn]

    env.in_repo_cached = in_repo_cached
    mon = Mon()
    old = signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(CaseTimeout()))
    signal.setitimer(signal.ITIMER_REAL, 240)
    sys.settrace(tracer)
    try:
        mod.check(case, mon)
        return mon, "slow", count
    except StepLimit:
        return mon, "stuck", count
    except CaseTimeout:
        return mon, "slow", count
    except Exception as e:
        if not from_repo(e):
            raise
        return mon, "slow", count
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def shrink(mod, case, keys, budget_s=25, max_tries=600):
    """Greedy: keeps a smaller case while it still violates in the same way."""
    cand_fn = getattr(mod, "shrink", None)
    if cand_fn is None:
        return case
    end = time.monotonic() + budget_s
    tries = 0
    best = case
    progress = True
    while progress and time.monotonic() < end and tries < max_tries:
        progress = False
        for cand in cand_fn(best):
            tries += 1
            if time.monotonic() > end or tries > max_tries:
                break
            try:
                mon, status = run_case(mod, cand, 10)
            except Exception:
                continue
            if status == "ok" and keys & {k for k, _ in mon.violations}:
                best, progress = cand, True
                break
    return best


def shard_main(mod, pid, tier, seed, k, n, out, first=False):
    t0 = time.monotonic()
    cap = mod.CAP[tier]
    total = mod.CASES[tier]
    timeout = getattr(mod, "CASE_TIMEOUT", {"quick": 60, "thorough": 120})[tier]
    res = {
        "evaluations": 0,
        "events": collections.Counter(),
        "sigs": set(),
        "samples": [],
        "violations": [],
        "slow": 0,
        "notes": [],
        "skipped_by_cap": 0,
    }
    corpus = list(mod.corpus(tier)) if hasattr(mod, "corpus") else []
    todo = [("corpus", i) for i in range(k, len(corpus), n)]
    todo += [("gen", i) for i in range(k, total, n)]
    res["harness_errors"] = []
    found = set()
    stuck = 0
    for pos, (src, i) in enumerate(todo):
        if time.monotonic() - t0 > cap:
            res["skipped_by_cap"] = len(todo) - pos
            break
        case = corpus[i] if src == "corpus" else mod.gen(rng_for(seed, pid, i), tier)
        try:
            mon, status = run_case(mod, case, timeout)
        except Exception:
            # not a verdict, but the other cases may still reach one
            res["harness_errors"].append(
                f"case {src} {i} seed {seed}: " + traceback.format_exc()[-2500:]
            )
            if len(res["harness_errors"]) > 20:
                break
            continue
        if status == "timeout" and not getattr(mod, "NO_STEP_RERUN", False):
            mon2, status, lines = rerun_stepwise(mod, case)
            if status == "stuck":
                stuck += 1
                mon.bad("stuck", f"did not finish within {STEP_LIMIT} executed lines")
        if status in ("slow", "timeout"):
            res["slow"] += 1
        res["evaluations"] += 1
        res["events"].update(mon.events)
        res["sigs"].update(mon.sigs)
        if hasattr(mon, "note") and len(res["notes"]) < 5:
            res["notes"].append(mon.note)
        if len(res["samples"]) < 2 and mon.sigs and src == "gen":
            res["samples"].append(case)
        if mon.violations:
            keys = {kk for kk, _ in mon.violations}
            if not keys <= found:
                new = keys - found
                found |= keys
                still = "stuck" in keys or "hang" in keys
                small = case if still or first else shrink(mod, case, new)
                mon3, _ = run_case(mod, small, 60) if not still else (mon, 0)
                viols = mon3.violations or mon.violations
                if not any(kk in new for kk, _ in viols):
                    viols = mon.violations
                    small = case
                res["violations"].append(
                    {"case": small, "index": i, "src": src, "seed": seed, "found": viols}
                )
            if first or stuck or "hang" in keys or len(res["violations"]) >= 4:
                break
    res["events"] = dict(res["events"])
    res["sigs"] = sorted(res["sigs"])
    res["wall_s"] = time.monotonic() - t0
    with open(out + ".part", "w") as f:
        json.dump(res, f)
    os.rename(out + ".part", out)


def end_at_first(procs, deadline):
    """Ends the other shards as soon as one has found a violation."""
    while time.monotonic() < deadline and any(p.poll() is None for p, _ in procs):
        for p, out in procs:
            if p.poll() == 0 and os.path.exists(out) and json.load(open(out))["violations"]:
                for q, _ in procs:
                    if q.poll() is None:
                        os.killpg(q.pid, signal.SIGKILL)
                return
        time.sleep(0.1)


def known_findings(pid):
    """Lines 'finding: property=<id> key=<mechanism> <text>' of known_findings.txt."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                parts = line[len("finding: ") :].strip().split(None, 2)
                if parts[0] == f"property={pid}" and parts[1].startswith("key="):
                    known[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return known


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--shard", nargs=2, type=int)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--first", action="store_true", help="end at the first violation, as it is")
    a = ap.parse_args(argv)
    pid = a.property
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    mod = importlib.import_module(f"hpmon.props.{pid.lower()}")

    if a.replay:
        data = json.load(open(a.replay))
        mon, status = run_case(mod, data["case"], 300)
        print("case:", json.dumps(data["case"])[:4000])
        print("status:", status, "events:", dict(mon.events))
        for key, msg in mon.violations:
            print(f"violated [{key}]: {msg}")
        return 1 if mon.violations else 0

    if a.shard:
        shard_main(mod, pid, a.tier, a.seed, a.shard[0], a.shard[1], a.out, a.first)
        return 0

    t0 = time.monotonic()
    nshards = getattr(mod, "SHARDS", 8)
    tmp = tempfile.mkdtemp(prefix=f"hpmon-{pid}-")
    procs = []
    cenv = dict(os.environ)
    cenv.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
        HPMON_TMP=tmp,
        LANG="C.UTF-8",
    )
    cenv.pop("PYTHONPATH", None)
    for k in range(nshards):
        out = os.path.join(tmp, f"shard{k}.json")
        err = open(os.path.join(tmp, f"shard{k}.err"), "w")
        procs.append(
            (
                subprocess.Popen(
                    [
                        sys.executable,
                        os.path.join(VERIF, "check.py"),
                        pid,
                        "--tier",
                        a.tier,
                        "--seed",
                        str(a.seed),
                        "--shard",
                        str(k),
                        str(nshards),
                        "--out",
                        out,
                        *(["--first"] if a.first else []),
                    ],
                    cwd=VERIF,
                    env=cenv,
                    stdout=err,
                    stderr=err,
                    start_new_session=True,
                ),
                out,
            )
        )
    deadline = t0 + 870
    problems = []
    merged = {
        "evaluations": 0,
        "events": collections.Counter(),
        "sigs": set(),
        "samples": [],
        "violations": [],
        "slow": 0,
        "notes": [],
        "skipped_by_cap": 0,
    }
    if a.first:
        end_at_first(procs, deadline)
    for k, (p, out) in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:  # the shard leads its own session: ends whatever it left behind
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        if a.first and rc == -signal.SIGKILL:
            continue
        if rc != 0 or not os.path.exists(out):
            err = open(os.path.join(tmp, f"shard{k}.err")).read()[-3000:]
            problems.append(f"shard {k} ended with {rc}\n{err}")
            continue
        r = json.load(open(out))
        merged["evaluations"] += r["evaluations"]
        merged["events"].update(r["events"])
        merged["sigs"].update(r["sigs"])
        merged["samples"] += r["samples"]
        merged["violations"] += r["violations"]
        merged["slow"] += r["slow"]
        merged["notes"] += r["notes"]
        merged["skipped_by_cap"] += r["skipped_by_cap"]
        problems += r["harness_errors"][:1]
    wall = time.monotonic() - t0
    subprocess.run(["rm", "-rf", tmp])

    known = known_findings(pid)
    real, listed = [], {}
    seen = set()
    for v in merged["violations"]:
        keys = {k for k, _ in v["found"]}
        unlisted = keys - set(known)
        for k in keys & set(known):
            listed[k] = known[k]
        if unlisted and not unlisted <= seen:
            seen |= unlisted
            real.append(v)
    required = getattr(mod, "REQUIRED", {})
    if not isinstance(next(iter(required.values()), 0), (int, float)):
        required = required[a.tier]
    # on a busy machine the cap may end the workload early: in proportion then, to a quarter
    todo = merged["evaluations"] + merged.get("skipped_by_cap", 0)
    part = max(0.25, merged["evaluations"] / todo if todo else 1)
    missing = [
        f"{e}={merged['events'].get(e, 0)}<{m}"
        for e, m in required.items()
        if merged["events"].get(e, 0) < m * part
    ]

    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(
                {
                    "property": pid,
                    "tier": a.tier,
                    "seed": a.seed,
                    "level": getattr(mod, "LEVEL", "exploration"),
                    "coverage": {
                        "evaluations": merged["evaluations"],
                        "distinct_nontrivial": len(merged["sigs"]),
                        "rule": mod.RULE,
                        "samples": merged["samples"][:3],
                        "events_observed": dict(sorted(merged["events"].items())),
                        "slow_cases_inconclusive": merged["slow"],
                        "cases_skipped_by_time_cap": merged["skipped_by_cap"],
                        "notes": merged["notes"][:5],
                    },
                    "assumptions": getattr(mod, "ASSUMPTIONS", []),
                    "wall_s": round(wall, 2),
                    "violations": len(real),
                },
                f,
                indent=1,
            )

    print(
        f"{pid} {a.tier} seed={a.seed}: {merged['evaluations']} cases, "
        f"{len(merged['sigs'])} distinct, {wall:.1f}s, slow={merged['slow']}, "
        f"skipped={merged['skipped_by_cap']}"
    )
    print("observed:", json.dumps(dict(sorted(merged["events"].items()))))
    for k, text in listed.items():
        print(f"KNOWN-FINDING: property={pid} {k} {text}")
    if real:
        rdir = os.path.join(OUT, "replay")
        os.makedirs(rdir, exist_ok=True)
        for v in real[:6]:
            h = hashlib.sha256(json.dumps(v["case"], sort_keys=True).encode()).hexdigest()
            path = os.path.join(rdir, f"{pid}-{h[:10]}.json")
            json.dump(
                {"property": pid, "tier": a.tier, **v},
                open(path, "w"),
                indent=1,
            )
            for key, msg in v["found"][:3]:
                print(f"  [{key}] {msg[:600]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if problems:
        print("ERROR: the check itself failed:\n" + "\n".join(problems))
        return 2
    if missing or merged["slow"] > max(3, merged["evaluations"] // 50):
        print("INCONCLUSIVE: the monitors observed too little:", missing, merged["notes"])
        return 2
    print(f"HELD property={pid} on {merged['evaluations']} executions")
    return 0
