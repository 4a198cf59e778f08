"""
Runs a function in a forked session and judges hangs by process states, not deadlines:
a hang is a span in which the session's processes used no CPU worth mentioning (a
starved one would still get more), none came or went, and none wrote an event.
"""
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

SPAN = 25.0  # seconds of observed stillness
CPU_TICKS = 40  # clock ticks (10 ms) the polling of queues may use within the span


def session_stat(sid):
    """[(pid, state, cpu ticks)] of the processes of a session."""
    out = []
    for name in os.listdir("/proc"):
        if not name.isdigit():
            continue
        try:
            with open(f"/proc/{name}/stat") as f:
                s = f.read()
        except (FileNotFoundError, ProcessLookupError, PermissionError):
            continue
        rest = s[s.rindex(")") + 2 :].split()
        if int(rest[3]) != sid:
            continue
        out.append((int(name), rest[0], int(rest[11]) + int(rest[12])))
    return out


def end_session(sid):
    for _ in range(200):
        left = [p for p, st, _ in session_stat(sid) if st != "Z"]
        if not left:
            return
        for p in left:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        time.sleep(0.01)


def run(fn, progress=None, limit=240.0):
    """
    ("ok", value) | ("raised", type name, text) | ("hang", description) | ("slow", None).
    progress() gives a value that changes whenever the run advances.
    """
    fd, path = tempfile.mkstemp(prefix="sup-", dir=os.environ.get("HPMON_TMP"))
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                res = ("ok", fn())
            except Exception as e:
                res = ("raised", type(e).__name__, f"{e}\n{traceback.format_exc()[-1500:]}")
            with open(path + ".tmp", "wb") as f:
                pickle.dump(res, f)
            os.replace(path + ".tmp", path)
        finally:
            sys.stdout.flush()
            os._exit(0)
    t0 = time.monotonic()
    still_since, base_cpu, last_mark = t0, 0, None
    nap = 0.002
    try:
        while True:
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                break
            now = time.monotonic()
            if now - t0 > limit:
                return ("slow", None)
            if now - t0 > 3:
                st = session_stat(pid)
                cpu = sum(x[2] for x in st)
                mark = (progress() if progress else None, [x[0] for x in st])
                if mark != last_mark or cpu - base_cpu > CPU_TICKS:
                    still_since, base_cpu, last_mark = now, cpu, mark
                elif now - still_since > SPAN:
                    return (
                        "hang",
                        f"no progress and no CPU used for {SPAN:.0f} s; processes "
                        + " ".join(f"{p}:{s}" for p, s, _ in st),
                    )
                nap = 0.25
            time.sleep(nap)
            nap = min(nap * 1.3, 0.05) if now - t0 <= 3 else nap
        try:
            with open(path, "rb") as f:
                return pickle.load(f)
        except (EOFError, FileNotFoundError):
            return ("raised", "Died", f"the calling process ended with status {status}")
    finally:
        end_session(pid)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        for q in (path, path + ".tmp"):
            if os.path.exists(q):
                os.unlink(q)
