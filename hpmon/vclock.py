"""
A virtual clock for hyperpack alone: the time functions answer virtual time to callers
inside hyperpack and real time to everyone else. Install before hyperpack is imported.
"""
import sys
import time

from . import env

BASE = 1_700_000_000.0


class Clock:
    on = False
    now = 0.0
    reads = 0
    source = None  # where the time comes from, if not from 'now'


_cache = {}


def _ours(frame):
    fn = frame.f_code.co_filename
    r = _cache.get(fn)
    if r is None:
        r = _cache[fn] = env.in_repo(fn)
    return r


def install():
    if getattr(time, "_hpmon_virtual", False):
        return
    if any(m == "hyperpack" or m.startswith("hyperpack.") for m in sys.modules):
        raise RuntimeError("the virtual clock must be installed before hyperpack is imported")

    def wrap(name, scale, as_int):
        real = getattr(time, name)

        def virtual():
            if Clock.on and _ours(sys._getframe(1)):
                Clock.reads += 1
                v = (BASE + (Clock.source() if Clock.source else Clock.now)) * scale
                return int(v) if as_int else v
            return real()

        virtual.__name__ = name
        setattr(time, name, virtual)

    for name in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        wrap(name, 1, False)
        wrap(name + "_ns", 10**9, True)
    time._hpmon_virtual = True
