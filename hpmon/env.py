"""Imports the hyperpack under test from the repository's working tree."""
import contextlib
import logging
import os
import sys

REPO = os.environ.get("HPMON_REPO", "/repo")

_hp = None


def hp():
    """The hyperpack package of REPO (imported once per process)."""
    global _hp
    if _hp is None:
        sys.path.insert(0, REPO)
        import hyperpack

        where = os.path.realpath(hyperpack.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError(f"hyperpack imported from {where}, not from {REPO}")
        quiet()
        _hp = hyperpack
    return _hp


class Capture(logging.Handler):
    """Collects (levelname, message) of the records of the hyperpack logger."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, record.getMessage()))


def quiet():
    """hyperpack's loggers reach no console unless a check attaches a handler."""
    for name in ("hyperpack", "pointgenpack"):
        lg = logging.getLogger(name)
        lg.propagate = False
        if not any(isinstance(h, logging.NullHandler) for h in lg.handlers):
            lg.addHandler(logging.NullHandler())


@contextlib.contextmanager
def listening(root=False):
    """
    Collects the records of the library's logger, from a handler of its own or
    (as programs do that configure only the root logger) from the root's.
    """
    cap = Capture()
    lg = logging.getLogger("hyperpack")
    if not root:
        lg.addHandler(cap)
        try:
            yield cap
        finally:
            lg.removeHandler(cap)
        return
    own = list(lg.handlers)
    top = logging.getLogger()
    try:
        for h in own:
            lg.removeHandler(h)
        lg.propagate = True
        cap.addFilter(lambda r: r.name.split(".")[0] == "hyperpack")
        top.addHandler(cap)
        yield cap
    finally:
        top.removeHandler(cap)
        lg.propagate = False
        for h in own:
            lg.addHandler(h)


def in_repo(filename):
    return os.path.realpath(filename).startswith(
        os.path.join(os.path.realpath(REPO), "hyperpack") + os.sep
    )


_in_repo = {}


def in_repo_cached(filename):
    r = _in_repo.get(filename)
    if r is None:
        r = _in_repo[filename] = in_repo(filename)
    return r
