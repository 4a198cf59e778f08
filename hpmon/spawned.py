"""
Main program of the C12 cases whose worker processes are not forked: workers import it
again (as __mp_main__), which installs the event log in them too.
"""
import json
import multiprocessing
import os
import pickle
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from hpmon.mplog import EventLog  # noqa: E402
from hpmon.props import c12  # noqa: E402

with open(os.environ["HPMON_SPAWN"]) as f:
    job = json.load(f)
case = job["case"]
log = EventLog(job["dir"])

if __name__ == "__main__":
    multiprocessing.set_start_method(case["start_method"])
    res = c12.go(case, case["workers"], log)
    with open(job["out"], "wb") as f:
        pickle.dump(res, f)
else:
    c12.install(case, log)
