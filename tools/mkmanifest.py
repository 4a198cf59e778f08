"""Writes MANIFEST.json. Run from /verif."""
import json
import os

PY = "/opt/venv/bin/python"
T = {
    "C01": "online geometric monitor on every construction and final result (rectangle sweep), random workloads incl. searches with 1-3 workers",
    "C02": "online conservation monitor (identity, multiplicity, dimensions) on every solution, random workloads",
    "C03": "online monitor of turned items (rotation setting, upright fit at the same spot), random workloads",
    "C04": "online monitor recomputing utilizations and objective from the placements, random workloads",
    "C05": "online monitor trying every left out item at the corners of every container state, random workloads",
    "C06": "differential trace monitor over repeated runs: fresh instances, other histories, renamed ids, other interpreter and hash seed",
    "C07": "lockstep reference model (rectangles, no grid) compared with every construction, random workloads",
    "C08": "trace monitor of local search (evaluated nodes, moves, ending), real problems and synthetic ones on the abstract search",
    "C09": "virtual clock driven by constructions, monitor of the time limit's effect on traces of 1-3 workers",
    "C10": "trace monitor of hypersearch (strategy of every local search, results, best kept, strategy restored)",
    "C11": "trace monitor of stopping after a full solution, delayed workers with recorded event logs",
    "C12": "event log checker over workers under injected delays, differential with one worker, hang detection by process states",
    "C13": "fault injection at every point of a worker's life, outcome checked against surviving workers' event logs",
    "C14": "online monitor of accepted strip solutions against the first construction, 1-3 workers",
    "C15": "model based monitor of strip height histories (set, reset, search, forbidden edits)",
    "C16": "model based monitor of mapping edit histories against a plain dict model and fresh instances",
    "C17": "aliasing monitor: deep snapshots of inputs, instance data and taken solutions over operation histories",
    "C18": "monitor of sorting and orienting against exact (rational) keys over chains of operations",
    "C19": "model based monitor of settings histories under simulated library versions, effects observed at run time",
    "C20": "model based monitor of strategy assignment histories on two instances, force observed by constructing",
    "C21": "log parser compared with the numbers computed from the solution, over operation histories",
    "C22": "monitor of figures captured at plotly's writers and parsed from written html, injected export failures",
    "C23": "monitor of generated data over seeds and averages, audit of the benchmark data sets",
    "C24": "log capture monitor over histories of invalid and valid operations, types and messages judged",
    "C25": "seeded scheduler over threads and nested operations, results compared with solo runs",
    "C26": "differential monitor: instances read and copied at random points against controls that were not, over operation histories",
    "C27": "process monitor: snapshots of children, threads, descriptors, files, interpreter state, output and live instances around repeated operations",
    "C28": "fault injection: interruptions at random calls and constructions and by signals, then data, solution and next results judged against fresh instances",
    "C29": "monitor of reads, copies and texts of the structures against their entries, over histories of edits and operations",
}
NOTE = {
    "C07": "Trusts the reference model's reading of the point classes (pinned by the existing tests and the published description).",
    "C09": "Assumes time reaches hyperpack only through the time module; a handful is 6 constructions per worker.",
    "C11": "A few further local searches: 1 for the finder, 5 for other workers, whose local searches are delayed to at least 30 ms.",
    "C12": "Mostly the fork start method, spawn and forkserver from a corpus. A hang is judged by process states (no CPU, no event, no change for 25 s).",
    "C13": "All kinds of failure x all points of a worker's life x sets of failing workers for one base problem are enumerated, plus random plans. A kill in the midst of a pipe write is not driven.",
    "C22": "Figures are judged as plotly objects handed to the writers and as parsed html; pixels and kaleido's rendering are trusted.",
    "C19": "Booleans given for integers, two component version strings, relative export paths, names ending in a newline are left open.",
    "C27": "What multiprocessing and plotly keep for themselves is left to them; descriptors, exit handlers and references count when they grow with every repetition.",
    "C28": "Points of interruption are sampled over the whole run (calls inside hyperpack, before and after constructions); not inside presorting, edits or the start of workers.",
    "C25": "Switch points are calls and lines of hyperpack; one instance is used by one thread at a time.",
}
DEFAULT = "Sampled executions of the real code, every one of them judged by the monitor; holds for what was observed, no exhaustive claim. Fixed seed (VERIF_SEED), size limits as described in DESIGN.md."

checks = []
for i in range(1, 30):
    pid = f"C{i:02d}"
    note = DEFAULT + (" " + NOTE[pid] if pid in NOTE else "")
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"{PY} check.py {pid} --tier quick",
            "thorough_cmd": f"{PY} check.py {pid} --tier thorough",
            "technique": T[pid],
            "level": "fault_enumeration" if pid in ("C13", "C28") else "exploration",
            "level_note": note,
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": f"{PY} -c \"import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'.'); import hpmon.runner\"",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo: the monitors attach from outside (subclasses, wrapped module functions, log handlers, virtual clock).",
    },
    open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"),
    indent=1,
)
