"""
Runs each planted change's check against a scratch copy of /repo that has it, and
writes the outcome to SEEDED.md. Usage: sweep.py [-j N] [ids]. No check uses this.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def one(sid):
    d = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    work = tempfile.mkdtemp(prefix="sweep-")
    repo = os.path.join(work, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        a = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
        if a.returncode:
            return sid, meta, "does not apply", ""
        r = subprocess.run(
            [PY, "check.py", meta["property"], "--tier", "quick", "--no-evidence", "--first"],
            cwd=HERE, capture_output=True, text=True,
            env=dict(os.environ, HPMON_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
                     PYTHONDONTWRITEBYTECODE="1"),
        )
        key = re.search(r"^  \[([^\]]*)\]", r.stdout, re.M)
        caught = r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout
        return sid, meta, "caught" if caught else f"missed (rc {r.returncode})", key.group(1) if key else ""
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = sys.argv[1:]
    jobs = 3
    if args[:1] == ["-j"]:
        jobs = int(args[1])
        args = args[2:]
    ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
    rows = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for row in ex.map(one, ids):
            rows.append(row)
            print(row[0], row[2], row[3], flush=True)
    if not args:
        with open(os.path.join(HERE, "SEEDED.md"), "w") as f:
            f.write("# Planted changes and the checks that catch them\n\n")
            n = sum(r[2] == "caught" for r in rows)
            f.write(f"{n} of {len(rows)} are caught by the quick check of their property (seed 1).\n\n")
            f.write("| change | property | breaks | needs | quick check |\n|---|---|---|---|---|\n")
            for sid, meta, res, key in rows:
                cells = [sid, meta["property"], meta["what_it_breaks"], meta["needs"],
                         res + (f" ({key})" if key else "")]
                f.write("| " + " | ".join(c.replace("|", "\\|").replace("\n", " ") for c in cells) + " |\n")


main()
