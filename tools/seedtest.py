#!/usr/bin/env python3
"""tools/seedtest.py [bug ids...]: apply each planted change to a scratch copy of the repository
and run the check of its property (or all checks with --all). Development tool, no check uses it."""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
args = [a for a in sys.argv[1:] if not a.startswith("--")]
bugs = args or sorted(p.name for p in (VERIF / "seeded").iterdir())
scratch = pathlib.Path(tempfile.mkdtemp(prefix="seedtest_"))
sys.path.insert(0, str(VERIF / "checks"))
from config import CHECKS  # noqa: E402
try:
    repo = scratch / "repo"
    subprocess.run(["rsync", "-a", "--exclude", "_build", "/repo/", str(repo) + "/"], check=True)
    for b in bugs:
        d = VERIF / "seeded" / b
        subprocess.run(["git", "-C", str(repo), "checkout", "-q", "--", "."], check=True)
        r = subprocess.run(["git", "-C", str(repo), "apply", str(d / "patch.diff")])
        if r.returncode:
            print(b, "DOES NOT APPLY", flush=True)
            continue
        prop = json.loads((d / "meta.json").read_text())["property"]
        props = [prop] if "--all" not in sys.argv else sorted(CHECKS)
        for p in props:
            if p not in CHECKS:
                print(b, p, "NO CHECK", flush=True)
                continue
            t = time.time()
            r = subprocess.run([sys.executable, "checks/run.py", p], cwd=VERIF, capture_output=True,
                               text=True, env=dict(os.environ, VERIF_REPO=str(repo)))
            what = {0: "missed", 1: "caught"}.get(r.returncode, "ERROR %s" % r.returncode)
            lines = (r.stdout.strip().splitlines() or [""])
            print("%-34s %s %s %.0fs %s" % (b, p, what, time.time() - t,
                                         lines[0][:150] if r.returncode == 1 else r.stderr[-400:]), flush=True)
finally:
    shutil.rmtree(scratch)
