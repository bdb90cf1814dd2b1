#!/usr/bin/env python3
"""seeded.py [ID...] - runs the quick check of each planted bug's property on a scratch copy of /repo with the bug (development tool)."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bug, seed="1"):
    d = os.path.join(V, "seeded", bug)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = tempfile.mkdtemp(prefix="seeded-", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/repo"], check=True)
        subprocess.run(["git", "-C", t + "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
        os.mkdir(t + "/verif")
        for n in ("harness", "regressions", "known_findings.json"):
            (shutil.copytree if os.path.isdir(os.path.join(V, n)) else shutil.copy)(os.path.join(V, n), os.path.join(t, "verif", n))
        t0 = time.time()
        r = subprocess.run([sys.executable, t + "/verif/harness/run.py", pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_REPO_SRC=t + "/repo/src", VERIF_SEED=seed))
        how = "regression" if "/regressions/" in r.stdout else "search"
        msg = [l for l in r.stdout.splitlines() if l.strip()]
        return "%-28s %s %s %3ds %s" % (bug, pid, {0: "MISSED", 1: "caught (%s)" % how}.get(r.returncode, "ERROR"), time.time() - t0,
                                       msg[0][:160] if msg and r.returncode else "")
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("seed=")]
    seed = [a[5:] for a in sys.argv[1:] if a.startswith("seed=")] or ["1"]
    bugs = args or sorted(os.listdir(os.path.join(V, "seeded")))
    with cf.ThreadPoolExecutor(2) as ex:
        for line in ex.map(lambda b: one(b, seed[0]), bugs):
            print(line, flush=True)
