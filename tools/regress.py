#!/usr/bin/env python3
"""regress.py [COMMIT...] - for each "fix:" commit of /repo: undoes it in a scratch copy, lets the check of its property find and
shrink a failing case, and saves that case under regressions/ID/ if it passes on the current tree (development tool)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXES = [l.split(None, 2) for l in open(os.path.join(V, "tools", "fixes.txt")) if l.strip()]


def sh(*a, **kw):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def worker(src, pid, out, examples, seed):
    env = dict(os.environ, VERIF_REPO_SRC=src, PYTHONPATH=os.path.join(V, "harness"), PYTHONWARNINGS="ignore", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/x")
    return subprocess.Popen(["/opt/venv/bin/python", "-W", "ignore", os.path.join(V, "harness/worker.py"), pid, "quick", str(seed), "0", str(examples), out],
                            env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def main():
    only = sys.argv[1:]
    for commit, pids, what in FIXES:
        if only and commit not in only:
            continue
        t = tempfile.mkdtemp(prefix="regress-", dir="/tmp")
        try:
            sh("git", "clone", "-q", "/repo", t + "/r")
            r = sh("git", "-C", t + "/r", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", commit)
            if r.returncode:
                print(commit, pids, "CONFLICT", sh("git", "-C", t + "/r", "diff", "--name-only", "--diff-filter=U").stdout.split(), flush=True)
                continue
            for pid in pids.split(","):
                done = None
                procs = [(worker(t + "/r/src", pid, t + "/o%d" % s, 1500, 100 + s), t + "/o%d" % s) for s in range(3)]
                cases = []
                for p, out in procs:
                    p.wait()
                    try:
                        f = json.load(open(out))
                    except Exception:
                        continue
                    if f.get("failure"):
                        cases.append(f["failure"])
                cases.sort(key=lambda f: len(f["case"]))
                for f in cases:
                    path = os.path.join(V, "regressions", pid, commit + ".json")
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    json.dump({"property": pid, "case": json.loads(f["case"]), "message": f["message"], "fixed": commit}, open(path, "w"), indent=1, sort_keys=True)
                    q = sh("/opt/venv/bin/python", "-W", "ignore", os.path.join(V, "harness/replay.py"), path, env=dict(os.environ, PYTHONPATH=V + "/harness"))
                    if q.returncode == 0:
                        done = f
                        break
                    os.unlink(path)
                print(commit, pid, "saved: " + done["message"][:150] if done else "NOT CAUGHT", flush=True)
        finally:
            shutil.rmtree(t, ignore_errors=True)


main()
