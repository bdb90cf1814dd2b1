#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] - decides one property; see DESIGN.md."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CPY = "/opt/venv/bin/python"
PYPY = "/opt/venv-pypy/bin/python"
WALL = {"quick": 780, "thorough": 6 * 3600}


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/verif-pycache", PYTHONHASHSEED="0",
             PYTHONPATH=HERE, PYTHONWARNINGS="ignore")
    return e


def replay(py, path, timeout=300):
    """-> (rc, list of result dicts, stderr)"""
    try:
        p = subprocess.run([py, "-W", "ignore", os.path.join(HERE, "replay.py"), path], env=env(), cwd=VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        return 3, [], "timeout"
    res = []
    for line in p.stdout.splitlines():
        try:
            res.append(json.loads(line))
        except ValueError:
            pass
    return p.returncode, res, p.stderr


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--examples", type=int, default=None, help="cases per worker (default: the property's own budget)")
    ap.add_argument("--workers", type=int, default=None)
    a = ap.parse_args()
    pid = a.property
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    with open(os.path.join(HERE, "budgets.json")) as f:
        budget = json.load(f)[pid]
    workers = a.workers or (6 if a.tier == "quick" else 8)
    examples = a.examples or budget[a.tier]
    stale = os.path.join(VERIF, "replays", pid + ".json")
    if os.path.exists(stale):
        os.unlink(stale)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = run(pid, a.tier, seed, workers, examples, budget, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def error(msg):
    print("ERROR: " + msg)
    return 2


def save_replay(pid, case_text, message, extra=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    doc = {"property": pid, "message": message, "case": json.loads(case_text),
           "how": "cd /verif && PYTHONPATH=harness %s harness/replay.py %s" % (CPY, path)}
    if extra:
        doc.update(extra)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    return path


def violation(pid, path, message):
    print("case and message: %s" % message)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def run(pid, tier, seed, workers, examples, budget, tmp, t0):
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", violations=0)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[])

    def write_evidence(violations=0):
        ev["coverage"] = cov
        ev["wall_s"] = round(time.time() - t0, 2)
        ev["violations"] = violations
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)

    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    findings = [k for k in known["findings"] if k["property"] == pid]

    # 1. committed regression cases
    reg_dir = os.path.join(VERIF, "regressions", pid)
    regs = sorted(os.listdir(reg_dir)) if os.path.isdir(reg_dir) else []
    known_files = set(k["file"] for k in findings)
    cov["regression_cases_replayed"] = 0
    todo = [os.path.join("regressions", pid, r) for r in regs]
    for rel in todo:
        path = os.path.join(VERIF, rel)
        rc, res, err = replay(CPY, path)
        if rc not in (0, 1) or not res:
            return error("replaying %s failed: rc=%s %s" % (rel, rc, err[-1500:]))
        cov["regression_cases_replayed"] += 1
        if rel in known_files:
            what = [k for k in findings if k["file"] == rel][0]["what"]
            if rc == 1:
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
            continue
        if rc == 1:
            write_evidence(1)
            return violation(pid, path, res[0]["message"])

    # 2. generated cases
    procs = []
    for i in range(workers):
        out = os.path.join(tmp, "w%d.json" % i)
        log = open(os.path.join(tmp, "w%d.log" % i), "w")
        procs.append((i, out, log, subprocess.Popen(
            [CPY, "-W", "ignore", os.path.join(HERE, "worker.py"), pid, tier, str(seed), str(i), str(examples), out],
            env=env(), cwd=tmp, stdout=log, stderr=subprocess.STDOUT)))
    results = {}
    deadline = t0 + WALL[tier]
    failed = None
    pending = list(procs)
    while pending and failed is None:
        for p in list(pending):
            if p[3].poll() is not None:
                pending.remove(p)
                try:
                    results[p[0]] = json.load(open(p[1]))
                except (OSError, ValueError):
                    results[p[0]] = dict(error="worker died rc=%s: %s" % (
                        p[3].returncode, open(os.path.join(tmp, "w%d.log" % p[0])).read()[-2000:]), failure=None)
                if results[p[0]].get("failure"):
                    failed = p[0]
        if time.time() > deadline:
            break
        time.sleep(0.05)
    timed_out = bool(pending) and failed is None
    for p in procs:
        if p[3].poll() is None:
            p[3].kill()
        p[3].wait()
        p[2].close()

    nontrivial, classes, pypy = set(), {}, []
    for i in sorted(results):
        r = results[i]
        if r.get("error") and not r.get("failure"):
            if failed is None:
                return error("worker %d: %s" % (i, r["error"]))
            continue
        cov["evaluations"] += r["evaluations"]
        cov["discarded"] = cov.get("discarded", 0) + r["discarded"]
        nontrivial.update(r["nontrivial"])
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for s in r["samples"]:
            if len(cov["samples"]) < 4:
                cov["samples"].append(json.loads(s))
        pypy += r["pypy"]
    cov["distinct_nontrivial"] = len(nontrivial)
    cov["classes"] = dict(sorted(classes.items()))
    cov["rule"] = budget["rule"]
    cov["workers"] = workers
    cov["cases_per_worker"] = examples

    if failed is not None:
        f = results[failed]["failure"]
        path = save_replay(pid, f["case"], f["message"], dict(seed=seed, worker=failed))
        rc, res, err = replay(CPY, path)
        if rc == 1:
            write_evidence(1)
            return violation(pid, path, f["message"])
        # Not reproducible from the case alone: state leaks between cases?  Re-run the campaign, which is deterministic.
        out = os.path.join(tmp, "again.json")
        e = env()
        e["VERIF_NO_SHRINK"] = "1"
        subprocess.run([CPY, "-W", "ignore", os.path.join(HERE, "worker.py"), pid, tier, str(seed), str(failed),
                        str(examples), out], env=e, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       timeout=max(60, deadline - time.time()))
        again = json.load(open(out))
        if again.get("failure"):
            g = again["failure"]
            path = save_replay(pid, g["case"], g["message"], dict(
                seed=seed, worker=failed, note="depends on earlier cases of the same process: "
                "re-run harness/worker.py %s %s %d %d %d out.json" % (pid, tier, seed, failed, examples)))
            write_evidence(1)
            return violation(pid, path, g["message"] + " (only after earlier cases in the same process)")
        return error("a failure did not reproduce: %s / replay rc=%s %s" % (f["message"], rc, err[-500:]))
    if timed_out:
        return error("inconclusive: out of time")

    # 3. a sample of the same cases on PyPy, the interpreter the project's tests use
    if pypy:
        path = os.path.join(tmp, "pypy.json")
        with open(path, "w") as fh:
            json.dump(dict(property=pid, cases=pypy), fh)
        rc, res, err = replay(PYPY, path, timeout=max(60, min(400, deadline - time.time())))
        if rc not in (0, 1):
            return error("PyPy replay failed: rc=%s %s" % (rc, err[-1500:]))
        cov["cases_replayed_on_pypy"] = len(pypy)
        if rc == 1:
            rp = save_replay(pid, res[0]["case"], "on PyPy: " + res[0]["message"])
            write_evidence(1)
            return violation(pid, rp, "on PyPy: " + res[0]["message"])

    write_evidence(0)
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (
        pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
