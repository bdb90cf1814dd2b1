#!/usr/bin/env python3
"""mutate.py gen|test|check DIR - measures the checks with small mutations of /repo/src (development tool, not a check).

gen    writes DIR/mutants.json: single-place edits of the library's source
test   keeps those that pass the repository's tests        -> DIR/survivors.json
check  runs one worker per property on each until it is caught -> DIR/results.jsonl"""
import ast
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
PKG = "src/infi/instruct"
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
       ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.FloorDiv: ["*"], ast.Mod: ["+"], ast.LShift: [">>"], ast.RShift: ["<<"],
       ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.BitXor: ["|"], ast.Div: ["*"]}


def mutants_of(path, text):
    tree = ast.parse(text)
    offs = [0]
    for line in text.splitlines(True):
        offs.append(offs[-1] + len(line))
    pos = lambda line, col: offs[line - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    src = lambda n: text[slice(*span(n))]
    out = []

    def add(a, b, new, what):
        if text[a:b] != new:
            out.append(dict(path=path, a=a, b=b, new=new, old=text[a:b], what=what, line=text.count("\n", 0, a) + 1))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                add(*span(n), "%s %s %s" % (src(n.left), new, src(n.comparators[0])), "cmp")
        if isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                add(*span(n), "%s %s %s" % (src(n.left), new, src(n.right)), "bin")
            add(*span(n), src(n.left), "drop-right")
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [src(v) for j, v in enumerate(n.values) if j != i]
                add(*span(n), (" and " if isinstance(n.op, ast.And) else " or ").join(rest), "bool-drop")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(*span(n), src(n.operand), "not")
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(*span(n), str(n.value + 1), "const")
            if n.value:
                add(*span(n), str(n.value - 1), "const")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(*span(n), str(not n.value), "const")
        if isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                add(*span(n.test), "True", "cond")
            add(*span(n.test), "False", "cond")
        if isinstance(n, ast.IfExp):
            add(*span(n), src(n.body), "ifexp")
            add(*span(n), src(n.orelse), "ifexp")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete, ast.Assert)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(*span(n), "pass", "delete")
        if isinstance(n, ast.Return) and n.value is not None:
            add(*span(n), "return None", "return")
        if isinstance(n, ast.Call):
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                add(*span(n), src(n.args[0]), "unwrap")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = n.args[0], n.args[1]
                add(span(a)[0], span(b)[1], "%s, %s" % (src(b), src(a)), "swap")
            for kw in n.keywords:
                if kw.arg and len(n.args) + len(n.keywords) > 1:
                    pass
        if isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    add(*span(part), "", "slice")
        if isinstance(n, ast.Break):
            add(*span(n), "continue", "break")
        if isinstance(n, ast.Continue):
            add(*span(n), "break", "continue")
    return out


def gen(d):
    out = []
    for root, _, names in os.walk(os.path.join(REPO, PKG)):
        for n in sorted(names):
            if n.endswith(".py"):
                p = os.path.join(root, n)
                text = open(p).read()
                ms = mutants_of(os.path.relpath(p, REPO), text)
                for m in ms:
                    try:
                        ast.parse(text[:m["a"]] + m["new"] + text[m["b"]:])
                    except SyntaxError:
                        continue
                    out.append(m)
    for i, m in enumerate(out):
        m["id"] = i
    json.dump(out, open(os.path.join(d, "mutants.json"), "w"), indent=0)
    print(len(out), "mutants")


def copy(m):
    t = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(t, "src"))
    if m:
        p = os.path.join(t, m["path"])
        text = open(p).read()
        open(p, "w").write(text[:m["a"]] + m["new"] + text[m["b"]:])
    return t


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def passes_tests(m):
    t = copy(m)
    try:
        shutil.copytree(os.path.join(REPO, "tests"), os.path.join(t, "tests"))
        for f in os.listdir(REPO):
            if os.path.isfile(os.path.join(REPO, f)) and not f.startswith("."):
                shutil.copy(os.path.join(REPO, f), t)
        try:
            p = subprocess.run(["/opt/venv-pypy/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "-W", "ignore", "tests"],
                               cwd=t, env=dict(ENV, PYTHONPATH=os.path.join(t, "src")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            return m, False
        return m, p.returncode == 0
    finally:
        shutil.rmtree(t, ignore_errors=True)


def test(d):
    ms = json.load(open(os.path.join(d, "mutants.json")))
    ok = passes_tests(None)[1]
    print("baseline passes:", ok)
    keep = []
    with cf.ThreadPoolExecutor(8) as ex:
        for i, (m, good) in enumerate(ex.map(passes_tests, ms)):
            if good:
                keep.append(m)
            if i % 200 == 0:
                print(i, len(keep), flush=True)
    json.dump(keep, open(os.path.join(d, "survivors.json"), "w"), indent=0)
    print(len(keep), "of", len(ms), "pass the tests")


BUF = "C01 C07 C04 C14 C03 C06 C05 C02 C09 C10 C12 C13 C11 C08 C25 C23".split()
STR = "C15 C21 C22 C19 C17 C20 C16 C18 C23 C24 C25".split()
FIRST = {"io_buffer": "C10", "buffer/range": "C11", "reference/range": "C12", "reference/reference": "C13", "serialize": "C14", "compat": "C25",
         "lazy": "C19", "selector": "C20", "read_ahead": "C20", "bit": "C18", "base.py": "C24", "func_call": "C13", "builtins": "C13"}


def check_one(m, examples):
    ids = BUF if "/buffer/" in m["path"] else STR
    first = [v for k, v in FIRST.items() if k in m["path"]]
    ids = first + [i for i in ids if i not in first]
    t = copy(m)
    try:
        for pid in ids:
            out = os.path.join(t, "out.json")
            env = dict(ENV, VERIF_REPO_SRC=os.path.join(t, "src"), VERIF_NO_SHRINK="1", PYTHONPATH=HARNESS, PYTHONWARNINGS="ignore",
                       PYTHONPYCACHEPREFIX="/nonexistent/x")
            try:
                subprocess.run(["/opt/venv/bin/python", "-W", "ignore", os.path.join(HARNESS, "worker.py"), pid, "quick", "1", "0", str(examples), out],
                               env=env, cwd=t, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
                r = json.load(open(out))
                os.unlink(out)
            except Exception as e:
                return dict(m, caught=None, by=pid, message="no result: %s" % type(e).__name__)
            if r.get("failure"):
                return dict(m, caught=True, by=pid, message=r["failure"]["message"][:300])
            if r.get("error"):
                return dict(m, caught=None, by=pid, message=r["error"][-300:])
        return dict(m, caught=False)
    finally:
        shutil.rmtree(t, ignore_errors=True)


def check(d, examples=500, source="survivors.json"):
    ms = json.load(open(os.path.join(d, source)))
    n = 0
    with cf.ThreadPoolExecutor(8) as ex, open(os.path.join(d, "results.jsonl"), "w") as f:
        for i, r in enumerate(ex.map(lambda m: check_one(m, examples), ms)):
            f.write(json.dumps(r) + "\n")
            f.flush()
            n += bool(r["caught"])
            if i % 50 == 0:
                print(i, n, flush=True)
    print(n, "of", len(ms), "caught")


if __name__ == "__main__":
    if sys.argv[1] == "check":
        check(sys.argv[2], *([int(sys.argv[3])] if len(sys.argv) > 3 else []), **({"source": sys.argv[4]} if len(sys.argv) > 4 else {}))
    else:
        {"gen": gen, "test": test}[sys.argv[1]](sys.argv[2])
