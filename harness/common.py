"""Shared base of all checks.  Plain Python (3.9+, CPython or PyPy); no Hypothesis here."""
import json
import hashlib
import math
import os
import signal
import sys
import traceback

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Violation(Exception):
    """The property does not hold for the case at hand."""


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


class Discard(Exception):
    """The generated case is outside the domain (counted, never a verdict)."""


class HangAbort(BaseException):
    pass


def setup_path():
    if REPO_SRC not in sys.path[:1]:
        sys.path.insert(0, REPO_SRC)
    import warnings
    warnings.simplefilter("ignore")


# ---------------------------------------------------------------- cases <-> JSON
def _enc(o):
    if isinstance(o, (bytes, bytearray)):
        return {"$b": bytes(o).decode("latin-1")}
    if isinstance(o, float):
        if o != o:
            return {"$f": "nan"}
        return {"$f": o.hex()}
    if isinstance(o, bool) or o is None or isinstance(o, (int, str)):
        return o
    if isinstance(o, (list, tuple)):
        return [_enc(x) for x in o]
    if isinstance(o, dict):
        if any(k.startswith("$") for k in o):  # (a generated JSON value may have any keys)
            return {"$d": [[k, _enc(v)] for k, v in sorted(o.items())]}
        return dict((k, _enc(v)) for k, v in o.items())
    raise HarnessError("cannot encode %r in a case" % (o,))


def _dec(o):
    if isinstance(o, list):
        return [_dec(x) for x in o]
    if isinstance(o, dict):
        if "$b" in o:
            return o["$b"].encode("latin-1")
        if "$f" in o:
            return float("nan") if o["$f"] == "nan" else float.fromhex(o["$f"])
        if "$d" in o:
            return dict((k, _dec(v)) for k, v in o["$d"])
        return dict((k, _dec(v)) for k, v in o.items())
    return o


def dumps(case, **kw):
    return json.dumps(_enc(case), sort_keys=True, **kw)


def loads(text):
    return _dec(json.loads(text))


def case_hash(text):
    return hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


# ---------------------------------------------------------------- assertions
def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(a, b):
    """Equality that distinguishes 0.0/-0.0, treats NaN as equal to itself and compares containers recursively."""
    if isinstance(a, float) and isinstance(b, float):
        if a != a or b != b:
            return a != a and b != b
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def expect_same(got, want, what, *args):
    if not same(got, want):
        raise Violation("%s: got %s, expected %s" % (what % args if args else what, short(got), short(want)))


def short(o, n=400):
    try:
        r = repr(o)
    except Exception as e:  # repr of a library object failing is not the point here
        r = "<unprintable %s: %s>" % (type(o).__name__, type(e).__name__)
    return r if len(r) <= n else r[:n] + "...(%d chars)" % len(r)


def call(what, fn, *args, **kw):
    """Calls the library on input that is inside its domain: any exception is a violation."""
    try:
        return fn(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, first_line(e)))


def first_line(e):
    s = str(e).strip()
    return s.split("\n")[0][:300] if s else ""


def must_raise(what, exc_types, fn, *args, **kw):
    """Calls the library on input it has to refuse; returns the exception."""
    try:
        r = fn(*args, **kw)
    except exc_types as e:
        return e
    except Exception as e:
        raise Violation("%s raised %s (%s) instead of %s" % (
            what, type(e).__name__, first_line(e),
            exc_types.__name__ if isinstance(exc_types, type) else "/".join(t.__name__ for t in exc_types)))
    raise Violation("%s was accepted and gave %s" % (what, short(r)))


# ---------------------------------------------------------------- running one case
HANG_CPU_SECONDS = 20
_hang = {"flag": False}


def _on_prof(signum, frame):
    _hang["flag"] = True
    raise HangAbort()


def run_case(mod, case):
    """Returns None (held), or a message (violated); raises Discard.  The case must be canonical (loads(dumps(..)))."""
    _hang["flag"] = False
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, HANG_CPU_SECONDS, 1.0)
    msg = None
    try:
        try:
            mod.check(case)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except HangAbort:
        pass
    except (Discard, HarnessError):
        if not _hang["flag"]:
            raise
    except Violation as e:
        msg = str(e)
    except RecursionError as e:
        msg = "RecursionError: %s" % first_line(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))
        msg = "unexpected %s: %s [%s]" % (type(e).__name__, first_line(e), where)
    if _hang["flag"]:
        return "HANG: the case did not finish within %d s of CPU time (normally milliseconds)" % HANG_CPU_SECONDS
    return msg


def limit_memory(gb=6):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except Exception:
        pass


def load_prop(pid):
    import importlib
    if HERE not in sys.path:
        sys.path.insert(1, HERE)
    setup_path()
    return importlib.import_module("props." + pid.lower())
