"""worker.py ID TIER SEED INDEX EXAMPLES OUT - one Hypothesis campaign of one property; writes OUT (JSON)."""
import json
import os
import sys
import time

import common

HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Stop(BaseException):
    pass


def main():
    pid, tier, base_seed, index, examples, out = sys.argv[1:7]
    base_seed, index, examples = int(base_seed), int(index), int(examples)
    shrink = os.environ.get("VERIF_NO_SHRINK") != "1"
    common.limit_memory()
    mod = common.load_prop(pid)
    if HYPO not in sys.path:
        sys.path.append(HYPO)  # last: the library's own dependencies win
    import hypothesis
    from hypothesis import given, settings, seed, Phase, HealthCheck, strategies as st
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45
    from draw import D

    state = dict(evaluations=0, discarded=0, nontrivial=set(), classes={}, samples=[], pypy=[], failure=None, smallest=None)
    t0 = time.time()
    pypy_quota = int(os.environ.get("VERIF_PYPY_QUOTA", "40"))

    def finish(error=None):
        res = dict(index=index, evaluations=state["evaluations"], discarded=state["discarded"],
                   nontrivial=sorted(state["nontrivial"]), classes=state["classes"], samples=state["samples"],
                   pypy=state["pypy"], failure=state["failure"], error=error, wall=time.time() - t0)
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.rename(tmp, out)

    @st.composite
    def cases(draw):
        return common.dumps(mod.gen(D(draw)))

    def body(text):
        case = common.loads(text)
        try:
            msg = common.run_case(mod, case)
        except common.Discard:
            state["discarded"] += 1
            hypothesis.reject()
        state["evaluations"] += 1
        labels, nontrivial = mod.classify(case)
        h = common.case_hash(text)
        if nontrivial and state["failure"] is None:
            if h not in state["nontrivial"]:
                state["nontrivial"].add(h)
                n = len(state["nontrivial"])
                if len(state["samples"]) < 2 and n in (7, 60) and len(text) < 4000:
                    state["samples"].append(text)
                if len(state["pypy"]) < pypy_quota and n % 5 == 0 and len(text) < 6000:
                    state["pypy"].append(text)
        if state["failure"] is None:
            for l in labels:
                state["classes"][l] = state["classes"].get(l, 0) + 1
        if msg is not None:
            cur = state["failure"]
            if cur is None or len(text) <= len(cur["case"]):
                state["failure"] = dict(case=text, message=msg)
            if msg.startswith("HANG") or not shrink:
                raise Stop()
            raise common.Violation("violated")

    test = given(cases())(body)
    test = seed((base_seed * 1000003 + index * 7919 + sum(map(ord, pid)) * 104729) & 0xFFFFFFFF)(test)
    phases = (Phase.generate, Phase.shrink) if shrink else (Phase.generate,)
    test = settings(max_examples=examples, database=None, deadline=None, phases=phases, print_blob=False,
                    report_multiple_bugs=False, suppress_health_check=list(HealthCheck))(test)
    try:
        test()
    except Stop:
        pass
    except common.HarnessError as e:
        finish(error="harness error: %s" % e)
        return
    except common.Violation:
        pass
    except BaseException as e:
        if state["failure"] is None:
            import traceback
            finish(error="worker: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
            return
    finish()


if __name__ == "__main__":
    main()
