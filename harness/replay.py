"""replay.py FILE...  - re-runs saved cases without Hypothesis (CPython or PyPy).

A file holds {"property": ID, "case": {...}} or, with --many, {"property": ID, "cases": [text...]}.
Prints one JSON line per case {"ok": bool, "message": str}; exit 0 if all held, 1 if one was violated, 2 on error."""
import json
import sys

import common


def main():
    common.limit_memory()
    worst = 0
    for path in sys.argv[1:]:
        with open(path) as f:
            doc = json.load(f)
        mod = common.load_prop(doc["property"])
        texts = doc["cases"] if "cases" in doc else [json.dumps(doc["case"])]
        for text in texts:
            try:
                msg = common.run_case(mod, common.loads(text))
            except common.Discard:
                msg = None
            if msg is not None:
                worst = 1
            if msg is not None or "cases" not in doc:
                print(json.dumps(dict(ok=msg is None, message=msg, file=path, case=text if "cases" in doc else None)))
                sys.stdout.flush()
            if msg is not None and msg.startswith("HANG"):
                sys.exit(1)
    sys.exit(worst)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
