#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed once harness/props/<id>.py and its budget exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
budgets = json.load(open(os.path.join(V, "harness/budgets.json")))
TECH = "property-based testing (Hypothesis generators, %s)"
ORACLE = {
 "C11": "set-of-bit-positions oracle", "C24": "interval-arithmetic oracle", "C12": "flattened bit-sequence oracle",
 "C10": "stateful list-of-bits model", "C13": "Python-evaluation oracle", "C08": "differential: inherited vs flat class",
 "C09": "stateful interleaving vs isolated replay", "C06": "invalid-input mutation with error oracle",
 "C03": "round trip", "C17": "bound invariant over generated instances", "C25": "differential: wrapped vs direct",
 "C27": "predicate over generated declarations", "C28": "stateful dict model",
    "C29": "reference codec with instrumented user-written parts", "C30": "stateful histories over copies vs reference codec",
 "C26": "deterministic thread scheduling vs isolated replay", "C21": "fault injection by truncation",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in budgets and os.path.exists(os.path.join(V, "harness/props/%s.py" % i.lower())):
        checks.append(dict(property=i, quick_cmd="python3 harness/run.py %s --tier quick" % i,
                           thorough_cmd="python3 harness/run.py %s --tier thorough" % i,
                           technique=TECH % ORACLE.get(i, "reference-model oracle"), level="exploration",
                           level_note="Generated-input search: %s. Assumes the harness' reference model, written from the "
                                      "documented format, and that failures show within the generated sizes." % budgets[i]["rule"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
doc = dict(version=1, setup_cmd="python3 tools/write_properties.py && python3 tools/write_manifest.py", checks=checks, not_applicable=na,
           notes="All checks import the library from /repo/src at run time; nothing is built or cached. See DESIGN.md.")
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
