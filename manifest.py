#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from symex import props  # noqa: E402

COMMON = ("Within the bounds every input is covered: the solver partitions the inputs into the feasible paths of the real, re-instrumented code "
          "and its reference model, and no path violates the assertion; every path's witness is also run through the unmodified library. "
          "Says nothing outside the bounds. Trusts z3, CPython and the interpretation of str/re/list/dict/int operations in symex (checked "
          "per path against the real run). Bounds: ")
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i in NA:
        continue
    p = props.PROPS[i]
    note = COMMON + p.bounds + "."
    more = list(getattr(p, "assumptions", ()))
    if more:
        note += " Assumes: " + "; ".join(more) + "."
    checks.append({"property": i, "quick_cmd": "python3-vt -B run.py %s quick" % i, "thorough_cmd": "python3-vt -B run.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "symbolic execution of the real code, decided by an SMT solver (z3) within stated bounds",
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3-vt -B -c 'import z3; print(z3.get_version_string())'", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the sources are instrumented in memory on every run. Commits starting with fix: repair defects the checks found "
              "(known_findings.txt)."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
