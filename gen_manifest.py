#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props/ (run by hand; the result is committed)"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(HERE, "props", p["id"].lower() + ".py")
    if os.path.exists(f):
        note = ("bounded: all values of the symbolic inputs within the bounds listed per obligation in the evidence; "
                "trusts z3, the models of Python builtins in symx/, and the harness's reference semantics; "
                "counterexamples are replayed on the unmodified code")
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "technique": "symbolic execution of the real Python source, SMT-decided assertions (z3)",
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys\" && test -x /opt/veriftools/pyvenv/bin/python",
           "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
