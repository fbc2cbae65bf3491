#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import registry

SEQ = ("model checking: exhaustive enumeration of bounded operation histories and inputs "
       "on the real code against a reference model")
MC = ("stateless model checking: all thread schedules up to a preemption bound, with data-race "
      "detection, and all bounded operation histories, on the real code against a reference model")
NOTE = ("Exhaustive within: %s. Every enumerated execution runs the code compiled from "
        "/repo's working tree and is compared with an independent reference model. Assumes the "
        "stand-in Abseil headers in /verif/shim behave as Abseil does, and trusts the compiler. "
        "Nothing is claimed beyond the bounds.")
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    c = registry.CHECKS.get(p)
    if not c:
        na.append({"property": p, "reason": registry.NOT_APPLICABLE.get(
            p, "no check has been built for it yet")})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": MC if any("-DVERIF_MC" in u["bin"][1].get("flags", []) for u in c["units"]) else SEQ,
        "level": "model_checking",
        "level_note": c.get("note", NOTE % c["bounds"]),
    })
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo: the checks compile /repo's sources unmodified, "
                    "with stand-in headers and interposed system calls in /verif."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
