#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
        continue
    c = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s --tier quick" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing: " + c.get("technique", "generated cases against an explicit oracle, plus coverage-guided fuzzing of the same property functions"),
        "level": "exploration",
        "level_note": "Held on every generated case (counts in the evidence file); not a proof. Oracle: %s. Trusts the oracle, the generators' reach, g++/clang with AddressSanitizer%s." % (
            c["oracle"], "".join("; " + a for a in c.get("assumptions", []))),
    })
m = {"version": 1, "setup_cmd": "python3 run.py --self-check", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check builds harness/*.cpp together with /repo/src from the working tree; see DESIGN.md."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
