#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, tools/checks.py, tools/design_*.md and seeded/."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from checks import CHECKS
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
read = lambda n: open(HERE + "/tools/" + n).read().rstrip() + "\n"
out = [read("design_head.md"), "## How each property is decided\n"]
for p in props:
    c = CHECKS[p["id"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("- Specified: see `properties.jsonl`; quantified over %s." % p["quantifier"]["text"])
    out.append("- Generated (`harness/%s`): %s." % (c["src"], c["rule"]))
    out.append("- Oracle: %s." % c["oracle"])
    if c.get("assumptions"):
        out.append("- Limits: %s." % "; ".join(c["assumptions"]))
    out.append("- Beyond the tests: %s.\n" % p["why_tests_cant"])
out.append(read("design_tail.md"))
rows = []
res = json.load(open(HERE + "/tools/seeded_results.json")) if os.path.exists(HERE + "/tools/seeded_results.json") else {}
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], res.get(i, "?")))
if rows:
    out += ["## Planted changes and which checks catch them\n", "| change | property | what it breaks | caught by (quick tier) |", "|---|---|---|---|"] + rows
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
