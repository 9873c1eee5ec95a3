#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py (run after changing the list of claimed properties)"""
import json
import plan

NOTE = {}
checks = []
for p in plan.CLAIMED:
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": plan.TECHNIQUE.get(p, "abstract interpretation of compiler MIR (relational numeric domain, loop fixpoints, rely/guarantee monitors)"),
        "level": "other",
        "level_note": plan.RULES[p] + " Decided for all source lengths, chunk sizes, positions and interference of other threads at once, per operation; "
        "the composition to whole histories is a paper argument (DESIGN.md). Programs whose analysis is outside of the supported fragment are listed as UNDECIDED.",
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in plan.NOT_APPLICABLE.items()],
     "notes": "Technique family: static analysis. See DESIGN.md. No hooks are used in /repo."}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
