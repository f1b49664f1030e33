#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a harness in checks/."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
checks, na = [], []
for p in props:
    f = glob.glob(f"{root}/checks/{p['id']}_*.cpp")
    if not f:
        na.append({"property": p["id"], "reason": "no check built yet"}); continue
    src = open(f[0]).read()
    get = lambda k, d: (re.search(r"^// *%s: *(.*)$" % k, src, re.M) or [None, d])[1]
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
        "technique": get("TECHNIQUE", "property-based testing: generated inputs against a reference model, with shrinking"),
        "level": get("LEVEL", "exploration"),
        "level_note": get("NOTE", "Random exploration of the stated input space against an independent double-precision oracle; trusts the oracle, the compiler and the stand-in matrix library.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks are needed; the checks compile /repo's sources unchanged", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "check.sh rebuilds from /repo's working tree (objects cached by content hash) and runs one harness; see DESIGN.md."}, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
