#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and contracts/props.json from the tables below."""
import json, importlib.util, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ns = {}
exec(open(here + "/props_table.py").read(), ns)
P, NA, HOOKS = ns["P"], ns["NA"], ns["HOOKS"]
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
info = {}
for p in P:
    if p["id"] in NA: continue
    checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p.get("technique", "contract-based deductive verification of the Go SSA (gover, z3/cvc5)"),
        "level": p.get("level", "proof"), "level_note": p["level_note"]})
    info[p["id"]] = {"level": p.get("level", "proof"), "assumptions": p.get("assumptions", []), "out_of_reach": p.get("out_of_reach", [])}
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "See DESIGN.md. fix: commits in /repo are listed in known-findings.txt. No build-tag hooks are needed: harnesses go in through go test -overlay."}
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
json.dump(info, open(root + "/contracts/props.json", "w"), indent=1)
open(root + "/contracts/props.json", "a").write("\n")
