#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

props = [json.loads(l)["id"] for l in open(os.path.join(plan.VERIF, "properties.jsonl"))]
doc = {
    "version": 1,
    "setup_cmd": "bash bin/setup.sh",
    "hooks": {"guard": "verif and verifpickle", "enable": "go build -tags verif,verifpickle (bin/check.py does)", "source_commits": []},
    "checks": [], "not_applicable": [],
    "notes": "Specification in TLA+ (spec/), checked with TLC; see DESIGN.md.",
}
import subprocess
doc["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip() for c in ("d9b043c", "1ccba58")]
for p in props:
    if p in plan.PLANS:
        x = plan.PLANS[p]
        doc["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                              "evidence_file": "evidence/%s.json" % p, "technique": x["technique"], "level": x["level"], "level_note": x["note"]})
    else:
        doc["not_applicable"].append({"property": p, "reason": plan.NA.get(p, "check under construction")})
json.dump(doc, open(os.path.join(plan.VERIF, "MANIFEST.json"), "w"), indent=1)
