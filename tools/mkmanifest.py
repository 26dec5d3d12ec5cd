#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": PROPS[i].get("technique", "contract-based deductive verification (Verus) of the functions extracted from /repo on every run"),
            "level": PROPS[i].get("level", "proof"),
            "level_note": PROPS[i].get("note", "Every obligation of the contracted functions is discharged by Verus/z3 for all inputs; library contracts listed in trusted_base are assumed and exercised by a bounded native harness."),
        })
        if PROPS[i].get("theorems"):
            checks[-1]["theorems"] = PROPS[i]["theorems"]
    else:
        na.append({"property": i, "reason": NA[i] if i in (NA := globals().get("NA", {})) else "contracts not written yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "--cfg rezip_verif", "enable": "RUSTFLAGS='--cfg rezip_verif' when building /verif/harness (path dependency on /repo/lib)",
               "source_commits": ["a25f04d"]},
     "checks": checks, "not_applicable": na,
     "notes": "Verus on mechanically extracted source (vx + overlay/*.vx); see DESIGN.md"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
