#!/usr/bin/env python3
"""records the loop/closure shape of every extracted function on the current tree (run on the pinned tree only)"""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([V + "/build/target/release/vx", "--repo", "/repo", "--overlay", V + "/overlay", "--out", V + "/build/gen.rs", "--report", V + "/build/rep.json", "--no-inline"])
r = json.load(open(V + "/build/rep.json"))
json.dump(r["shapes"], open(V + "/overlay/SHAPES.json", "w"), indent=0, sort_keys=True)
json.dump(r["hashes"], open(V + "/overlay/HASHES.json", "w"), indent=0, sort_keys=True)
print(len(r["shapes"]))
with open(V + "/overlay/CLOSURES.txt", "w") as f:
    for k in sorted(r["closures"]):
        for c in r["closures"][k]:
            assert "\n" not in c and "\t" not in c
            f.write(k + "\t" + c + "\n")
