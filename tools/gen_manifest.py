#!/usr/bin/env python3
"""Write MANIFEST.json from the table of claimed checks and the properties."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = "deterministic simulation with fault injection: "
# id: (level, technique, note)
CLAIMED = json.load(open(os.path.join(root, "tools/claimed.json")))
NA = json.load(open(os.path.join(root, "tools/not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": T + c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: every source of nondeterminism sits behind a seam the crate already has (ReadRef, ReadCacheOps, WritableBuffer, io::Write, the hasher's seed, the allocator). Repairs of genuine defects are the fix: commits listed in known_findings.json.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
