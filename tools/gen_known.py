#!/usr/bin/env python3
"""Writes known_findings.json: open findings (matched by property and class) and the repaired defects."""
import json, subprocess, os
OPEN = [
    ("C02", "zdebug-name-unreadable",
     "when reading the name of a .zdebug_* section fails (a stream error), uncompressed_data, compressed_data and "
     "compressed_file_range treat the section as not compressed and return its compressed bytes as its contents "
     "(ElfSection::maybe_compressed_gnu and MachOSection::maybe_compressed_gnu ignore the error)"),
]
FIXED = [l.rstrip("\n").split("\t") for l in open(os.path.join(os.path.dirname(__file__), "fixed.tsv"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
by_subject = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
out = [{"property": p, "class": c, "status": "open", "what": w} for p, c, w in OPEN]
for props, subject in FIXED:
    h = by_subject["fix: " + subject]
    for p in props.split(","):
        out.append({"property": p, "class": "", "status": "fixed", "what": f"fixed: property={p} {h} {subject}"})
root = os.path.join(os.path.dirname(__file__), "..", "known_findings.json")
json.dump({"findings": out}, open(root, "w"), indent=1)
subjects = {s for _, s in FIXED}
for s in by_subject:
    if s.startswith("fix: ") and s[5:] not in subjects:
        print("not in fixed.tsv:", s)
