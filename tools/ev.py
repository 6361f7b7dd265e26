#!/usr/bin/env python3
"""Prints a summary of an evidence file."""
import json, sys
e = json.load(open(f"/verif/evidence/{sys.argv[1]}.json"))
c = e["coverage"]
for k, v in c.items():
    if k in ("harnesses", "functions_encoded", "samples", "abnormal_path_ends"):
        continue
    print(k, v)
for h, v in c.get("harnesses", {}).items():
    print(h, v)
for a in (c.get("abnormal_path_ends") or []):
    print("  end:", a[:300])
print("functions:", len(c.get("functions_encoded", {})))
