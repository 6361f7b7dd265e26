import json, sys
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
r = json.load(open(sys.argv[1]))
def names(r):
    if isinstance(r, dict):
        for k in ("passed", "pass", "stable"):
            if k in r:
                return set(r[k])
        if "results" in r: r = r["results"]
        if isinstance(r, dict):
            return {k for k, v in r.items() if v in ("pass", "passed", True)}
    return set(r)
miss = base - names(r)
print("ok" if not miss else f"FAIL({len(miss)})")
