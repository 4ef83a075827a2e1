#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props/*.json (one file per property)."""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for f in sorted(glob.glob(V + "/props/*.json")):
    p = json.load(open(f))
    c = p.pop("check", None)
    n = p.pop("not_applicable", None)
    props.append(p)
    if c:
        c = dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"], **c)
        checks.append(c)
    else:
        na.append({"property": p["id"], "reason": n})
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
