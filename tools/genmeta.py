#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for p in sorted(glob.glob(os.path.join(V, "tools/props/*.json"))):
    d = json.load(open(p))
    assert os.path.basename(p) == d["id"] + ".json", p
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
    for f in d["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), (d["id"], f)
    c = d.pop("check", None)
    n = d.pop("not_applicable", None)
    props.append(d)
    if c:
        cmd = f"python3 checks/lib.py {d['id']}" if d["id"][0] == "L" and c.get("lib", True) else f"python3 checks/{d['id'].lower()}.py"
        checks.append({"property": d["id"], "quick_cmd": c.get("cmd", cmd), "thorough_cmd": "VERIF_TIER=thorough " + c.get("cmd", cmd),
                       "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    elif n: na.append({"property": d["id"], "reason": n})
    else: na.append({"property": d["id"], "reason": "No check has been built yet."})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
import subprocess
code = """
import json,jsonschema
m=json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(json.load(open('%s/MANIFEST.json')),m)
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('%s/properties.jsonl'): jsonschema.validate(json.loads(l),s)
print('schemas ok')
""" % (V, V)
sys.exit(subprocess.call(["python3-vt", "-c", code]))
