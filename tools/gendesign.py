#!/usr/bin/env python3
"""gendesign.py: writes DESIGN.md from tools/design_head.md, tools/props/*.json, tools/design_props.json,
known_findings.json and seeded/*/meta.json (with tools/caught.json)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
out = [rd("tools/design_head.md").rstrip(), "", "## The properties and how each is decided", ""]
how = json.load(open(os.path.join(V, "tools/design_props.json")))
props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
for p in sorted(props, key=lambda p: p["id"]):
    m = man.get(p["id"], {})
    out += [f"### {p['id']}: {p['title']}", "", p["statement"], ""]
    h = how.get(p["id"])
    if not h: print("no text for", p["id"]); continue
    for k in ("Generated", "Oracle", "Bounds", "Reach"):
        if k in h: out.append(f"- **{k}.** {h[k]}")
    if m.get("level_note"): out.append(f"- **Limits.** {m['level_note']}")
    out.append("")
kf = json.load(open(os.path.join(V, "known_findings.json")))
out += ["## Defects found in the unchanged tree", "", "Repaired, each with one `fix:` commit (the check passes on the repaired tree and reports the violation again if it returns):", ""]
for f in kf["fixed"]:
    _, prop, commit, text = f.split(" ", 3)
    out.append(f"- {prop.split('=')[1]} `{commit}`: {text}")
out += ["", f"Recorded, not repaired ({len(kf['findings'])}, in known_findings.json; each is one specific input, and anything else which breaks the property is still reported):", "", rd("tools/design_findings.md").rstrip(), ""]
caught = json.load(open(os.path.join(V, "tools/caught.json")))
out += ["## Planted bugs", "", "Each is kept in `seeded/<id>/` with a demonstration; found means that the quick check exits 1 with the VIOLATION line of that property.", "", "| bug | property | what it breaks | found by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(f)); d = json.load(open(f))
    out.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {caught.get(i, '(not yet run)')} |")
out += ["", rd("tools/design_tail.md").rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
