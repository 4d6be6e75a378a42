#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import catalogue, props
props.ros_flags = lambda: []
notes = {}
for block in open(os.path.join(V, "tools/design/properties.md")).read().split("\n### ")[1:]:
    pid, text = block.split("\n", 1)
    notes[pid.strip()] = text.strip()
findings = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m)); d["id"] = os.path.basename(os.path.dirname(m)); seeds.setdefault(d["property"], []).append(d)
out = [open(os.path.join(V, "tools/design/head.md")).read().rstrip(), "\n## Properties\n"]
for p in catalogue.PROPERTIES:
    s = props.PROPS[p["id"]]("quick")
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("- **Explored:** " + s["rule"])
    b = s["bounds"]
    out.append("- **Bounds:** " + ("; ".join("%s: %s" % x for x in b.items()) if isinstance(b, dict) else b))
    if p["id"] in notes: out.append("- **How:** " + " ".join(notes[p["id"]].split()))
    extra = s["assumptions"][len(props.COMMON_ASSUMPTIONS):]
    extra = [a for a in extra if a not in props.ROS_ASSUMPTIONS]
    if extra: out.append("- **Assumes:** " + "; ".join(extra))
    out.append("- **Why tests cannot:** " + p["tests"])
    f = [x for x in findings if x["property"] == p["id"]]
    if f: out.append("- **Defects found:** " + "; ".join("%s (%s %s)" % (x["what"], x["status"], x.get("commit", "")) for x in f))
    if p["id"] in seeds: out.append("- **Planted bugs:** " + "; ".join("%s (%s)" % (d["id"], d["what_it_breaks"]) for d in seeds[p["id"]]))
    out.append("")
out.append(open(os.path.join(V, "tools/design/seeds.md")).read().rstrip() + "\n")
out.append(open(os.path.join(V, "tools/design/tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
