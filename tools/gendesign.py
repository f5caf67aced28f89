#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the notes below, the checks' own
descriptions (mc describe) and the planted bugs. Usage: gendesign.py MC_BINARY"""
import json, os, subprocess, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
desc = {}
for l in subprocess.run([sys.argv[1], "describe"], capture_output=True, text=True, check=True).stdout.splitlines():
    d = json.loads(l); desc[d["id"]] = d
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
sys.path.insert(0, here)
import design_notes as N, checks_list
seeds = {}
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
kf = json.load(open(root + "/known_findings.json"))
out = [open(here + "/design_head.md").read().rstrip() + "\n"]
out.append("\n## The properties and how each is decided\n")
for p in props:
    i = p["id"]; d = desc.get(i)
    out.append(f"\n### {i}: {p['title']}\n\n")
    if i not in checks_list.CHECKS:
        out.append("Not claimed; see MANIFEST.json.\n"); continue
    n = N.NOTES[i]
    out.append(f"*Technique.* {checks_list.CHECKS[i][0]}.\n\n")
    out.append(f"*Model and oracle.* {n['oracle']}\n\n")
    out.append(f"*What is a case.* {d['rule'][0].upper() + d['rule'][1:]}.\n\n".replace("..\n", ".\n"))
    out.append(f"*Bounds.* {d['bounds'][0].upper() + d['bounds'][1:]}.\n\n".replace("..\n", ".\n"))
    if d["assumptions"]:
        out.append("*Assumptions.* " + "; ".join(d["assumptions"]) + ".\n\n")
    out.append(f"*Cost and reach.* {n['cost']}\n")
    f = [x for x in kf["fixed"] if "property=" + i + " " in x]
    if f:
        out.append("\n*Defects found and repaired.* " + "; ".join(x.split(" ", 2)[2].split(" ", 1)[1] + " (" + x.split(" ", 3)[2] + ")" for x in f) + ".\n")
    k = [x for x in kf["findings"] if x["property"] == i]
    if k:
        out.append("\n*Known findings (not repaired).* " + " / ".join(x["what"] for x in k) + ".\n")
    if n.get("notes"):
        out.append(f"\n*Corrected on the way.* {n['notes']}\n")
    if i in seeds:
        out.append("\n*Planted bugs.* " + "; ".join(f"`{s}` ({d['what_it_breaks']}): {N.MISSED.get(s, 'caught')}" for s, d in seeds[i]) + ".\n")
out.append("\n" + open(here + "/design_tail.md").read().rstrip() + "\n")
open(root + "/DESIGN.md", "w").write("".join(out))
