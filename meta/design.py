#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the text below, meta/props.py, the findings and the list of planted bugs."""
import json, os, sys, glob, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
sys.path.insert(0, "meta")
from props import P
from design_text import HEAD, PER, TAIL, CATCH
out = [HEAD.strip(), ""]
out.append("## 3. Property by property\n")
out.append("*Specified* is the property; *generated* says what the generator makes; *oracle* what decides; *bounds* what is left out; *cost* is the quick tier on 8 cores (cases per sub-check); the thorough tier runs 10 to 40 times as many cases.\n")
for p in sorted(P, key=lambda p: p["id"]):
    t = PER[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Specified:* {p['statement']}\n")
    out.append(f"*Generated:* {t['gen']}\n")
    out.append(f"*Oracle:* {t['oracle']}\n")
    if t.get("bounds"):
        out.append(f"*Bounds:* {t['bounds']}\n")
    out.append(f"*Cost:* {t['cost']}\n")
    out.append(f"*Beyond the tests because:* {p['why_tests_cant']}\n")
out.append(TAIL["before_catch"].strip() + "\n")
out.append("| planted bug | property | caught by | needs |\n|---|---|---|---|")
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m)); i = m.split("/")[1]
    out.append(f"| {i} | {d['property']} | {CATCH.get(i, d['property'])} | {d['needs']} |")
out.append("\n" + TAIL["after_catch"].strip() + "\n")
f = [l for l in open("meta/findings.txt") if l.strip()]
out.append("### Recorded, not repaired\n")
for l in f:
    m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
    out.append(f"- **{m[2]}** ({m[1]}): {m[3]}")
n = {}
for l in open("meta/fixes.txt"):
    if l.startswith("#") or not l.strip():
        continue
    s, p, w = [x.strip() for x in l.split("|", 2)]
    n.setdefault(p, []).append((s, w))
out.append(f"\n### Repaired ({sum(map(len, n.values()))} `fix:` commits)\n")
out.append("Each is listed with its commit in known_findings.txt; by the property whose check found it:\n")
for p in sorted(n):
    out.append(f"- {p}: " + "; ".join(s for s, _ in n[p]))
out.append("\n" + TAIL["end"].strip())
open("DESIGN.md", "w").write("\n".join(out) + "\n")
print("DESIGN.md", len("\n".join(out)))
