#!/usr/bin/env python3
"""Writes /verif/known_findings.txt: the recorded findings (findings.txt) and the repaired defects (fix: commits in /repo)."""
import subprocess, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "fe36c66.."], capture_output=True, text=True).stdout.splitlines()
M = {}
for l in open("fixes.txt"):
    l = l.rstrip("\n")
    if l and not l.startswith("#"):
        subj, prop, what = l.split(" | ")
        M[subj] = (prop, what)
out = ["# One line per recorded finding: 'finding:' lines are announced (KNOWN-FINDING) by the named check and",
       "# suppress only that pinned case; 'fixed:' lines record repaired defects and suppress nothing."]
out += [l.rstrip("\n") for l in open("findings.txt") if l.strip()]
used = set()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in M:
        raise SystemExit("no entry for: " + s)
    used.add(s)
    p, w = M[s]
    out.append(f"fixed: property={p} {h} {w}")
for s in M:
    if s not in used:
        raise SystemExit("no commit for: " + s)
open("../known_findings.txt", "w").write("\n".join(out) + "\n")
