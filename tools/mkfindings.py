#!/usr/bin/env python3
"""known_findings.txt: repaired defects (from the fix commits) and known ones (KNOWN below)."""
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# the property each repaired defect broke, by a piece of the commit subject
FIXED = [l.rstrip("\n").split("|") for l in open(os.path.join(HERE, "tools", "fixed.txt")) if "|" in l]
KNOWN = [l.rstrip("\n") for l in open(os.path.join(HERE, "tools", "known.txt")) if l.strip()] \
    if os.path.exists(os.path.join(HERE, "tools", "known.txt")) else []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s"], text=True)
out = ["# Defects of the code under test found by these checks.",
       "# known: left in place; the check prints a KNOWN-FINDING line while it reproduces.",
       "# fixed: repaired by that commit; suppresses nothing."]
out += KNOWN
for line in log.splitlines():
    h, s = line.split("|", 1)
    if not s.startswith("fix:"):
        continue
    m = [p for p, t in FIXED if t in s]
    assert len(m) == 1, (s, m)
    out.append(f"fixed: property={m[0]} {h} {s[5:]}")
open(os.path.join(HERE, "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out) - 3)
