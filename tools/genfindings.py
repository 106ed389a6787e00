#!/usr/bin/env python3
"""Rewrites the 'fixed:' part of KNOWN_FINDINGS.txt from /repo's fix: commits (development helper, not used by checks)."""
import subprocess, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = [l.rstrip("\n").split("\t") for l in open(os.path.join(root, "tools", "fixmap.tsv")) if l.strip()]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode().splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    for sub, props, what in M:
        if sub in s:
            for p in props.split(","):
                out.append("fixed: property=%s %s %s" % (p, h, what or s[5:]))
            break
    else:
        print("unmapped:", l)
f = os.path.join(root, "KNOWN_FINDINGS.txt")
old = [l for l in (open(f).read().splitlines() if os.path.exists(f) else []) if not l.startswith("fixed:") and not l.startswith("#")]
head = ["# 'fixed:' lines record repaired defects and suppress nothing.",
        "# 'finding: property=Cxx key=\"...\" text' lines record defects left in place; key is the exact failing case."]
open(f, "w").write("\n".join(head + [l for l in old if l] + out) + "\n")
