#!/usr/bin/env python3
"""vsync_overlay.py REPO MC WORK: write WORK/overlay.json, which builds REPO's
current sources with package sync replaced by MC/vsync."""
import json, os, re, sys
repo, mc, work = sys.argv[1:]
rep = {repo + "/go.mod": mc + "/ini.go.mod"}
for n in os.listdir(mc + "/vsync"):
    rep[repo + "/vsync/" + n] = mc + "/vsync/" + n
found = False
for n in sorted(os.listdir(repo)):
    if not n.endswith(".go") or n.endswith("_test.go"):
        continue
    src = open(os.path.join(repo, n)).read()
    out = re.sub(r'^([ \t]*(?:import[ \t(]+)?)((?:[A-Za-z_.]\w*[ \t]+)?)"sync"([ \t]*(?://.*|\))?)$',
                 lambda m: m.group(1) + (m.group(2) or "sync ") + '"github.com/go-ini/ini/vsync"' + m.group(3), src, flags=re.M)
    if out != src:
        p = os.path.join(work, "vsync_" + n)
        open(p, "w").write(out)
        rep[os.path.join(repo, n)] = p
json.dump({"Replace": rep}, open(work + "/overlay.json", "w"))
