#!/usr/bin/env python3
"""Rewrites the "fixed" entries of known_findings.json from the fix: commits in /repo
and tools/fixmap.json (commit -> property).  The known findings stay as they are."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(H, "tools", "fixmap.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "1209ae0..HEAD"], capture_output=True, text=True).stdout
f = os.path.join(H, "known_findings.json")
k = json.load(open(f))
out = [x for x in k["findings"] if x["status"] != "fixed"]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    if h[:7] not in m:
        print("no property for", l)
        continue
    out.append({"property": m[h[:7]], "status": "fixed", "what": "fixed: property=%s %s %s" % (m[h[:7]], h, s[5:])})
with open(f, "w", encoding="utf-8") as fh:
    fh.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x, ensure_ascii=False) for x in out) + "\n]}\n")
