#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from tools.props import PROPS, NOT_APPLICABLE, NOTES
json.loads(json.dumps(PROPS))
with open(os.path.join(H, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in PROPS:
        fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    f = os.path.join(H, "vt", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        print("no check for", p["id"])
        continue
    c = importlib.import_module("vt.checks." + p["id"].lower()).CHECK
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": c.technique, "level": "exploration",
                   "level_note": p.get("_note") or c.rule, "evidence_file": "evidence/%s.json" % p["id"]})
m = {"version": 1, "setup_cmd": "python3 -m vt.build plain asan tsan harness harness-asan", "hooks": {"guard": "none", "enable": "no hooks were needed: the checks drive the unmodified command-line tools and the public C++ API"},
     "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}
with open(os.path.join(H, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(m, fh, indent=1, ensure_ascii=False)
    fh.write("\n")
