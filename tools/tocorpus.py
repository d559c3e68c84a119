#!/usr/bin/env python3
"""Adds the replays of repaired defects (cases that pass now) to the regression corpus."""
import importlib, json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from vt import core, build as B
for f in sorted(glob.glob(os.path.join(H, "replays", "*.json"))):
    j = json.load(open(f))
    chk = importlib.import_module("vt.checks." + j["property"].lower()).CHECK
    env = core.Env({v: B.build(v) for v in chk.variants})
    try:
        chk.run(j["case"], env)
        d = os.path.join(H, "corpus", j["property"])
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "fixed.json")
        l = core.load_json(p, [])
        if j["case"] not in l:
            l.append(j["case"])
            with open(p, "w") as fh:
                fh.write("[\n" + ",\n".join(json.dumps(c) for c in l) + "\n]\n")
            print("added", f)
        os.remove(f)
    except core.Skip:
        print("skip", f); os.remove(f)
    except KeyError as e:
        print("old format", f, e)
    except core.Fail as e:
        print("still fails", f, str(e)[:200])
    finally:
        env.close()
