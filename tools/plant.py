#!/usr/bin/env python3
"""plant.py SPEC.py...: plants a bug in a copy of /repo, records it in /verif/seeded/<id>, and confirms that it builds,
passes the tests, is shown by its demo and caught by the check.  SPEC defines ID, PROPERTY, EDITS [(file, old, new)],
DEMO, NEEDS, BREAKS.  plant.py --recheck ID... runs the demo and the check again for recorded bugs."""
import json, os, runpy, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)


def build():
    return sh("bash", "/opt/vp/build.sh", "tools").returncode == 0


def clean():
    sh("git", "-C", R, "checkout", "--", ".")


def main():
    args = sys.argv[1:]
    re = args[:1] == ["--recheck"]
    ids = []
    assert not sh("git", "-C", R, "status", "--short").stdout.strip(), "/repo is not clean"
    if re:
        ids = args[1:] or sorted(os.listdir(H + "/seeded"))
    else:
        for f in args:
            m = runpy.run_path(f)
            d = os.path.join(H, "seeded", m["ID"])
            os.makedirs(d, exist_ok=True)
            try:
                for p, a, b in m["EDITS"]:
                    p = os.path.join(R, p)
                    s = open(p).read()
                    assert s.count(a) == 1, (p, s.count(a), a)
                    open(p, "w").write(s.replace(a, b))
                diff = sh("git", "-C", R, "diff").stdout
            finally:
                clean()
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write("#!/bin/bash\n" + m["DEMO"].lstrip())
            for n, t in m.get("FILES", {}).items():
                open(os.path.join(d, n), "w").write(t)
            json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
            ids.append(m["ID"])
    for i in ids:
        d = os.path.join(H, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        res = {}
        try:
            r = sh("git", "-C", R, "apply", d + "/patch.diff")
            if r.returncode:
                print(i, "PATCH DOES NOT APPLY", r.stderr)
                continue
            res["builds"] = build()
            if not res["builds"]:
                print(sh("bash", "/opt/vp/build.sh", "tools").stdout[-2000:])
            t = sh("bash", "/opt/vp/test.sh", "/tmp/plant.json")
            res["tests"] = t.stdout.strip().split("\n")[-1]
            r = sh("timeout", "280", "bash", d + "/demo.sh", cwd=R)
            res["demo_with"] = r.returncode
            if r.returncode == 0:
                print(r.stdout[-1500:], r.stderr[-1500:])
            c = sh("python3", "check.py", prop, cwd=H)
            res["check"] = c.returncode
            v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
            res["caught"] = bool(v) and c.returncode == 1
            if not res["caught"]:
                print(c.stdout[-1500:], c.stderr[-800:])
            else:
                res["case"] = [l for l in c.stdout.split("\n") if l.startswith("counterexample")][0][:300]
        finally:
            clean()
        build()
        r = sh("timeout", "280", "bash", d + "/demo.sh", cwd=R)
        res["demo_without"] = r.returncode
        if r.returncode:
            print(r.stdout[-1500:], r.stderr[-1500:])
        ok = res["builds"] and res["tests"].startswith("124 passed") and res["demo_with"] and not res["demo_without"]
        print(i, prop, "VALID" if ok else "INVALID", "CAUGHT" if res["caught"] else "MISSED", json.dumps(res, ensure_ascii=False), flush=True)


if os.environ.get("PLANT_INNER"):
    main()
else:
    # bugs are planted in a copy that stands in for /repo in a mount namespace of our own: /repo itself never holds one
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        subprocess.run(["cp", "-a", R, tmp + "/repo"], check=True)
        sys.exit(subprocess.run(["unshare", "-Urm", "sh", "-c", 'mount --bind "$0" /repo && exec python3 "$@"', tmp + "/repo",
                                 os.path.abspath(__file__)] + sys.argv[1:], env=dict(os.environ, PLANT_INNER="1")).returncode)
    finally:
        shutil.rmtree(tmp)
