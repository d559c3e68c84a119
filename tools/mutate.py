#!/usr/bin/env python3
"""mutate.py DIR SEED COUNT [N] [FILE...]: measures the checks with random small changes.  DIR is a scratch clone of /repo.  A
change that does not build or that the existing tests notice is dropped; for the others the checks are run (N cases
each, those whose properties are anchored in the changed file first) until one reports a violation.  Writes
DIR/../mutants.jsonl; survivors are for reading: equivalent changes or gaps."""
import json, os, random, re, signal, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
D, seed, count = os.path.abspath(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
N = sys.argv[4] if len(sys.argv) > 4 else "2500"
os.environ["VERIF_REPO"] = D
os.environ["PATH"] = "/usr/lib/ccache:" + os.environ["PATH"]
os.environ["CCACHE_DIR"] = os.path.join(os.path.dirname(D), "ccache")
from vt import build as B

props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
SLOW = ["C25", "C23"]
FILES = sys.argv[5:] or [f for f in os.listdir(D + "/lttoolbox") if f.endswith((".cc", ".h")) and f not in ("cli.cc", "cli.h", "deserialiser.h", "serialiser.h", "ltstr.h",
                                                                                                                "endian_util.h", "check-cstdint.cc", "lt_locale.cc", "my_stdio.h", "exception.h", "deserialisation_exception.h")]
r = random.Random(seed)


def swap(a, b):
    return lambda l: [(m.start(), m.end(), b) for m in re.finditer(a, l)]


MUT = [swap(r"==", "!="), swap(r"!=", "=="), swap(r"(?<=[\w\) ])<(?=[ \w])(?!<)(?=[^>]*$)", "<="), swap(r"(?<=[ \w\)])>(?=[ ])", ">="), swap(r"<=", "<"), swap(r">=", ">"),
       swap(r"&&", "||"), swap(r"\|\|", "&&"), swap(r"!(?=[a-z(])", ""), swap(r"\btrue\b", "false"), swap(r"\bfalse\b", "true"),
       swap(r" \+ 1\b", ""), swap(r" ?- ?1\b", ""), swap(r"\b0\b", "1"), swap(r"\b1\b", "0"), swap(r"\b2\b", "1"), swap(r"\+=", "="),
       swap(r"\.first\b", ".second"), swap(r"\.second\b", ".first"), swap(r"\bbegin\(\)", "end()"), swap(r"\bcontinue;", ";"), swap(r"\bbreak;", ";"), swap(r"\bback\(\)", "front()"),
       lambda l: [(m.start(1), m.end(1), x) for m in [re.match(r"\s*(?:else )?if ?\((.*)\)\s*\{?$", l)] if m for x in ("true", "false")],
       lambda l: [(len(l) - len(l.lstrip()), len(l), ";")] if re.match(r"\s+[\w.\->\[\]():, &*+'\"\\]+;$", l) and not re.match(r"\s*(return|int|auto|UString|bool|double|size_t|std::|const|unsigned|delete|using|typedef|UChar|Transducer|State|FILE|case|default|break|continue)\b", l) else []]


def sites():
    o = []
    for f in FILES:
        comment = False
        for n, l in enumerate(open(D + "/lttoolbox/" + f, errors="replace").read().split("\n")):
            s = l.strip()
            if "/*" in s:
                comment = "*/" not in s
                continue
            if comment:
                comment = "*/" not in s
                continue
            if not s or s.startswith(("//", "#", "*")) or "cli.add" in l or "cerr" in l or "cout" in l:
                continue
            l2 = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x01" * len(m.group()), l.split("//")[0])
            for m in MUT:
                for a, b, t in m(l2):
                    o.append((f, n, a, b, t))
    return o


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)


def main():
    S = sites()
    byf = {}
    for s in S:
        byf.setdefault(s[0], []).append(s)
    out = open(os.path.join(os.path.dirname(D), "mutants.jsonl"), "a")
    done = 0
    stat = {}
    while done < count:
        f = r.choices(sorted(byf), [len(byf[x]) ** 0.7 for x in sorted(byf)])[0]
        f, n, a, b, t = r.choice(byf[f])
        p = D + "/lttoolbox/" + f
        src = open(p).read()
        ls = src.split("\n")
        old = ls[n]
        ls[n] = old[:a] + t + old[b:]
        if ls[n] == old:
            continue
        try:
            open(p, "w").write("\n".join(ls))
            try:
                bd = B.build("plain", D)
            except B.BuildError:
                continue
            q = subprocess.Popen([sys.executable, "tests/run_tests.py", bd + "/bin"], cwd=D, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            try:
                bad = q.wait(60)
            except subprocess.TimeoutExpired:
                bad = 1
            try:
                os.killpg(q.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            q.wait()
            if bad:
                stat["tests"] = stat.get("tests", 0) + 1
                continue
            t0 = time.time()
            ids = sorted((x["id"] for x in props), key=lambda i: (not any(f in str(q["anchors"]) for q in props if q["id"] == i), i in SLOW, i))
            ids = [i for i in ids if i not in SLOW] + SLOW
            hit = None
            for i in ids:
                q = sh(sys.executable, H + "/check.py", i, "--n", N, "--seed", str(seed * 1000 + done), timeout=900)
                if q.returncode == 1:
                    hit = i
                    break
                if q.returncode != 0:
                    hit = i + " ERROR " + q.stdout[-300:]
                    break
            done += 1
            stat[hit and hit[:3] or "SURVIVED"] = stat.get(hit and hit[:3] or "SURVIVED", 0) + 1
            out.write(json.dumps({"file": f, "line": n + 1, "old": old.strip(), "new": ls[n].strip(), "hit": hit, "s": round(time.time() - t0)}) + "\n")
            out.flush()
            print(done, stat, flush=True)
        finally:
            sh("git", "-C", D, "checkout", "-q", "--", ".")


main()
