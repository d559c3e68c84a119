from .. import binfmt, dix, fst, rfst
from ..core import Check, Fail, Skip
from ..fst import TooBig, relation
from .c15 import NAMES, put

T1 = ["<n>", "<sg>", "<ñ>"]
T2 = ["<n>", "<sg>", "<pl>", "<zz>"]


def rewrites(m, table, maxlen, cap):
    """all ways of replacing non-overlapping substrings of m by what the table maps them to"""
    res = [None] * (len(m) + 1)
    res[0] = {(): 0.0}
    for k in range(1, len(m) + 1):
        cur = {}
        for p, w in res[k - 1].items():
            dix.merge(cur, p + (m[k - 1],), w)
        for j in range(max(0, k - maxlen), k):
            for o, w2 in table.get(m[j:k], ()):
                for p, w in res[j].items():
                    dix.merge(cur, p + o, w + w2)
        if len(cur) > cap:
            raise TooBig()
        res[k] = cur
    return res[-1]


def compose(rf, rg, anywhere, cap=20000):
    table = {}
    for (a, b), w in rg.items():
        table.setdefault(a, []).append((b, w))
    maxlen = max(map(len, table), default=0)
    out, memo = {}, {}
    for (i, m), w in rf.items():
        if anywhere:
            if m not in memo:
                memo[m] = rewrites(m, table, maxlen, cap)
            for o, w2 in memo[m].items():
                dix.merge(out, (i, o), w + w2)
        else:
            for o, w2 in table.get(m, ()):
                dix.merge(out, (i, o), w + w2)
        if len(out) > cap:
            raise TooBig()
    return out


class C(Check):
    id = "C14"
    quick_n = 90000
    thorough_n = 3000000
    rule = ("random pairs of weighted transducers with differing symbol tables and several sections, the second generated from "
            "substrings of what the first writes; lt-compose (anchored or anywhere, on the output or the input side, with and without "
            "parallel jobs) compared, section by section and with weights, with the composition of the two relations, where for "
            "anywhere the second rewrites any non-overlapping substrings; non-trivial: the second transducer applies to some string "
            "of the first")
    technique = "property-based testing against relational algebra"
    assumptions = ["a cyclic first transducer is compared up to length 4 of the tape that is kept",
                   "the second transducer never accepts the empty string in anywhere mode; wildcards are left out"]

    def gen(self, r, size):
        k = {"weights": r.choice([0, 0.4]), "cyclic": r.choice([0, 0, 0, 0.08]), "tagin": 0.08, "tags": T1, "eps": r.choice([0.05, 0.2]),
             "letters": r.choice(["ab", "abcA"]), "extra": 0.04, "punct": 0.02}
        a = put(r, min(size, 6), k)
        inv = r.random() < 0.5
        # strings for the second to match
        pool = []
        for j in a.values():
            out = {}
            for s, d, i, o, w in j["arcs"]:
                out.setdefault(s, []).append((d, i if inv else o))
            for _ in range(6):
                s, t = r.randrange(j["n"]) if r.random() < 0.5 else 0, []
                full, steps = s == 0, 0
                while out.get(s) and len(t) < 6 and steps < 30 and (full or r.random() < 0.75):
                    s, x = r.choice(out[s])
                    steps += 1
                    if x:
                        t.append(x)
                pool.append(t)
        b = {}
        for _ in range(r.choice([1, 1, 2])):
            arcs, n, fin = [], 1, []
            for _ in range(r.randint(1, 4)):
                t = list(r.choice(pool))
                if r.random() < 0.3:
                    t = t + [rfst.sym(r, 0, dict(k, tags=T2))]
                o = [x if r.random() < 0.5 else rfst.sym(r, 1, dict(k, tags=T2)) for x in t] + [rfst.sym(r, 1, dict(k, tags=T2)) for _ in range(r.choice([0, 0, 1]))]
                s = 0
                for x in range(max(len(t), len(o))):
                    y, z = t[x] if x < len(t) else "", o[x] if x < len(o) else ""
                    if r.random() < 0.2:
                        arcs.append([s, n, "", z, 0]); s = n; n += 1; z = ""
                    arcs.append([s, n, y, z, r.choice(rfst.WTS) if r.random() < k["weights"] else 0]); s = n; n += 1
                fin.append([s, r.choice(rfst.WTS) if r.random() < k["weights"] else 0])
                if s > 1 and r.random() < 0.1 and arcs[-1][2]:
                    arcs.append([s, arcs[-1][0], arcs[-1][2], "c", 0])
            fin = list({s: [s, w] for s, w in fin}.values())
            b[r.choice(NAMES)] = {"n": n, "arcs": arcs, "finals": fin}
        return {"a": a, "b": b, "inv": inv, "any": r.random() < 0.5, "jobs": r.choice([0, 0, 1, 2])}

    def valid(self, c):
        return all(rfst.ok(j) and j["arcs"] and rfst.useful(j) for x in "ab" for j in c[x].values()) and bool(c["a"]) and bool(c["b"])

    def run(self, c, env):
        inv, anyw = c["inv"], c["any"]
        if any(rfst.empty_cycle(j) for x in "ab" for j in c[x].values()) or any(rfst.empty_cycle(j, False) for j in c["b"].values()) \
                or not all(j["arcs"] and rfst.useful(j) for x in "ab" for j in c[x].values()):
            raise Skip()
        flip = (lambda j: {"n": j["n"], "arcs": [[s, d, o, i, w] for s, d, i, o, w in j["arcs"]], "finals": j["finals"]}) if inv else (lambda j: j)
        fs = {n: flip(j) for n, j in c["a"].items()}        # the kept tape is the input
        cyc = not all(map(rfst.acyclic, fs.values()))
        if cyc and any(rfst.empty_cycle(j, False) for j in fs.values()):
            raise Skip()
        try:
            rf = {n: relation(rfst.to_fst(j), max_in=4 if cyc else None) for n, j in fs.items()}
            ml = max([len(m) for r in rf.values() for _, m in r], default=0)
            rg = fst.union(*[relation(rfst.to_fst(j), max_in=ml) for j in c["b"].values()])
            if anyw and any(a == () for a, _ in rg):
                raise Skip()
            exp = {n: compose(r, rg, anyw) for n, r in rf.items()}
        except TooBig:
            raise Skip()
        p = env.write(binfmt.write(binfmt.build("abc", {n: rfst.to_fst(j) for n, j in c["a"].items()})), ".bin")
        q = env.write(binfmt.write(binfmt.build("axy", {n: rfst.to_fst(j) for n, j in c["b"].items()})), ".bin")
        out = env.path(".bin")
        fl = (["-i"] if inv else []) + (["-a"] if anyw else []) + (["-j"] if c["jobs"] == 2 else [])
        r = env.run("lt-compose", *(fl + [p, q, out]), env={"LT_JOBS": "yes"} if c["jobs"] == 1 else None)
        exp = {n: x for n, x in exp.items() if x}
        if not exp and not cyc:
            if r.rc == 0:
                raise Fail("lt-compose %s: the composition is empty, but the exit status is 0" % fl)
            return False, ["empty"]
        if r.rc != 0:
            if cyc and not exp:
                raise Skip()
            raise Fail("lt-compose %s: exit status %d %s" % (fl, r.rc, r.err[-300:].decode("utf-8", "replace")))
        with open(out, "rb") as fh:
            data = fh.read()
        try:
            b = binfmt.read(data)
            got = {}
            for n in b.sections:
                f = b.fst(n)
                if inv:
                    f = rfst_flip(f)
                got[n] = relation(f, max_in=4 if cyc else None)
        except binfmt.Bad as e:
            raise Fail("malformed file: %s" % e)
        except TooBig:
            raise Skip()
        for n in sorted(set(exp) | set(got)):
            x = fst.diff(exp.get(n, {}), got.get(n, {}))
            if x:
                raise Fail("lt-compose %s, section %s (kept tape first):\n%s" % (" ".join(fl), n, x))
        if set(b.letters) != set("abc"):
            raise Fail("letters became %s" % (b.letters,))
        changed = any(exp.get(n, {}) != rf[n] for n in rf) if anyw else bool(exp)
        return changed, ["anywhere" if anyw else "anchored", "inverted" if inv else "output", "jobs%d" % c["jobs"]] + (["cyclic"] if cyc else [])


def rfst_flip(f):
    g = fst.Fst()
    g.init, g.finals = f.init, f.finals
    g.arcs = {s: [(o, i, d, w) for i, o, d, w in l] for s, l in f.arcs.items()}
    return g


CHECK = C()
