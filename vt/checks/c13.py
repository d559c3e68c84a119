from .. import binfmt, dix, fst, gen
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig, relation

TAGS = ["n", "v", "pl", "m"]
CMP = ("<compound-only-L>", "<compound-R>")


def parts(o):
    """lexical form -> ([(lemma, tags)...], queue or None), or None when it is not of that shape"""
    ps, q, cur = [], None, [[], []]
    for s in o:
        if s in CMP:
            continue
        if q is not None:
            if len(s) > 1 or s in "+#":
                return None
            q.append(s)
        elif s == "#":
            q = []
        elif s == "+":
            ps.append(cur)
            cur = [[], []]
        elif len(s) > 1:
            cur[1].append(s)
        elif cur[1]:
            return None
        else:
            cur[0].append(s)
    ps.append(cur)
    if not all(p[0] for p in ps):
        return None
    return [(tuple(a), tuple(b)) for a, b in ps], None if q is None else tuple(q)


def source(s):
    """source side of a bilingual entry -> (lemma, queue or None, tags), or None"""
    l, q, t = [], None, []
    for x in s:
        if len(x) > 1:
            t.append(x)
        elif t:
            return None
        elif x == "#":
            if q is not None:
                return None
            q = []
        elif x == "+":
            return None
        else:
            (l if q is None else q).append(x)
    if not l:
        return None
    return tuple(l), None if q is None else tuple(q), tuple(t)


def keep(o, bi):
    ps, q = parts(o)
    for n, (l, t) in enumerate(ps):
        qq = q if n == 0 else None
        if not any(bl == l and bq == qq and t[:len(bt)] == bt for bl, bq, bt in bi):
            return False
    return True


class C(Check):
    id = "C13"
    quick_n = 50000
    thorough_n = 2000000
    rule = ("random weighted analysers (several sections, paradigms, joined and split lemmas, compound tags) and random bilingual "
            "dictionaries sharing lemmas and tag prefixes with them, with and without sections that have to match by name; what "
            "lt-trim writes compared, section by section and with weights, with the analyses all of whose parts have a bilingual entry; "
            "non-trivial: some but not all analyses are kept")
    technique = "property-based testing against a model of the relation"
    assumptions = ["lexical forms are of the shape lemma tags (+ lemma tags)* (# queue)?, bilingual sources of the shape lemma (# queue)? tags"]

    def gen(self, r, size):
        ch = r.choice(["ab", "ab", "abc"])
        tg = TAGS[:r.randint(2, 4)]
        lem = lambda: [r.choice(ch) for _ in range(r.randint(1, 2))]
        tags = lambda lo, hi: ["<%s>" % r.choice(tg) for _ in range(r.randint(lo, hi))]
        wt = r.choice([0, 0, 0.4])
        lemmas = [lem() for _ in range(r.randint(1, 3))]
        queues = [[["b"]] + lem() if r.random() < 0.7 else lem() for _ in range(2)]

        def part():
            used.append([list(r.choice(lemmas)), tags(0 if r.random() < 0.15 else 1, 2), None])
            return used[-1][0] + used[-1][1]

        def lexical():
            s = part()
            head = used[-1]
            while r.random() < 0.3:
                s += [["j"]] + part()
            if r.random() < 0.15:
                s.insert(r.randint(1, len(s)), r.choice(["<compound-R>", "<compound-only-L>"]))
            if r.random() < 0.3:
                head[2] = r.choice(queues)
                s += [["g", head[2]]]
            return s
        used = []

        def mono_entry():
            e = {"items": [["p", lem() + lem(), lexical()]]}
            if mp and r.random() < 0.4:
                p = r.choice(mp)
                if e["items"][0][2] and isinstance(e["items"][0][2][-1], list):
                    e["items"][0][2].pop()
                e["items"].append(["par", p[0]])
            if r.random() < wt:
                e["?w"] = str(r.choice([1, 2, 0.5]))
            return e

        def par_entry(mono):
            t = tags(0, 2)
            if mono and r.random() < 0.3:
                t += [["j"]] + part()
            if mono and r.random() < 0.2:
                t += [["g", r.choice(queues)]]
            e = {"items": [["p", lem()[:r.randint(0, 1)], t] if mono else ["p", t, tags(0, 1)]]}
            if r.random() < wt and t and (not mono or e["items"][0][1]):
                e["?w"] = str(r.choice([1, 2, 0.5]))
            return e
        mp = [["p%d" % n, [par_entry(True) for _ in range(r.randint(1, 3))]] for n in range(r.randint(0, 2))]
        bp = [["q%d" % n, [par_entry(False) for _ in range(r.randint(1, 3))]] for n in range(r.randint(0, 2))]

        def bi_entry():
            if used and r.random() < 0.75:
                u = r.choice(used)
                s = u[0] + ([["g", u[2]]] if u[2] else []) + u[1][:len(u[1]) if r.random() < 0.6 else r.randint(0, len(u[1]))]
            else:
                s = list(r.choice(lemmas) if r.random() < 0.9 else lem())
                if r.random() < 0.3:
                    s += [["g", r.choice(queues)]]
                s += tags(1 if r.random() < 0.9 else 0, 2)
            e = {"items": [["p", s, lem() + tags(0, 2)]]}
            if bp and r.random() < 0.4:
                e["items"].append(["par", r.choice(bp)[0]])
            if r.random() < wt:
                e["?w"] = str(r.choice([1, 2, 0.5]))
            return e
        names = [["main", "standard"], ["x", "standard"], ["y", "inconditional"]]

        def secs(mk, x):
            ns = r.sample(names, r.randint(1, 3)) if r.random() < 0.5 else [names[0]]
            return [[a, t, [mk() for _ in range(r.randint(1, 1 + int(size / 2)))]] for a, t in ns]
        ms, bs = secs(mono_entry, 0.5), secs(bi_entry, 1)
        msd = list(tg) + ["compound-R", "compound-only-L"]
        bsd = list(tg)
        r.shuffle(msd)
        r.shuffle(bsd)
        c = {"mono": {"alphabet": ch, "sdefs": msd, "pardefs": mp, "sections": ms},
             "bi": {"alphabet": ch, "sdefs": bsd, "pardefs": bp, "sections": bs}, "rl": r.random() < 0.3, "match": []}
        if c["rl"]:
            for es in [s[2] for s in bs] + [p[1] for p in bp]:
                for e in es:
                    e["items"] = [["p", i[2], i[1]] if i[0] == "p" else i for i in e["items"]]
        if r.random() < 0.3:
            c["match"] = ["@".join(n) for n in names if r.random() < 0.5]
        return c

    def valid(self, c):
        return dix.valid(c["mono"]) and dix.valid(c["bi"])

    def run(self, c, env):
        dirn = "rl" if c["rl"] else "lr"
        for d, x in ((c["mono"], "lr"), (c["bi"], dirn)):
            if any(f & {"", " "} for f in dix.firsts(d, x).values()):
                raise Skip()
        try:
            mono = {n: r for n, r in dix.Model(c["mono"], "lr").directed().items() if r}
            bi = {n: r for n, r in dix.Model(c["bi"], dirn).directed().items() if r}
        except TooBig:
            raise Skip()
        if not mono or not bi:
            raise Skip()
        src = {n: [source(i) for i, _ in r] for n, r in bi.items()}
        if any(x is None for l in src.values() for x in l) or any(parts(o) is None for r in mono.values() for _, o in r):
            raise Skip()
        m, _ = compile_dix(env, c["mono"], "lr")
        b, _ = compile_dix(env, c["bi"], dirn)
        exp = {}
        for n, r in mono.items():
            if n in c["match"] and n in src:
                e = src[n]
            else:
                e = [x for k, l in src.items() if k not in c["match"] for x in l]
            exp[n] = {k: w for k, w in r.items() if keep(k[1], e)}
        exp = {n: r for n, r in exp.items() if r}
        out = env.path(".bin")
        args = []
        for n in c["match"]:
            args += ["-s", n]
        if not exp:
            res = env.run("lt-trim", *(args + [m, b, out]))
            if res.rc == 0:
                with open(out, "rb") as fh:
                    f = binfmt.read(fh.read())
                raise Fail("nothing should be left, but lt-trim wrote %s" % {n: relation(f.fst(n)) for n in f.sections})
            if res.rc < 0:
                raise Fail("lt-trim was killed by signal %d" % -res.rc)
            return False, ["nothing"]
        env.ok("lt-trim", *(args + [m, b, out]))
        with open(out, "rb") as fh:
            f = binfmt.read(fh.read())
        try:
            got = {n: relation(f.fst(n)) for n in f.sections}
        except TooBig:
            raise Skip()
        if set(got) != set(exp):
            raise Fail("sections %s are left, expected %s" % (sorted(got), sorted(exp)))
        for n in exp:
            x = fst.diff(exp[n], got[n])
            if x:
                raise Fail("section %s after trimming:\n%s" % (n, x))
        if set(f.letters) != set(c["mono"]["alphabet"]):
            raise Fail("letters %s" % f.letters)
        labels = set()
        for r in exp.values():
            for _, o in r:
                labels |= {x for x, y in (("join", "+"), ("group", "#")) if y in o} | ({"both"} if "+" in o and "#" in o else set())
        if c["match"]:
            labels.add("match")
        return any(exp.get(n) != r for n, r in mono.items()), labels


CHECK = C()
