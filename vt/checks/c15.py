import random
from .. import binfmt, dix, fst, gen, rfst
from ..core import Check, Fail, Skip
from ..fst import TooBig, relation
from xml.sax.saxutils import quoteattr

NAMES = ["main@standard", "final@inconditional", "x@postblank", "ñ@standard"]
CH = "abcABñ日é😀.x"


def put(r, size, k):
    return {r.choice(NAMES): rfst.gen(r, r.randint(2, 3 + int(size)), k) for _ in range(r.choice([1, 1, 2, 3]))}


def acx_xml(acx):
    return '<?xml version="1.0" encoding="UTF-8"?>\n<analysis-chars>\n' + "".join(
        "<char value=%s>%s</char>\n" % (quoteattr(a), "".join("<equiv-char value=%s/>" % quoteattr(b) for b in l)) for a, l in acx) + \
        "</analysis-chars>\n"


def acx_rel(rel, acx, cap=30000):
    m = {}
    for a, l in acx:
        if l:
            m.setdefault(a, l)
    out = {}
    for (i, o), w in rel.items():
        cur = [()]
        for s in i:
            alts = [s] + [x for x in m.get(s, []) if x != s]
            cur = [p + (x,) for p in cur for x in alts]
            if len(cur) > cap:
                raise TooBig()
        for p in cur:
            dix.merge(out, (p, o), w)
        if len(out) > cap:
            raise TooBig()
    return out


class C(Check):
    id = "C15"
    quick_n = 24000
    thorough_n = 300000
    rule = ("random sets of weighted transducers with different tag tables; lt-invert must swap the sides of every pair, lt-append "
            "must give the sections of both files (second file, or first with -k, winning where names clash) whatever the numbering "
            "of their symbols, lt-apply-acx and lt-comp with an acx file must add exactly the readings of inputs in which "
            "characters are replaced by equivalents; results read by an independent reader; non-trivial: at least 4 pairs and, for "
            "acx, at least one pair added")
    technique = "property-based testing against relational algebra"
    assumptions = ["cyclic transducers are compared up to input and output length 4"]

    def gen(self, r, size):
        k = {"weights": r.choice([0, 0.4]), "cyclic": r.choice([0, 0, 0.1]), "tagin": 0.08}
        what = r.choice(["invert", "append", "append", "acx", "acxcomp"])
        c = {"what": what, "a": put(r, size, k), "letters": ["".join(sorted(set(r.choice(CH) for _ in range(4)))) for _ in range(2)]}
        if what == "append":
            k2 = dict(k, tags=r.sample(rfst.TAGS + ["<zz>", "<q>"], 4))
            c["b"] = put(r, size, k2)
            c["keep"] = r.random() < 0.4
        if what.startswith("acx"):
            c["acx"] = [[r.choice(CH), [r.choice(CH) for _ in range(r.randint(0 if r.random() < 0.2 else 1, 2))]] for _ in range(r.randint(1, 3))]
        if what == "acxcomp":
            kn = gen.ana_knobs(r, weights=r.choice([0, 0.5]))
            c["a"] = {}
            for _ in range(20):
                c["dix"] = gen.dix(r, kn, min(size, 4))
                if not any(f & {"", " "} for f in dix.firsts(c["dix"], "lr").values()):
                    break
        return c

    def valid(self, c):
        return all(rfst.ok(j) for x in ("a", "b") for j in c.get(x, {}).values()) and len(c["letters"]) == 2 and \
            all(len(set(l)) == len(l) for l in c["letters"]) and \
            all(len(a) == 1 and all(len(x) == 1 for x in l) for a, l in c.get("acx", [])) and ("dix" not in c or dix.valid(c["dix"])) and \
            (c["a"] or c["what"] == "acxcomp") and c["what"] in ("invert", "append", "acx", "acxcomp")

    def run(self, c, env):
        js = list(c["a"].values()) + list(c.get("b", {}).values())
        if any(rfst.empty_cycle(j) for j in js):
            raise Skip()
        cyc = not all(map(rfst.acyclic, js))
        kw = {"max_in": 4, "max_out": 4} if cyc else {}
        rels = lambda secs: {n: relation(rfst.to_fst(j), **kw) for n, j in secs.items()}
        try:
            ra, rb = rels(c["a"]), rels(c.get("b", {}))
            la, lb = c["letters"]
            wr = lambda l, secs: env.write(binfmt.write(binfmt.build(l, {n: rfst.to_fst(j) for n, j in secs.items()})), ".bin")
            out = env.path(".bin")
            nt = True
            if c["what"] == "invert":
                env.ok("lt-invert", wr(la, c["a"]), out)
                exp, letters = {n: fst.invert(r) for n, r in ra.items()}, set(la)
            elif c["what"] == "append":
                p, q = wr(la, c["a"]), wr(lb, c["b"])
                env.ok("lt-append", *((["-k"] if c["keep"] else []) + [p, q, out]))
                exp = dict(rb, **ra) if c["keep"] else dict(ra, **rb)
                letters = set(la) | set(lb)
            elif c["what"] == "acx":
                if cyc and any(x == "" for _, l in c["acx"] for x in l):
                    raise Skip()
                env.ok("lt-apply-acx", wr(la, c["a"]), env.write(acx_xml(c["acx"]), ".acx"), out)
                exp, letters = {n: acx_rel(r, c["acx"]) for n, r in ra.items()}, set(la)
                nt = any(len(exp[n]) > len(ra[n]) for n in ra)
            else:
                d = c["dix"]
                if any(f & {"", " "} for f in dix.firsts(d, "lr").values()):
                    raise Skip()
                base = dix.Model(d, "lr").directed()
                exp, letters = {n: acx_rel(r, c["acx"]) for n, r in base.items() if r}, set(d["alphabet"])
                if any(" " in l for _, l in c["acx"]):
                    raise Skip()
                nt = any(len(exp[n]) > len(base[n]) for n in exp)
                env.ok("lt-comp", "lr", env.write(dix.to_xml(d), ".dix"), out, env.write(acx_xml(c["acx"]), ".acx"))
            with open(out, "rb") as fh:
                data = fh.read()
            try:
                b = binfmt.read(data)
            except binfmt.Bad as e:
                raise Fail("the file written is malformed: %s" % e)
            got = {n: relation(b.fst(n), **kw) for n in b.sections}
        except TooBig:
            raise Skip()
        if c["what"] == "acxcomp":
            got = {n: r for n, r in got.items() if r or n in exp}
        if set(got) != set(exp):
            raise Fail("%s: sections %s, expected %s" % (c["what"], sorted(got), sorted(exp)))
        for n in exp:
            x = fst.diff(exp[n], got[n])
            if x:
                raise Fail("%s, section %s:\n%s" % (c["what"], n, x))
        if set(b.letters) != letters or len(b.letters) != len(letters):
            raise Fail("%s: letters %s, expected %s" % (c["what"], b.letters, sorted(letters)))
        return nt and sum(map(len, exp.values())) >= 4, [c["what"]] + (["clash"] if set(c["a"]) & set(c.get("b", {})) else [])


CHECK = C()
