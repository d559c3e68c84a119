import re
from .. import dix, gen, proc
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig
from .c05 import toks, words_of, compare

W = ["0.5", "1", "1", "2", "2.25", "3", "10", "0.125", "100.5", "0", "-1.5", "9999.5", "10000", "123456.75", "1e6", "2"]


class C(Check):
    id = "C07"
    variants = ("plain", "asan")
    quick_n = 22000
    thorough_n = 400000
    rule = ("random weighted, highly ambiguous dictionaries (weights on entries, in nested paradigms, repeated readings of "
            "different weight, negative and large weights) and texts made of their words, analysed with random -W, -N and -L; "
            "readings, their order, limits and printed weights compared with the weights computed from the XML; non-trivial: a "
            "token has at least 2 readings of different weight, or -N/-L removes a reading")
    technique = "model-based testing: minimal path weights from the dictionary's denotation"
    assumptions = ["which of several readings of equal weight -N keeps is not specified",
                   "w= is used on entries with exactly one non-empty pair or identity",
                   "weights are compared to six decimals, the precision in which they are printed"]

    def gen(self, r, size):
        k = gen.ana_knobs(r, weights=0.8, special=0, p_extra=r.choice([0, 0.05]), chars=r.choice(["a", "ab"]), blanks=0.1,
                          maxword=2, sections=2, entries=r.choice([6, 12, 25]), pardefs=3, joins=0.1, groups=0.05, freeform=0.1)
        k.tags = ["n", "v", "adj"]
        for _ in range(30):
            d = gen.dix(r, k, size)
            for e in dix.all_entries(d):
                if "?w" in e:
                    e["?w"] = r.choice(W)
            f = dix.firsts(d, "lr")
            if not any(x & {"", " "} for x in f.values()) and any(f.values()):
                break
        ws = words_of(dix.Model(d, "lr").directed())
        fl = []
        if r.random() < 0.6:
            fl.append("-W")
        if r.random() < 0.5:
            fl.append("-N%d" % r.randint(1, 6))
        if r.random() < 0.5:
            fl.append("-L%d" % r.randint(1, 4))
        r.shuffle(fl)
        return {"dix": d, "text": gen.text_items(r, ws, 3, chars=k.chars, case=0.1), "flags": fl, "asan": r.random() < 0.25}

    def valid(self, c):
        return dix.valid(c["dix"]) and gen.text_ok(c["text"]) and all(re.fullmatch("-W|-[NL][1-9]", f) for f in c["flags"])

    def run(self, c, env):
        d = c["dix"]
        try:
            secs = dix.Model(d, "lr").directed()
        except TooBig:
            raise Skip()
        if any(x & {"", " "} for x in dix.firsts(d, "lr").values()) or not any(secs.values()):
            raise Skip()
        b, _ = compile_dix(env, d, "lr")
        lex = proc.Lexicon(secs, d["alphabet"])
        exp = proc.analyse(lex, toks(c["text"]))
        out = env.ok("lt-proc", *(c["flags"] + [b]), inp=gen.text_str(c["text"]), variant="asan" if c.get("asan") else "plain").text
        n = next((int(f[2:]) for f in c["flags"] if f.startswith("-N")), None)
        l = next((int(f[2:]) for f in c["flags"] if f.startswith("-L")), None)
        compare(exp, out, n, l, "-W" in c["flags"])
        amb = any(t[0] == "lu" and t[2] and len(set(t[2].values())) > 1 for t in exp)
        cutl = any(t[0] == "lu" and t[2] and proc.cut(t[2], n, l)[2] < len(t[2]) for t in exp)
        return amb or cutl, [x for x, y in (("classes", amb), ("limited", cutl), ("N", n), ("L", l), ("printed", "-W" in c["flags"]),
                                             ("over_16_readings", any(t[0] == "lu" and t[2] and len(t[2]) > 16 for t in exp))) if y]


CHECK = C()
