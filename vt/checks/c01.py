from .. import binfmt, dix, fst, gen
from ..common import compile_dix, section_relations
from ..core import Check, Fail, Skip
from ..fst import TooBig

KB = 7   # bound on the input length when a regular expression makes the relation infinite


def knobs(r):
    y = r.random()
    k = gen.Knobs(special=r.choice([0, 0, 0.1]), weights=r.choice([0, 0, 0.5]), regex=r.choice([0, 0.15, 0.5]),
                  wake=r.choice([0, 0.1]), bound=r.choice([0, 0.2]), p_extra=r.choice([0, 0.1, 0.3]),
                  restrict=r.choice([0, 0.15, 0.4]), variants=r.choice([0, 0.1, 0.4]))
    if y < 0.3:
        k.chars = "ab"
    return k


class C(Check):
    id = "C01"
    quick_n = 26000
    thorough_n = 400000
    rule = ("random dictionaries (nested, shared and empty paradigms, identities, pairs, groups, joins, blanks, "
            "regular expressions, direction/alt/variant/ignore marks, weights, several sections, non-BMP and special "
            "characters) compiled in a random direction and compared section by section with the denotation computed "
            "from the XML; non-trivial: the relation has at least 3 pairs and uses a paradigm or regular expression or mark")
    technique = "property-based testing against a denotational model of dictionaries"
    assumptions = ["entries carrying a weight have exactly one non-empty pair or identity",
                   "relations of dictionaries with unbounded regular expressions are compared up to input length %d" % KB]

    def gen(self, r, size):
        d = gen.dix(r, knobs(r), size)
        if d["alphabet"] and r.random() < 0.1:
            d["alphabet"] = " " * r.choice([1, 3, 12]) + d["alphabet"] + r.choice(["", " "])
        o = gen.opts(r)
        if r.random() < 0.3:
            o["m"] = 1
        return {"dix": d, "dir": r.choice(["lr", "rl"]), "opts": o}

    def valid(self, c):
        return dix.valid(c["dix"]) and c["dir"] in ("lr", "rl")

    def run(self, c, env):
        d, direction, o = c["dix"], c["dir"], c["opts"]
        k = KB if dix.is_cyclic(d) else None
        try:
            m = dix.Model(d, direction, o, k if k is not None else 10 ** 6)
            exp = m.directed()
        except TooBig:
            raise Skip()
        bad = any(f & {"", " "} for f in dix.firsts(d, direction, o).values())
        if bad:
            src = env.write(dix.to_xml(d), ".dix")
            r = env.run("lt-comp", *(gen.comp_flags(o, direction) + [direction, src, env.path(".bin")]))
            if r.rc == 0:
                raise Fail("lt-comp accepts an entry whose input side is empty or starts with a blank")
            if r.rc != 1 or b"Invalid dictionary" not in r.err:
                raise Fail("lt-comp does not reject an invalid dictionary properly: exit %d, %r" % (r.rc, r.err[-300:]))
            return False, ["rejected"]
        b, names = compile_dix(env, d, direction, o)
        live = {n: rel for n, rel in exp.items() if rel}
        if set(live) - set(names):
            raise Fail("section(s) %s with entries are missing from the compiled dictionary" % sorted(set(live) - set(names)))
        if not names:
            return False, ["empty"]
        if set(names) != set(live):
            # a section all of whose entries are masked may or may not be written
            if len(names) > len(exp):
                raise Fail("unexpected sections %s" % names)
            raise Skip()
        with open(b, "rb") as fh:
            letters = binfmt.read(fh.read()).letters
        if sorted(set(letters)) != sorted(set(d["alphabet"] if d["alphabet"].strip() else "")):
            raise Fail("the letters are %r, expected %r" % (letters, d["alphabet"]))
        try:
            got = section_relations(env, b, names, k)
        except TooBig:
            raise Skip()
        for n in names:
            x = fst.diff(exp[n], got[n])
            if x:
                raise Fail("section %s compiled %s does not denote the dictionary's entries:\n%s" % (n, direction, x))
        pairs = sum(map(len, exp.values()))
        labels = [direction]
        feats = {it[0] for e in dix.all_entries(d) for it in e["items"]}
        labels += sorted("uses_" + f for f in feats)
        if k is not None:
            labels.append("cyclic")
        if any("?w" in e for e in dix.all_entries(d)):
            labels.append("weighted")
        marks = any(x in e for e in dix.all_entries(d) for x in ("?r", "?alt", "?v", "?vl", "?vr", "?i"))
        if marks:
            labels.append("marks")
        return pairs >= 3 and (bool(feats & {"par", "re"}) or marks), labels


CHECK = C()
