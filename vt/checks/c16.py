from .. import binfmt, dix, fst, gen
from ..core import Check, Fail, Skip
from ..fst import TooBig, relation
from .c01 import knobs, KB


class C(Check):
    id = "C16"
    quick_n = 24000
    thorough_n = 250000
    rule = ("random dictionaries with direction, alt and variant marks (single and multiple values, on entries and inside nested "
            "paradigms) compiled once for all selections and then restricted to a random direction and selection, with and "
            "without minimising; compared, section by section and with weights, with the denotation of the dictionary under that "
            "selection; non-trivial: a mark removed at least one pair and at least one remains")
    technique = "property-based testing against a denotational model, differential to direct compilation"
    assumptions = ["relations of dictionaries with unbounded regular expressions are compared up to input length %d" % KB]

    def gen(self, r, size):
        k = knobs(r)
        k.restrict = r.choice([0.15, 0.4])
        k.variants = r.choice([0.1, 0.4, 0.7])
        d = gen.dix(r, k, size)
        o = gen.opts(r)
        for key in o:
            if r.random() < 0.3:
                o[key] = " ".join(sorted({o[key]} | {r.choice(["x", "y", "z"]) for _ in range(2)}))
        return {"dix": d, "dir": r.choice(["lr", "rl"]), "opts": o, "min": r.random() < 0.4, "env": r.random() < 0.1}

    def valid(self, c):
        return dix.valid(c["dix"]) and c["dir"] in ("lr", "rl")

    def run(self, c, env):
        d, direction, o = c["dix"], c["dir"], c["opts"]
        k = KB if dix.is_cyclic(d) else None
        try:
            exp = dix.Model(d, direction, o, k if k is not None else 10 ** 6).directed()
            full = dix.Model(d, direction, o, k if k is not None else 10 ** 6, keep=lambda e, *_: e.get("?i") != "yes").directed()
        except TooBig:
            raise Skip()
        src, u, out = env.write(dix.to_xml(d), ".dix"), env.path(".bin"), env.path(".bin")
        r = env.run("lt-comp", "u", src, u)
        if r.rc != 0:
            if b"Invalid dictionary" in r.err and any(
                    f & {"", " "} for x in ("lr", "rl") for f in dix.firsts(d, x, o, keep=lambda e, *_: e.get("?i") != "yes").values()):
                raise Skip()
            raise Fail("lt-comp u: exit status %d %s" % (r.rc, r.err[-300:].decode()))
        fl = gen.comp_flags(o, direction)
        if c["min"] and not c["env"]:
            fl.append("-m")
        env.ok("lt-restrict", *(fl + [direction, u, out]), env={"LT_RELEASE": "yes"} if c["env"] and c["min"] else None)
        with open(out, "rb") as fh:
            data = fh.read()
        try:
            b = binfmt.read(data)
            got = {n: relation(b.fst(n, ctrl=False), max_in=k) for n in b.sections}
        except binfmt.Bad as e:
            raise Fail("malformed file: %s" % e)
        except TooBig:
            raise Skip()
        for n in sorted(set(exp) | set(got)):
            x = fst.diff(exp.get(n, {}), got.get(n, {}))
            if x:
                raise Fail("section %s restricted to %s with %s:\n%s" % (n, direction, " ".join(fl), x))
        left = sum(map(len, exp.values()))
        removed = sum(map(len, full.values())) - left
        if sorted(b.letters) != sorted(set(d["alphabet"])):
            raise Fail("letters %r became %r" % (d["alphabet"], b.letters))
        return left > 0 and removed > 0, [direction] + (["minimised"] if c["min"] else []) + sorted(o)


CHECK = C()
