from .. import dix, fst, gen
from ..common import compile_dix, print_fsts
from ..core import Check, Fail, Skip
from ..fst import TooBig
from .c01 import KB


def joined(env, b, names, k):
    """the relations of the sections, those split off joined with the one they come from"""
    fs = print_fsts(env, b)
    names = sorted(names)
    if len(fs) != len(names):
        raise Fail("lt-print shows %d sections, the compiler reported %d (%s)" % (len(fs), len(names), ", ".join(names)))
    r = {}
    for n, f in zip(names, fs):
        n = n.lstrip("+")
        x = fst.relation(f, max_in=k)
        r[n] = fst.union(r[n], x) if n in r else x
    return r


def units(text):
    """the output of an analyser with the readings of every unit sorted"""
    out, i = [""], 0
    unit = None
    while i < len(text):
        c = text[i:i + 2] if text[i] == "\\" else text[i]
        i += len(c)
        if c == "^" and unit is None:
            unit = [""]
        elif c == "$" and unit is not None:
            out += [[unit[0], sorted(unit[1:])], ""]
            unit = None
        elif c == "/" and unit is not None:
            unit.append("")
        elif unit is not None:
            unit[-1] += c
        else:
            out[-1] += c
    return out, unit


class C(Check):
    id = "C08"
    variants = ("plain", "tsan")
    quick_n = 9000
    thorough_n = 200000
    rule = ("random dictionaries compiled with a random combination of parallel minimisation (-j, LT_JOBS) and section splitting "
            "(LT_MAX_SECTION_ENTRIES), twice, partly under ThreadSanitizer; the split sections taken together are compared with the "
            "denotation of the dictionary, the two files byte by byte, the analysis of random text with that of the plain "
            "compilation, parallel with sequential composition, and invalid dictionaries have to be refused as ever; non-trivial: some section is split or there are several sections")
    technique = "property-based testing against a denotational model and differential testing of schedules (ThreadSanitizer for races)"
    assumptions = ["words of the analysed text hold no reserved characters",
                   "relations of dictionaries with unbounded regular expressions are compared up to input length %d" % KB]

    def gen(self, r, size):
        k = gen.ana_knobs(r, weights=r.choice([0, 0, 0.5]))
        k.regex = r.choice([0, 0, 0.15])
        if r.random() < 0.3:
            k.chars = "ab"
        for _ in range(30):
            d = gen.dix(r, k, 1 + size)
            while r.random() < 0.6 and len(d["sections"]) < 4:
                x = gen.dix(r, k, 2)
                if x["sdefs"] == d["sdefs"] and not x["pardefs"]:
                    d["sections"] += [["s%d%s" % (len(d["sections"]), n), t, e] for n, t, e in x["sections"]]
                else:
                    n, t, e = r.choice(d["sections"])
                    d["sections"].append(["s%d" % len(d["sections"]), r.choice(k.types), e[:2]])
            try:
                rel = dix.Model(d, "lr", {}, KB if dix.is_cyclic(d) else 10 ** 6).directed()
            except TooBig:
                continue
            bad = any(f & {"", " "} for f in dix.firsts(d, "lr").values())
            if r.random() < 0.05 or not bad and any(rel.values()):
                break
        ins = sorted({i for x in rel.values() for (i, _) in x}) or [("a",)]
        words = []
        for _ in range(r.randint(0, 6)):
            w = "".join(s for s in r.choice(ins) if len(s) == 1)
            words.append(gen.recase(r, w) if r.random() < 0.3 else w)
            words.append(r.choice([" ", " ", "", ", ", "b"]))
        y = r.random()
        return {"dix": d, "dir": r.choice(["lr", "lr", "rl"]), "max": r.choice([0, 1, 1, 2, 3, 4]), "j": r.choice(["", "j", "env", "no"]),
                "text": "".join(words), "mode": "tsan" if y < 0.1 else "compose" if y < 0.3 else "twice" if y < 0.6 else ""}

    def valid(self, c):
        return dix.valid(c["dix"]) and c["dir"] in ("lr", "rl") and c["j"] in ("", "j", "env", "no") and isinstance(c["max"], int) and c["max"] >= 0

    def run(self, c, env):
        d, direction, mode = c["dix"], c["dir"], c["mode"]
        k = KB if dix.is_cyclic(d) else None
        try:
            exp = {n: x for n, x in dix.Model(d, direction, {}, k if k is not None else 10 ** 6).directed().items() if x}
        except TooBig:
            raise Skip()
        if not exp:
            raise Skip()
        ev = {}
        if c["max"]:
            ev["LT_MAX_SECTION_ENTRIES"] = str(c["max"])
        if c["j"] in ("env", "no"):
            ev["LT_JOBS"] = {"env": "yes", "no": "no"}[c["j"]]
        fl = ["-j"] if c["j"] == "j" else []
        if any(f & {"", " "} for f in dix.firsts(d, direction).values()):
            src = env.write(dix.to_xml(d), ".dix")
            r = env.run("lt-comp", *(fl + [direction, src, env.path(".bin")]), env=ev)
            if r.rc != 1 or b"Invalid dictionary" not in r.err:
                raise Fail("with %s %s, lt-comp does not refuse a dictionary with an entry whose input side is empty or starts with a "
                           "blank: exit status %d" % (fl, ev, r.rc))
            return False, ["refused"]
        b, names = compile_dix(env, d, direction, env_vars=ev, flags=fl)
        with open(b, "rb") as fh:
            data = fh.read()
        try:
            got = joined(env, b, names, k)
        except TooBig:
            raise Skip()
        for n in set(got) | set(exp):
            x = fst.diff(exp.get(n, {}), got.get(n, {}))
            if x:
                raise Fail("compiled with %s %s, the parts of section %s (%s) do not denote its entries:\n%s" % (fl, ev, n, names, x))
        labels = {"max%d" % c["max"], "jobs-" + (c["j"] or "none"), mode or "once"}
        if mode in ("twice", "tsan"):
            src = env.write(dix.to_xml(d), ".dix")
            b2 = env.path(".bin")
            env.ok("lt-comp", *(fl + [direction, src, b2]), env=ev, variant="tsan" if mode == "tsan" else "plain")
            with open(b2, "rb") as fh:
                if fh.read() != data:
                    raise Fail("compiling the same dictionary twice with %s %s gives different files" % (fl, ev))
        p, pn = compile_dix(env, d, direction)
        if mode in ("compose", "tsan"):
            try:
                rels = []
                for f in ([], ["-j"]):
                    o = env.path(".bin")
                    r = env.run("lt-compose", *(f + [b, p, o]), variant="tsan" if f and mode == "tsan" else "plain")
                    if r.rc not in (0, 1):
                        raise Fail("lt-compose %s: exit status %d\n%s" % (" ".join(f), r.rc, r.err[-1500:].decode("utf-8", "replace")))
                    if r.rc == 1:
                        rels.append(None)
                        continue
                    with open(o, "rb") as fh:
                        from .. import binfmt
                        x = binfmt.read(fh.read())
                    rels.append({n: fst.relation(x.fst(n), max_in=4, max_out=8) for n in x.sections})
            except TooBig:
                raise Skip()
            if (rels[0] is None) != (rels[1] is None):
                raise Fail("lt-compose fails only with or only without -j")
            if rels[0] is not None:
                labels.add("composed")
                for n in set(rels[0]) | set(rels[1]):
                    x = fst.diff(rels[0].get(n, {}), rels[1].get(n, {}))
                    if x:
                        raise Fail("lt-compose -j gives another relation in section %s:\n%s" % (n, x))
        if direction == "lr" and c["text"] and not set(c["text"]) & set("[]{}^$/\\@<>~"):
            args = ["-a", "-W"]
            o1, o2 = (env.ok("lt-proc", *(args + [x]), inp=c["text"]).text for x in (p, b))
            if units(o1) != units(o2):
                raise Fail("analysing %r with the split dictionary (%s)\nexpected %r\ngot      %r" % (c["text"], names, o1, o2))
            labels.add("analysed")
        split = len(names) > len({n.lstrip("+") for n in names})
        if split:
            labels.add("split")
        return split or len(exp) > 1, labels


CHECK = C()
