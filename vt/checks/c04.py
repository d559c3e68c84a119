import random
from .. import binfmt, fst, gen, proc, rfst, uni
from ..core import Check, Fail, Skip
from ..fst import Fst, TooBig, relation
from .c05 import toks, compare

MULTI = ["ab", "ch", "日本", "a😀", "b.", "@P@", "<>x"]


def is_tag(s):
    return len(s) > 1 and s[0] == "<" and s[-1] == ">"


def split_sym(s):
    return (s,) if s == "" or is_tag(s) else tuple(s)


def model(j, rl):
    """the transducer the ATT text denotes: multi-character symbols are their characters"""
    f = Fst()
    f.init = 0
    f.arcs[0] = []
    ph = [0]
    for s, d, i, o, w in j["arcs"]:
        if rl:
            i, o = o, i
        a, b = split_sym(i), split_sym(o)
        n = max(len(a), len(b))
        cur = s
        for k in range(n):
            if k == n - 1:
                nx = d
            else:
                ph[0] += 1
                nx = -ph[0]
            f.add(cur, nx, a[k] if k < len(a) else "", b[k] if k < len(b) else "", float(w) if k == n - 1 else 0.0)
            cur = nx
    f.finals = {s: float(w) for s, w in j["finals"]}
    return f


def att_text(case):
    out = []
    for fi, x in enumerate(case["fsts"]):
        j = x["fst"]
        r = random.Random(x["order"])
        num = list(range(j["n"]))
        if x["order"] % 3 == 1:
            r.shuffle(num)
        elif x["order"] % 3 == 2:
            num = sorted(r.sample(range(3 * j["n"] + 2), j["n"]))
        wt = x["order"] % 2 == 0

        def wstr(w):
            return r.choice(["%f" % w, repr(w), "%.3f" % w, "%.9f" % w] + (["%d" % w] if w == int(w) else []))

        def sym(s):
            if s == "":
                return r.choice(["@0@", "@_EPSILON_SYMBOL_@", ""] + ([] if case["hfst"] else ["ε"]))
            if s == " ":
                return r.choice(["@_SPACE_@", " "])
            return s
        first, rest = [], []
        for s, d, i, o, w in j["arcs"]:
            c = [str(num[s]), str(num[d]), sym(i), sym(o)]
            if w or wt or r.random() < 0.3:
                c.append(wstr(w))
            (first if s == 0 else rest).append("\t".join(c))
        for s, w in j["finals"]:
            rest.append("\t".join([str(num[s])] + ([wstr(w)] if w or wt or r.random() < 0.3 else [])))
        if not first:
            return None
        r.shuffle(first)
        head, rest = first[0], rest + first[1:]
        if x["order"] % 5:
            r.shuffle(rest)
        out.append("\n".join([head] + rest) + ("\n" if r.random() < 0.9 or fi + 1 < len(case["fsts"]) else ""))
    return r.choice(["--\n", "--------\n"]).join(out)


def letters_of(fs):
    l = set()
    for f in fs:
        for arcs in f.arcs.values():
            for i, o, _, _ in arcs:
                for s in (i, o):
                    if len(s) == 1 and not (uni.ispunct(s) or uni.isspace(s)):
                        l.add(s)
                        l.add(uni.toupper(s) if uni.islower(s) else uni.tolower(s) if uni.isupper(s) else s)
    return l


class C(Check):
    id = "C04"
    quick_n = 40000
    thorough_n = 300000
    rule = ("random weighted ATT descriptions (several transducers, arbitrary state numbers and line order, empty, multi-character, "
            "tag, space and punctuation symbols, parallel arcs, weights present or not) compiled in both directions with and "
            "without splitting; the file written is read by an independent reader and its relation compared, with weights, with "
            "the one the text denotes; part of the cases are also printed and used for analysis; non-trivial: at least 4 pairs")
    technique = "property-based testing against a relational model of the ATT text"
    assumptions = ["a state has one final line", "no cycle reads nothing", "cyclic transducers are compared up to input length 5"]

    def gen(self, r, size):
        k = {"weights": r.choice([0, 0.3, 0.7]), "eps": r.choice([0.05, 0.2, 0.4]), "punct": r.choice([0, 0.1, 0.4]),
             "cyclic": r.choice([0, 0, 0, 0.1]), "tagin": r.choice([0, 0.03]), "space": r.choice([0, 0.05])}
        fs = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            j = rfst.gen(r, r.randint(2, 3 + int(size)), k)
            for a in j["arcs"]:
                if r.random() < 0.05:
                    a[r.choice([2, 3])] = r.choice(MULTI)
                if r.random() < 0.02 and k["weights"]:
                    a[4] = r.choice([-1.5, 12345.678, 0.001])
            if r.random() < 0.85:           # mostly transducers that can be split: something is read first
                for a in j["arcs"]:
                    if a[0] == 0:
                        for q in (2, 3):
                            if a[q] == "" or is_tag(a[q]) or r.random() < 0.5 and a[q] == " ":
                                a[q] = r.choice("ab.")
                j["finals"] = [f for f in j["finals"] if f[0] != 0] or [[j["n"] - 1, 0]]
            fs.append({"fst": j, "order": r.randrange(1000)})
        return {"fsts": fs, "dir": r.choice(["lr", "lr", "rl"]), "hfst": r.random() < 0.5, "split": r.random() < 0.65,
                "print": r.random() < 0.3, "proc": r.random() < 0.4, "seed": r.randrange(10 ** 6)}

    def valid(self, c):
        return c["dir"] in ("lr", "rl") and c["fsts"] and all(
            x["fst"]["n"] >= 1 and all(0 <= a[0] < x["fst"]["n"] and 0 <= a[1] < x["fst"]["n"] for a in x["fst"]["arcs"])
            and all(0 <= s < x["fst"]["n"] for s, _ in x["fst"]["finals"])
            and len({s for s, _ in x["fst"]["finals"]}) == len(x["fst"]["finals"]) for x in c["fsts"])

    def run(self, c, env):
        rl = c["dir"] == "rl"
        fs = [model(x["fst"], rl) for x in c["fsts"]]
        text = att_text(c)
        if text is None:
            raise Skip()
        cyc = not all(rfst.acyclic(x["fst"]) for x in c["fsts"])
        k = 5 if cyc else None
        for x in c["fsts"]:
            j = {"n": x["fst"]["n"], "arcs": [[s, d, o if rl else i, i if rl else o, w] for s, d, i, o, w in x["fst"]["arcs"]], "finals": []}
            if rfst.empty_cycle(j, both=False):
                raise Skip()
            if cyc and any(a[4] < 0 for a in x["fst"]["arcs"]):
                raise Skip()
        try:
            rels = [relation(f, max_in=k) for f in fs]
        except TooBig:
            raise Skip()
        exp = fst.union(*rels)
        src, out = env.write(text, ".att"), env.path(".bin")
        fl = (["-H"] if c["hfst"] else []) + ([] if c["split"] else ["-S"])
        r = env.run("lt-comp", *(fl + [c["dir"], src, out]))

        def decided(s):
            return len(s) == 1 and not uni.isspace(s)
        if r.rc != 0:
            if c["split"] and (b"epsilon transition to a final state" in r.err or b"initial epsilon loop" in r.err):
                # only inputs without any letter or punctuation may be refused (looking at paths, not only successful ones)
                if any(not any(map(decided, i)) for i, _ in exp):
                    return False, ["refused"]
                if any(not rfst.acyclic({"n": x["fst"]["n"], "arcs": [
                        a for a in x["fst"]["arcs"] if not any(map(decided, split_sym(a[3 if rl else 2])))]}) for x in c["fsts"]):
                    return False, ["refused"]
            raise Fail("lt-comp %s: exit status %d\n%s\n%s" % (c["dir"], r.rc, r.err.decode("utf-8", "replace")[-500:], text))
        with open(out, "rb") as fh:
            data = fh.read()
        try:
            b = binfmt.read(data)
        except binfmt.Bad as e:
            raise Fail("the file written is malformed: %s\n%s" % (e, text))
        try:
            got = {n: relation(b.fst(n), max_in=k) for n in b.sections}
        except TooBig:
            raise Skip()
        x = fst.diff(exp, fst.union(*got.values()) if got else {})
        if x:
            raise Fail("the compiled file does not denote the ATT description:\n%s\n%s" % (x, text))
        if set(b.letters) != letters_of(fs):
            raise Fail("letters are %s, expected %s\n%s" % (sorted(b.letters), sorted(letters_of(fs)), text))
        labels = [c["dir"], "split" if c["split"] else "nosplit"]
        if not set(b.sections) <= ({"main@standard", "final@inconditional"} if c["split"] else {"main@standard"}):
            raise Fail("sections %s" % sorted(b.sections))
        if c["split"]:
            sharp = all(all(decided(i) for i, _, _, _ in f.arcs.get(0, ())) and
                        not any(d == 0 for l in f.arcs.values() for _, _, d, _ in l) for f in fs)
            if sharp:
                labels.append("sharp_split")
                want = {"main@standard": {}, "final@inconditional": {}}
                for (i, o), w in exp.items():
                    want["final@inconditional" if uni.ispunct(i[0]) else "main@standard"][(i, o)] = w
                for n in want:
                    x = fst.diff(want[n], got.get(n, {}))
                    if x:
                        raise Fail("section %s should hold the entries starting with %s:\n%s\n%s" % (
                            n, "punctuation" if n[0] == "f" else "letters", x, text))
        if c["print"]:
            labels.append("print")
            try:
                p = [relation(f, max_in=k) for f in fst.parse_att(env.ok("lt-print", "-H", out).text)]
            except TooBig:
                raise Skip()
            x = fst.diff(exp, fst.union(*p))
            if x:
                raise Fail("lt-print does not show the transducer that was compiled:\n%s\n%s" % (x, text))
        if c["proc"] and k is None and not any(not i or i[0] == " " for i, _ in exp) and exp:
            labels.append("proc")
            words = sorted({"".join(i) for i, _ in exp if all(len(s) == 1 for s in i)})
            if words and not self.invalid(b):
                rr = random.Random(c["seed"])
                items = gen.text_items(rr, words, 3, chars="ab")
                lex = proc.Lexicon(got, b.letters)
                o = env.ok("lt-proc", "-W", out, inp=gen.text_str(items)).text
                compare(proc.analyse(lex, toks(items)), o, weights=True)
        return len(exp) >= 4, labels

    def invalid(self, b):
        """lt-proc refuses transducers in which reading nothing or a blank leads to a dead end too"""
        for n in b.sections:
            f = b.fst(n)
            seen, todo = {f.init}, [f.init]
            while todo:
                s = todo.pop()
                if s in f.finals:
                    return True
                for i, o, d, w in f.arcs[s]:
                    if i == " ":
                        return True
                    if i == "" and d not in seen:
                        seen.add(d)
                        todo.append(d)
        return False


CHECK = C()
