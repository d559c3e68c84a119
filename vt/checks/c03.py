import random, struct
from .. import binfmt, fst, gen, proc, rfst
from ..core import Check, Fail, Skip
from ..fst import Fst, TooBig, relation
from .c05 import toks, compare
from . import c04

NAMES = ["main@standard", "final@inconditional", "x@postblank", "y@preblank", "abc@standard", "ñ😀@inconditional", "regexp@standard"]
W = [0, 0, 1, 0.5, 2.25, -1.5, 1e6, 1e12, 1e-9, 0.1, 1 / 3, -7e-5, 4096, 1e-300, 3.0000001, 0.49999999]
BIG = [62, 63, 64, 65, 66, 255, 256, 257, 1000, 16382, 16383, 16384, 16385, 16400]


def chain(n, first, tags, w):
    f = Fst()
    f.init = 0
    for k in range(n - 1):
        a = "<t%d>" % k if tags and k else chr(first + k)
        f.add(k, k + 1, a, chr(first + k), w if k % 3 == 0 else 0.0)
    f.finals = {n - 1: w}
    return f


def walk(f):
    s, out, seen = f.init, [], 0
    while f.arcs.get(s):
        if len(f.arcs[s]) != 1:
            raise Fail("a state of a chain has %d arcs" % len(f.arcs[s]))
        a, b, d, w = f.arcs[s][0]
        out.append((a, b, round(w, 5)))
        s = d
        seen += 1
        if seen > 10 ** 6:
            raise Fail("a chain became a cycle")
    if s not in f.finals:
        raise Fail("a chain of %d arcs ends in a state that is not final" % len(out))
    return out, round(f.finals[s], 5)


class C(Check):
    id = "C03"
    quick_n = 30000
    thorough_n = 200000
    rule = ("random sets of weighted transducers written as binary files by an independent writer (current format with and "
            "without weights, the old format without headers, tables on both sides of every size class of the number encoding) "
            "and loaded by lt-print, lt-proc, lt-invert and lt-append; files those write are read back by an independent reader; "
            "printed transducers are compiled again; non-trivial: at least 3 pairs or a table of 64 or more elements")
    technique = "round trips and differential testing against an independent reader and writer of the binary format"
    assumptions = ["transducers without empty cycles, compared up to input length 5 when cyclic",
                   "weights are compared to the precision in which they are stored (30 bits) or printed (6 decimals)"]

    def gen(self, r, size):
        k = {"weights": r.choice([0, 0, 0.5]), "cyclic": r.choice([0, 0, 0.1]), "tagin": 0.05}
        secs = {}
        for _ in range(r.choice([1, 1, 2, 3])):
            j = rfst.gen(r, r.randint(2, 3 + int(size)), k)
            if k["weights"]:
                for a in j["arcs"]:
                    if r.random() < 0.4:
                        a[4] = r.choice(W)
                for a in j["finals"]:
                    if r.random() < 0.4:
                        a[1] = r.choice(W)
            secs[r.choice(NAMES)] = j
        big = []
        if r.random() < 0.06:
            big = [r.choice(BIG if r.random() < 0.3 else BIG[:9]), r.random() < 0.4, r.choice([0, 0, 1.5])]
        return {"letters": "".join(sorted(set(r.choice("abcñ日😀𝒜xyz") for _ in range(r.randint(0, 6))))), "sections": secs,
                "format": r.choice(["new", "new", "old", "weights"]), "longtag": r.random() < 0.1, "big": big, "num": r.randrange(3),
                "seed": r.randrange(10 ** 6), "what": r.choice(["print", "print", "rewrite", "append", "recompile", "proc", "proc", "features"])}

    def valid(self, c):
        return c["sections"] and all(rfst.ok(j) for j in c["sections"].values()) and len(c["big"]) in (0, 3) and \
            len(set(c["letters"])) == len(c["letters"]) and (not c["big"] or c["big"][0] >= 2)

    def run(self, c, env):
        rr = random.Random(c["seed"])
        secs = {}
        for n, j in c["sections"].items():
            if rfst.empty_cycle(j, both=False) or (not rfst.acyclic(j) and (any(a[4] < 0 for a in j["arcs"]))):
                raise Skip()
            num = list(range(j["n"]))
            if c["num"] == 1 and c["what"] != "recompile":
                rr.shuffle(num)
            f = rfst.to_fst(j, lambda s: num[s])
            if c["longtag"]:
                for l in f.arcs.values():
                    l[:] = [("<%s>" % ("x" * 70) if a == "<n>" else a, "<%s>" % ("x" * 70) if b == "<n>" else b, d, w) for a, b, d, w in l]
            if c["format"] == "old":
                f.finals = {s: 0.0 for s in f.finals}
                for l in f.arcs.values():
                    l[:] = [(a, b, d, 0.0) for a, b, d, _ in l]
            secs[n] = f
        k = None if all(rfst.acyclic(j) for j in c["sections"].values()) else 5
        if c["big"]:
            secs["big@standard"] = chain(c["big"][0], rr.choice([0x100, 0x4e00, 0x20000]), c["big"][1], c["big"][2] if c["format"] != "old" else 0.0)
        data = binfmt.write(binfmt.build(c["letters"], secs), c["format"] != "old",
                            {n: True for n in secs} if c["format"] == "weights" else None)
        p = env.write(data, ".bin")
        try:
            exp = {n: relation(f, max_in=k) for n, f in secs.items() if n != "big@standard"}
        except TooBig:
            raise Skip()
        names = sorted(secs)
        labels = [c["what"], c["format"]] + (["big"] if c["big"] else [])
        tags = {s for f in secs.values() for l in f.arcs.values() for a, b, _, _ in l for s in (a, b) if len(s) > 1}

        def check(got, how):
            for n in names:
                if n not in got:
                    raise Fail("section %s is lost by %s" % (n, how))
                if n == "big@standard":
                    if walk(got[n]) != walk(secs[n]):
                        raise Fail("a chain of %d states is altered by %s" % (c["big"][0], how))
                    continue
                x = fst.diff(exp[n], relation(got[n], max_in=k))
                if x:
                    raise Fail("section %s after %s:\n%s" % (n, how, x))
            if len(got) != len(names):
                raise Fail("%d sections after %s instead of %d" % (len(got), how, len(names)))

        def load(path, how):
            with open(path, "rb") as fh:
                b = fh.read()
            try:
                b = binfmt.read(b)
            except binfmt.Bad as e:
                raise Fail("the file written by %s is malformed: %s" % (how, e))
            check({n: b.fst(n) for n in b.sections}, how)
            return b
        try:
            if c["what"] == "print":
                t = env.ok("lt-print", "-H", p).text
                fs = fst.parse_att(t) if t else [Fst()]
                if len(fs) == len(names):
                    check(dict(zip(names, self.fix_init(fs, secs, names))), "lt-print")
                else:
                    raise Fail("lt-print shows %d transducers of %d" % (len(fs), len(names)))
                a = [x for x in env.ok("lt-print", "-a", p).text.split("\n") if x]
                if sorted(a) != sorted(list(c["letters"]) + list(tags)):
                    raise Fail("lt-print -a lists %r, expected %r" % (a, sorted(list(c["letters"]) + list(tags))))
            elif c["what"] == "rewrite":
                q, q2 = env.path(".bin"), env.path(".bin")
                env.ok("lt-invert", p, q)
                env.ok("lt-invert", q, q2)
                b = load(q2, "lt-invert twice")
                if sorted(b.letters) != sorted(c["letters"]):
                    raise Fail("letters %r became %r" % (c["letters"], b.letters))
            elif c["what"] == "append":
                e = Fst()
                e.init = 0
                e.add(0, 1, "q", "<zzz>", 0.0)
                e.finals = {1: 0.0}
                other = env.write(binfmt.write(binfmt.build("q😀", {"zz@standard": e})), ".bin")
                q = env.path(".bin")
                order = [p, other] if c["seed"] % 2 else [other, p]
                env.ok("lt-append", *(order + [q]))
                names.append("zz@standard")
                exp["zz@standard"] = relation(e)
                b = load(q, "lt-append")
                if sorted(b.letters) != sorted(set(c["letters"]) | set("q😀")):
                    raise Fail("letters %r plus 'q😀' became %r" % (c["letters"], b.letters))
            elif c["what"] == "recompile":
                if any(not f.arcs.get(0) for f in secs.values()) or c["big"]:
                    raise Skip()
                h = c["seed"] % 2 == 0
                t = env.ok("lt-print", *((["-H"] if h else []) + [p])).text
                q = env.path(".bin")
                a = env.write(t, ".att")
                env.ok("lt-comp", *((["-H"] if h else []) + ["-S", "lr", a, q]))
                with open(q, "rb") as fh:
                    b = binfmt.read(fh.read())
                got = fst.union(*[relation(b.fst(n), max_in=k) for n in b.sections]) if b.sections else {}
                x = fst.diff(fst.union(*exp.values()), got)
                if x:
                    raise Fail("lt-print followed by lt-comp:\n%s\n%s" % (x, t))
            elif c["what"] == "features":
                b = bytearray(data)
                if c["format"] == "old":
                    raise Skip()
                bit = rr.randrange(1, 63)
                at = 4 if c["seed"] % 2 else data.index(b"LTTD") + 4
                old = struct.unpack(">Q", bytes(b[at:at + 8]))[0]
                b[at:at + 8] = struct.pack(">Q", old | 1 << bit)
                q = env.write(bytes(b), ".bin")
                for tool in ("lt-print", "lt-proc", "lt-invert"):
                    if env.run(tool, q).rc == 0:
                        raise Fail("%s accepts a file that says it needs feature %d, which does not exist" % (tool, bit))
            elif c["what"] == "proc":
                f = binfmt.build(c["letters"], {n: secs[n] for n in secs if n != "big@standard"})
                if k is not None or c04.CHECK.invalid(f):
                    raise Skip()
                words = sorted({"".join(i) for rel in exp.values() for i, _ in rel if all(len(s) == 1 for s in i)})
                if not words or any(abs(w) > 1e5 for rel in exp.values() for w in rel.values()):
                    raise Skip()
                items = gen.text_items(rr, words, 3, chars="ab")
                o = env.ok("lt-proc", "-W", p, inp=gen.text_str(items)).text
                if c["big"] and any(x[0] == walk(secs["big@standard"])[0][0][0] for w in words for x in w):
                    raise Skip()
                compare(proc.analyse(proc.Lexicon(exp, c["letters"]), toks(items)), o, weights=True)
        except TooBig:
            raise Skip()
        return sum(map(len, exp.values())) >= 3 or bool(c["big"]), labels

    def fix_init(self, fs, secs, names):
        """the text does not name the initial state; the numbers are those of the file"""
        for f, n in zip(fs, names):
            st = sorted(set(secs[n].arcs) | set(secs[n].finals) | {secs[n].init} | {d for l in secs[n].arcs.values() for _, _, d, _ in l})
            f.init = st.index(secs[n].init)
        return fs


CHECK = C()
