from .. import binfmt, dix, gen, proc, streams, uni
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig
from .c09 import limit, match, shown

ANY = "<ANY_CHAR>"
MODES = {"": [], "g": ["-g"], "d": ["-d"], "n": ["-n"], "l": ["-l"], "m": ["-m"], "C": ["-C"]}


class Arcs:
    """lookup on the arcs of the compiled transducers, for dictionaries with wildcards: a wildcard reads any symbol and writes
    it again where it stands on the other side too"""

    def __init__(self, secs):
        self.secs = secs

    def closure(self, l):
        i = 0
        while i < len(l):
            f, s, o, w, d = l[i]
            for a, b, t, aw in f.arcs.get(s, ()):
                if a == "":
                    l.append((f, t, o + ((b,) if b else ()), w + aw, d))
            i += 1
            if len(l) > 5000:
                raise TooBig()
        return l

    def start(self):
        return self.closure([(f, f.init, (), 0.0, False) for f in self.secs])

    def step(self, st, c, alts, wild=True):
        nx = []
        for f, s, o, w, d in st:
            for a, b, t, aw in f.arcs.get(s, ()):
                if a == c or (wild and a == ANY) or a in alts:
                    if b == ANY:
                        b = c
                    nx.append((f, t, o + ((b,) if b else ()), w + aw, d or a != c))
        return self.closure(nx)

    def outputs(self, st):
        return [(o, d, w + f.finals[s]) for f, s, o, w, d in st if s in f.finals]


class Rel:
    def __init__(self, rel):
        self.lex = proc.Lexicon(rel, "")

    def start(self):
        return self.lex.start()

    def step(self, st, c, alts, wild=True):
        r = set()
        for p, d in st:
            for x in [c] + list(alts):
                q = p + (x,)
                if q in self.lex.prefixes:
                    r.add((q, d or x != c))
        return r

    def outputs(self, st):
        return self.lex.outputs(st)


def translate(lk, mark, syms, sens, whole):
    """((outputs of the longest known beginning, its length), outputs of the lower-cased whole)"""
    def go(ss, low):
        st = lk.start()
        if mark:
            st = lk.step(st, mark, (), False)
        best = ([], 0)
        for k, c in enumerate(ss):
            alts = ()
            if low and len(c) == 1 and uni.tolower(c) != c:
                alts = (uni.tolower(c),)
            st = lk.step(st, c, alts)
            o = lk.outputs(st)
            if o:
                best = (o, k + 1)
        if (whole or not any(len(s) > 1 for s in ss)) and best[1] < len(ss):
            return [], 0
        return best
    a = go(syms, not sens)
    return a, (go(syms if sens else [uni.tolower(s) if len(s) == 1 else s for s in syms], False) if whole and not a[0] else ([], 0))


class C(Check):
    id = "C11"
    quick_n = 45000
    thorough_n = 1500000
    rule = ("random bilingual dictionaries (some with wildcard characters) and random streams of lexical units derived from their source "
            "sides (recased, truncated, with further tags as a queue, joined lemmas, marks, several readings, escapes, blanks of every "
            "kind), in lexical transfer with and without surface forms, in every mode and with case, weight and limit options, compared "
            "with a reference implementation; non-trivial: some unit is translated and one has a queue, a change of case or several "
            "translations, or one is not found")
    technique = "property-based testing against a reference implementation"
    assumptions = ["with surface forms, every unit has a surface form and a reading"]

    def gen(self, r, size):
        anyc = r.random() < 0.2
        k = gen.ana_knobs(r, weights=r.choice([0, 0, 0.5]))
        k.types = ("standard", "standard", "inconditional")
        if r.random() < 0.4:
            k.maxword, k.chars = 2, "ab"
            k.tags = k.tags[:3]
        if r.random() < 0.15:
            k.extra = list("%#=*@")
            k.p_extra = 0.3
        for _ in range(30):
            d = gen.dix(r, k, min(size, 5))
            tags = ["<%s>" % t for t in d["sdefs"]]
            for _, _, es in d["sections"]:
                for e in es:
                    if r.random() < 0.7:
                        t = gen.tags(r, d["sdefs"], 1, 2)
                        e["items"].append(["p", t, t if r.random() < 0.5 else gen.tags(r, d["sdefs"], 0, 2)])
            if anyc:
                d["sdefs"] = d["sdefs"] + ["ANY_CHAR"]
                for _ in range(r.randint(1, 2)):
                    it = [["i", [ANY]]] if r.random() < 0.7 else [["p", [ANY], [r.choice(k.chars)]]]
                    if r.random() < 0.5:
                        it.insert(0, ["i", gen.word(r, k, 1, 2)])
                    if r.random() < 0.5:
                        it.append(["i", [r.choice(tags)]])
                    d["sections"][0][2].append({"items": it})
            try:
                rel = dix.Model(d, "lr").directed()
            except TooBig:
                continue
            if not any(f & {"", " "} for f in dix.firsts(d, "lr").values()) and any(rel.values()):
                break
        ins = sorted({i for x in rel.values() for (i, _) in x}) or [("a",)]
        surf = r.choice(["b", "b", "b", "o", "O"])
        items = []
        for _ in range(r.randint(1, 1 + int(size))):
            s = [r.choice(k.chars) if x == ANY else x for x in r.choice(ins)]
            if r.random() < 0.5:
                s = streams.recase_syms(r, s)
            if r.random() < 0.25:
                s = streams.mutate(r, s, tags)
            if r.random() < 0.3:
                s += gen.tags(r, d["sdefs"], 1, 2)
                if r.random() < 0.3:
                    s += ["#", " ", r.choice(k.chars + "/^")]
            rs = [s]
            while r.random() < 0.15:
                rs.append(list(r.choice(ins)))
            rs = [[r, ""] for r in rs]
            mark = r.choice(streams.MARKS) if r.random() < 0.12 else ""
            if surf != "b":
                rs[0][1], mark = mark, r.choice(streams.MARKS) if r.random() < 0.05 else ""
                rs.insert(0, [gen.word(r, k, 1, 3), ""])
            items += streams.blanks(r)
            wb = r.random() < 0.1
            if wb:
                items.append(["wb", "t:x:1"])
            items.append(["lm", mark, rs])
            if wb:
                items.append(["wb", "/"])
        items += streams.blanks(r)
        fl = {"mode": r.choice(list(MODES)) if r.random() < 0.6 else "", "surf": surf}
        for o, p in (("c", 0.12), ("W", 0.15)):
            if r.random() < p:
                fl[o] = True
        if r.random() < 0.1:
            fl["N"] = r.randint(1, 2)
        if r.random() < 0.1:
            fl["L"] = r.randint(1, 2)
        return {"dix": d, "stream": items, "flags": fl}

    def valid(self, c):
        fl = c["flags"]
        if not (dix.valid(c["dix"]) and fl.get("mode") in MODES and fl.get("surf") in ("b", "o", "O")):
            return False
        if any(n < 1 for n in (fl.get("N", 1), fl.get("L", 1))):
            return False
        for it in c["stream"]:
            if isinstance(it, list) and it and it[0] == "lm":
                if not streams.ok([["lu", it[1], [x[0] for x in it[2]]]]) or any(x[1] not in ("",) + tuple(streams.MARKS) for x in it[2]):
                    return False
                if fl["surf"] != "b" and len(it[2]) < 2 or not it[2]:
                    return False
                if it[2][0][1]:
                    return False
            elif not streams.ok([it]):
                return False
        return True

    def run(self, c, env):
        d, fl = c["dix"], c["flags"]
        if any(f & {"", " "} for f in dix.firsts(d, "lr").values()):
            raise Skip()
        try:
            rel = dix.Model(d, "lr").directed()
        except TooBig:
            raise Skip()
        if not any(rel.values()):
            raise Skip()
        b, _ = compile_dix(env, d, "lr")
        mode, sens, surf = fl["mode"], fl.get("c"), fl["surf"]
        whole = mode in ("g", "d")
        if "ANY_CHAR" in d["sdefs"]:
            with open(b, "rb") as fh:
                f = binfmt.read(fh.read())
            lk = Arcs([f.fst(n) for n in f.sections])
        else:
            lk = Rel(rel)
        exp, src, labels, nt = [], [], {surf + mode}, False
        for it in c["stream"]:
            if not (isinstance(it, list) and it[0] == "lm"):
                exp.append(streams.item_text(it))
                src.append(exp[-1])
                continue
            rs = [[s, m] for s, m in it[2]]
            rs[0] = [rs[0][0], it[1]]
            src.append("^" + "/".join(m + streams.esc_syms(s) for s, m in rs) + "$")
            k = 0 if surf == "b" else 1
            exp.append("^")
            if surf == "O":
                exp.append(rs[0][1] + streams.esc_syms(rs[0][0]) + "/")
            syms, mark = rs[k]
            if mark == "*":
                x = streams.esc_syms(syms)
                exp.append("*%s/%s%s$" % (x, "" if mode == "n" else "*", x))
                labels.add("unknown")
                continue
            if not syms:
                exp.append(mark + "$")
                continue
            source = [mark] if mark else []
            for n, s in enumerate(syms):
                source.append("\\" + s if len(s) == 1 and (s in uni.ESCAPED or n == 0 and s == "*") else s)
            exp.append("".join(source) + "/")
            try:
                (outs, n), (outs2, _) = translate(lk, mark, syms, sens, whole)
            except TooBig:
                raise Skip()
            queue = "".join(source[n + (1 if mark else 0):])
            if outs:
                up = [len(s) == 1 and uni.isupper(s) for s in syms[:2]] + [False]
                res = proc.readings(outs, up[0] and up[1], up[0])
                if any(x[1] for x in outs):
                    labels.add("recased")
            elif outs2:
                res, queue = proc.readings(outs2, False, False), ""
                labels.add("lowered")
            else:
                exp.append(("#" if mode == "d" else "@") + "".join(source) + "$")
                labels.add("notfound")
                nt = True
                continue
            if queue:
                labels.add("queue")
            if len(res) > 1:
                labels.add("ambiguous")
            nt = nt or bool(labels & {"queue", "ambiguous", "recased", "lowered"})
            items, n = limit(res, fl.get("N"), fl.get("L"), fl.get("W"))
            exp.append(({x + queue: w for x, w in items.items()}, n))
            exp.append("$")
        args = ["-" + surf] + MODES[mode] + ["-" + x for x in "cW" if fl.get(x)] + (["-N", str(fl["N"])] if fl.get("N") else []) + \
            (["-L", str(fl["L"])] if fl.get("L") else [])
        text = "".join(src)
        out = env.ok("lt-proc", *(args + [b]), inp=text).text
        if not match(out, exp):
            raise Fail("lt-proc %s on %r\nexpected %r\ngot      %r" % (" ".join(args), text, shown(exp), out))
        return nt, labels


CHECK = C()
