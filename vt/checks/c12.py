from .. import binfmt, dix, gen, proc, streams, uni
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig


def tok(s):
    o, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            o.append(s[i + 1])
            i += 2
        elif s[i] == "<" and ">" in s[i:]:
            j = s.index(">", i)
            o.append(s[i:j + 1])
            i = j + 1
        else:
            o.append(s[i])
            i += 1
    return o


class Rules:
    def __init__(self, secs, letters, sens):
        self.secs, self.letters, self.sens = secs, set(letters), sens

    def closure(self, l):
        i = 0
        while i < len(l):
            f, s, o, w, d = l[i]
            for a, b, t, aw in f.arcs.get(s, ()):
                if a == "":
                    l.append((f, t, o + ((b,) if b else ()), w + aw, d))
            i += 1
            if len(l) > 5000:
                raise TooBig()
        return l

    def longest(self, text):
        """(length, replacement) of the longest match at the start of the symbols, or None"""
        st = self.closure([(f, f.init, (), 0.0, False) for f in self.secs])
        best, flags, n = None, [], 0
        for c in text:
            if len(c) == 1 and (uni.isalnum(c) or c in self.letters) and len(flags) < 2:
                flags.append(uni.isupper(c))
            up = len(c) == 1 and uni.isupper(c) and not self.sens
            low = uni.tolower(c) if up else None
            nx = []
            for f, s, o, w, d in st:
                for a, b, t, aw in f.arcs.get(s, ()):
                    for hit, dd in ((a == c, d), (up and a == low, True)):
                        if hit:
                            x = c if up and b == low else b
                            nx.append((f, t, o + ((x,) if x else ()), w + aw, dd))
            st = self.closure(nx)
            if not st:
                break
            n += 1
            outs = [(o, d, w + f.finals[s]) for f, s, o, w, d in st if s in f.finals]
            if outs:
                first = bool(flags) and flags[0]
                rs = proc.readings(outs, first and len(flags) > 1 and flags[1], first)
                m = min(rs.values())
                c = [x for x in rs if rs[x] < m + 1e-9]
                best = (n, tok(c[0]) if len(c) == 1 else None)
        return best


class Word:
    def __init__(self, lead, wb):
        self.lead, self.wb, self.syms, self.blanks = lead, wb, [], []


def words(items):
    """the words of a segment, each with the blank before it; and the blank at the end"""
    out, lead, cur = [], "", None

    def chars(it):
        return [it[1]] if isinstance(it, list) else list(it)
    for it in items:
        isb = isinstance(it, list) and it[0] == "b" or isinstance(it, str) and it and all(map(uni.isspace, it))
        if isb:
            lead += streams.item_text(it)
            cur = None
        elif isinstance(it, list) and it[0] == "W":
            w = Word(lead, "[[" + it[1] + "]]")
            pend = ""
            for x in it[2]:
                if isinstance(x, list) and x[0] == "b" or isinstance(x, str) and all(map(uni.isspace, x)):
                    pend += streams.item_text(x)
                    continue
                if pend:
                    w.syms.append(" ")
                    w.blanks.append(pend)
                    pend = ""
                for c in chars(x):
                    w.syms.append(c)
                    if c == " ":
                        w.blanks.append(" ")
            out.append(w)
            lead, cur = "", None
        else:
            if cur is None:
                cur = Word(lead, "")
                out.append(cur)
                lead = ""
            for c in [it[1]] if isinstance(it, list) and it[0] == "t" else chars(it):
                cur.syms.append(c)
                if c == " ":
                    cur.blanks.append(" ")
    return out, lead


def rewrite(rules, ws, drop):
    """leftmost longest matches are replaced; what a replacement leaves unchanged at its end may start the next match"""
    out, hits = [], 0
    ws = list(ws)
    while ws:
        cur = ws.pop(0)
        start = 0
        while start < len(cur.syms):
            def text():
                yield from cur.syms[start:]
                for w in ws:
                    yield " "
                    yield from w.syms
            m = rules.longest(text())
            if m is None:
                start += 1
                continue
            hits += 1
            n, rep = m
            if rep is None:
                raise Skip()
            end = start + n
            pos = len(cur.syms)
            while end > pos:
                if end == pos + 1 and rep and rep[-1] == " ":
                    # the blank behind the match is left alone
                    end, rep, n = end - 1, rep[:-1], n - 1
                    break
                w = ws.pop(0)
                cur.syms = cur.syms + [" "] + w.syms
                cur.blanks = cur.blanks + [w.lead] + w.blanks
                cur.wb = cur.wb[:-2] + "; " + w.wb[2:] if cur.wb and w.wb else cur.wb or w.wb
                pos = len(cur.syms)
            i = 0
            while i < len(rep) and i + 1 < n and rep[len(rep) - i - 1] == cur.syms[end - i - 1]:
                i += 1
            cur.syms = cur.syms[:start] + rep + cur.syms[end:]
            start += len(rep) - i
        t, k = [], 0
        for c in cur.syms:
            if c == " ":
                t.append(cur.blanks[k] if k < len(cur.blanks) else " ")
                k += 1
            elif c == "~" and drop:
                pass
            else:
                t.append("\\" + c if c in uni.ESCAPED else c)
        out.append(cur.lead + cur.wb + "".join(t) + ("[[/]]" if cur.wb else ""))
        out += [b for b in cur.blanks[k:] if b != " "]
    return "".join(out), hits


def item_text(it):
    if isinstance(it, list) and it[0] == "W":
        return "[[" + it[1] + "]]" + "".join(map(item_text, it[2])) + "[[/]]"
    if isinstance(it, list) and it[0] == "t":
        return it[1]
    if isinstance(it, list) and it[0] == "0":
        return "\0"
    return streams.item_text(it)


def item_ok(it, deep=True):
    if not isinstance(it, list):
        return isinstance(it, str) and "\0" not in it and it != "" and (all(map(uni.isspace, it)) or not any(map(uni.isspace, it)))
    if it[0] == "W":
        return deep and len(it) == 3 and it[2] and all(item_ok(x, False) for x in it[2]) and \
            not any(c in it[1] for c in "[]\\\0") and not isblank(it[2][0]) and not isblank(it[2][-1])
    if it[0] == "t":
        return deep and streams.tag_ok(it[1])
    if it == ["0"]:
        return deep
    return it[0] in ("b", "e") and gen.text_ok([it]) and "\0" not in it[1]


def isblank(it):
    return isinstance(it, list) and it[0] == "b" or isinstance(it, str) and all(map(uni.isspace, it))


class C(Check):
    id = "C12"
    quick_n = 40000
    thorough_n = 1500000
    rule = ("random rule dictionaries (wake-up marks, blanks, overlapping rules, deletions, insertions, weights, letters of every plane) and random texts built "
            "from their left sides with blanks, superblanks, word-bound blanks, escapes, tags and null characters, through post-generation, "
            "inter-generation and transliteration, compared with a reference rewriter; non-trivial: some rule applies")
    technique = "property-based testing against a reference implementation"
    assumptions = ["word-bound blanks surround a non-empty text that neither starts nor ends with a blank",
                   "rules whose left side starts with a blank are left out, and texts where two best replacements have the same weight"]

    def gen(self, r, size):
        k = gen.ana_knobs(r, weights=r.choice([0, 0, 0.5]), wake=r.choice([0, 0.3]), joins=0, groups=0)
        k.types = ("standard", "standard", "inconditional")
        k.maxword = r.choice([2, 3, 4])
        for _ in range(30):
            long = []
            d = gen.dix(r, k, min(size, 5))
            tags = ["<%s>" % t for t in d["sdefs"]]
            for _, _, es in d["sections"]:
                for e in es:
                    for it in e["items"]:
                        if it[0] == "p":
                            if r.random() < 0.9:
                                it[2] = [s for s in it[2] if not (isinstance(s, str) and len(s) > 1)]
                            if r.random() < 0.3:
                                it[2] = list(it[1])
                                if it[2] and r.random() < 0.7:
                                    it[2][0] = r.choice(k.chars)
            if d["sections"] and r.random() < 0.05:
                # a long rule, so that a word of many upper-case letters matches it
                w = [r.choice([x for x in k.chars if x.strip()] or ["a"]).lower()[0] for _ in range(r.randint(15, 24))]
                v = list(w)
                v[r.randrange(len(v))] = "b"
                d["sections"][0][2].append({"items": [["p", w, v]]})
                if r.random() < 0.7:
                    long = [w]
            try:
                rel = dix.Model(d, "lr").directed()
            except TooBig:
                continue
            if not any(f & {"", " "} for f in dix.firsts(d, "lr").values()) and any(rel.values()):
                break
        ins = sorted({i for x in rel.values() for (i, _) in x}) or [("a",)]

        def syms_items(s):
            cur, o = "", []
            for c in s:
                if len(c) > 1 or c == " ":
                    if cur:
                        o.append(cur)
                        cur = ""
                    if c == " ":
                        o.append(r.choice([" ", " ", " ", ["b", "<x>"], "\n"]) if r.random() < 0.5 else " ")
                    else:
                        o.append(["t", c])
                else:
                    cur += c
            if cur:
                o.append(cur)
            return o

        def piece():
            s = list(r.choice(long or ins))
            if r.random() < (0.8 if long else 0.3):
                s = streams.recase_syms(r, s)
            x = r.random()
            if x < 0.15 and len(s) > 1:
                s = s[:r.randint(1, len(s))]
            elif x < 0.3:
                s.insert(r.randint(0, len(s)), r.choice(list(k.chars) + ["~", "'", "."]))
            return s
        items = []
        for _ in range(r.randint(1, 1 + int(size * 1.5))):
            x = r.random()
            if x < 0.6:
                items += syms_items(piece())
            elif x < 0.75:
                inner = [i for i in syms_items([c for c in piece() if len(c) == 1]) if not isinstance(i, list) or i[0] != "0"]
                while inner and isblank(inner[0]):
                    inner.pop(0)
                while inner and isblank(inner[-1]):
                    inner.pop()
                if inner and r.random() < 0.25:
                    inner.insert(r.randint(1, len(inner)), ["e", r.choice("   ^]~\\<")])
                if inner:
                    items.append(["W", r.choice(["t:x:1", "t:i:a; t:b:c"]), inner])
            elif x < 0.85:
                items.append("".join(r.choice(k.chars) if r.random() < 0.8 else r.choice(gen.EXTRA) for _ in range(r.randint(1, 4))))
            elif x < 0.9:
                items.append(["e", r.choice(list("^$@/\\[]{}<> ~ab"))])
            elif x < 0.93:
                items.append(["t", r.choice(tags + ["<unk>"])])
            elif x < 0.96:
                items.append(["0"])
            y = r.random()
            if y < 0.55:
                items.append(" ")
            elif y < 0.62:
                items.append(r.choice(["\n", "  ", "\t", "\u00a0"]))
            elif y < 0.7:
                items.append(["b", r.choice(["<b>", "", "\\]", "a b"])])
        items = [i for i in items if item_ok(i)]
        return {"dix": d, "items": items, "flags": {"mode": r.choice("pptx"), "c": r.random() < 0.1}}

    def valid(self, c):
        return dix.valid(c["dix"]) and all(map(item_ok, c["items"])) and c["flags"].get("mode") in ("p", "t", "x")

    def run(self, c, env):
        d, fl = c["dix"], c["flags"]
        if any(f & {"", " "} for f in dix.firsts(d, "lr").values()):
            raise Skip()
        try:
            rel = dix.Model(d, "lr").directed()
        except TooBig:
            raise Skip()
        if not any(rel.values()):
            raise Skip()
        b, _ = compile_dix(env, d, "lr")
        with open(b, "rb") as fh:
            f = binfmt.read(fh.read())
        rules = Rules([f.fst(n) for n in f.sections], d["alphabet"], fl.get("c"))
        segs, cur = [], []
        for it in c["items"]:
            if it == ["0"]:
                segs.append(cur)
                cur = []
            else:
                cur.append(it)
        segs.append(cur)
        exp, hits = [], 0
        try:
            for s in segs:
                ws, tail = words(s)
                t, h = rewrite(rules, ws, fl["mode"] == "p")
                exp.append(t + tail)
                hits += h
        except TooBig:
            raise Skip()
        text = "".join(map(item_text, c["items"]))
        args = ["-" + fl["mode"], "-z"] + (["-c"] if fl.get("c") else [])
        out = env.ok("lt-proc", *(args + [b]), inp=text).text
        if out.split("\0") != exp:
            raise Fail("lt-proc %s on %r\nexpected %r\ngot      %r" % (" ".join(args), text, "\0".join(exp), out))
        labels = {fl["mode"]}
        if hits:
            labels.add("rule")
        if any(isinstance(i, list) and i[0] == "W" for i in c["items"]):
            labels.add("wordbound")
        if len(segs) > 1:
            labels.add("null")
        return hits > 0, labels


CHECK = C()
