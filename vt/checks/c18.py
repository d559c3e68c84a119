from .. import dix, gen, proc
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig
from ..proc import Tok
from .c05 import compare, toks

NAMES = [("compound-only-L", "compound-R"), (":co:only-L", ":co:R"), (":compound:only-L", ":compound:R"),
         ("@co:only-L", "@co:R"), ("@compound:only-L", "@compound:R")]


class Compounds:
    """readings of a word as a compound: as few parts as possible, all but the last marked as left parts, the last as a right part"""

    def __init__(self, lex, left, right, most, sensitive, dictcase):
        self.lex, self.left, self.right, self.most = lex, left, right, most
        self.sensitive, self.dictcase = sensitive, dictcase
        self.loose = False

    def prune(self, outs):
        return [x for x in outs if self.left not in x[0]]

    def parts(self, word, i, j):
        return self.lex.outputs(self.lex.lookup(word[i:j], self.sensitive))

    def __call__(self, word):
        n = len(word)
        count = [1] + [0] * n      # ways to read a prefix as left parts: lt-proc gives up on too many
        for j in range(1, n):
            for i in range(j):
                if count[i]:
                    count[j] += count[i] * sum(1 for o, _, _ in self.parts(word, i, j) if self.left in o)
        if sum(count) * max(1, len(self.lex.entries)) > 15000:
            raise Skip()
        cur = {0: [((), False, 0.0)]}
        for k in range(1, n + 1):
            # k parts: cur holds what k - 1 left parts cover
            last = []
            for i, l in cur.items():
                for o, d, w in self.parts(word, i, n):
                    if self.right in o:
                        last += [(a + o, b or d, x + w) for a, b, x in l]
            if last:
                if k == self.most + 1:
                    self.loose = True
                if k > self.most + 1:
                    return None
                return proc.readings([(self.hide(o), d, w) for o, d, w in last], *proc.case_of(word, self.dictcase))
            nxt = {}
            for i, l in cur.items():
                for j in range(i + 1, n):
                    for o, d, w in self.parts(word, i, j):
                        if self.left in o:
                            nxt.setdefault(j, []).extend((a + o + ("+",), b or d, x + w) for a, b, x in l)
            if sum(map(len, nxt.values())) > 3000:
                raise Skip()
            cur = nxt
        return None

    def hide(self, o):
        return tuple(s for s in o if s not in (self.left, self.right))


def analyse(lex, ts, comp, sensitive, dictcase):
    """longest match as ever, but where a left part was seen on the way and the text goes on with a letter, the text up to
    the end of that word is tried as one compound first; other unknown words are decomposed on their own"""
    out, i, n = [], 0, len(ts)

    def raw(x):
        if x:
            out.append(("raw", x))

    def lu(j, rs):
        out.append(("lu", "".join(t.c for t in ts[i:j]), rs))
        bl = [t.blank for t in ts[i:j] if t.blank is not None]
        while bl and bl[0] == " ":
            bl.pop(0)
        raw("".join(bl))
        return j

    def run(j):
        while j < n and lex.alpha(ts[j].c):
            j += 1
        return j

    def plain(outs, sf):
        o = comp.prune(outs)
        return proc.readings([(comp.hide(a), d, y) for a, d, y in o], *proc.case_of(sf, dictcase)) if o else None
    while i < n:
        st, best, seen, j = lex.start(), None, False, i
        while True:
            if j > i:
                outs = lex.outputs(st)
                if j == n or not lex.alpha(ts[j].c):
                    rs = plain(outs, [t.c for t in ts[i:j]])
                    if rs:
                        best = (j, rs)
                elif any(comp.left in o for o, _, _ in outs):
                    seen = True
            if j >= n:
                break
            nx = lex.step(st, ts[j].c, sensitive)
            if not nx:
                break
            st = nx
            j += 1
        if seen and i < j < n and lex.alpha(ts[j].c):
            e = run(j)
            rs = comp([t.c for t in ts[i:e]])
            if rs:
                i = lu(e, rs)
                continue
        if best:
            i = lu(*best)
            continue
        if not lex.alpha(ts[i].c):
            t = ts[i]
            raw(t.blank if t.blank is not None else t.c if proc.isspace(t.c) else ("\\" if t.c in proc.ESCAPED else "") + t.c)
            i += 1
            continue
        j = run(i)
        w = "".join(t.c for t in ts[i:j])
        rs = comp(w)
        if not rs and not sensitive:
            l = w.lower()
            rs = plain(lex.outputs(lex.lookup(l, sensitive)), l) or comp(l)
        i = lu(j, rs or None)
    res = []
    for x in out:
        if x[0] == "raw" and res and res[-1][0] == "raw":
            res[-1] = ("raw", res[-1][1] + x[1])
        else:
            res.append(x)
    return res


class C(Check):
    id = "C18"
    quick_n = 40000
    thorough_n = 600000
    rule = ("random dictionaries with left and right parts of compounds (ambiguous, weighted, with letters of every plane, outputs shorter "
            "and longer than inputs) and random texts of words joined from parts in any number, recased, cut and extended, through "
            "lt-proc -e with case and weight options and a limit of parts, compared with a reference decomposition; and, for dictionaries "
            "whose parts hold blanks and punctuation too, the analysis of a text compared with that of its pieces; non-trivial: some word "
            "is decomposed, or the dictionary has parts with blanks or punctuation")
    technique = "property-based testing against a reference model, and a metamorphic relation"
    assumptions = ["no part is marked as both left and right, and parts hold no join of their own",
                   "a word of one part more than the limit may or may not be decomposed (the documentation does not say which)"]

    def gen(self, r, size):
        k = gen.ana_knobs(r)
        chars = r.choice(["ab", "abc", "abé", "ab𐐨", "abσßi"])
        punct = r.choice(["", "", "", "-' ", " '", " ", "-"])
        left, right = r.choice(NAMES)
        es = []
        for _ in range(r.randint(2, 3 + int(size))):
            w = [r.choice(chars) for _ in range(r.randint(1, 3))]
            if punct and r.random() < 0.5:
                w.insert(r.randint(1, len(w)), r.choice(punct))
            x = r.random()
            o = list(w)
            if x < 0.2:
                o = o[:1]
            elif x < 0.3:
                o = []
            elif x < 0.5:
                o = o + [r.choice(chars)]
            o = [c if c != " " else ["b"] for c in o]
            o = o + r.choice([["<n>"], ["<n>", "<sg>"], []])
            kind = r.choice(["L", "L", "R", "R", ""])
            if kind:
                o.insert(len(o) if r.random() < 0.7 else r.randint(0, len(o)), "<%s>" % (left if kind == "L" else right))
            e = {"items": [["p", [c if c != " " else ["b"] for c in w], o]]}
            if r.random() < 0.3:
                e["?w"] = r.choice(["1", "2", "0.5", "0.25"])
            es.append([e, w, kind])
        d = {"alphabet": r.choice([chars + chars.upper(), "", chars]) + ("'" if "'" in punct and r.random() < 0.6 else ""), "sdefs": sorted({"n", "sg", left, right}), "pardefs": [],
             "sections": [["main", "standard", [e for e, _, _ in es]]]}
        if r.random() < 0.3 and len(es) > 2:
            d["sections"] = [["main", "standard", [e for e, _, _ in es[1:]]], ["x", "standard", [es[0][0]]]]
        texts = []
        for _ in range(r.randint(1, 2 + int(size / 3))):
            items = []
            for _ in range(r.randint(1, 3)):
                w = []
                for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5])):
                    w += r.choice([x for _, x, kd in es if kd == "L"] or [["a"]])
                w += r.choice([x for _, x, kd in es if kd != "L"] or [["a"]])
                w = "".join(w)
                if r.random() < 0.3:
                    w = gen.recase(r, w)
                if r.random() < 0.15:
                    w += r.choice(chars)
                items.append(w)
                items.append(r.choice([" ", " ", ". ", "\n", ", ", ["b", "<i>"]]))
            if r.random() < 0.5:
                items.pop()
            texts.append(items)
        return {"dix": d, "texts": texts, "lr": [left, right], "max": r.choice([None, None, 1, 2, 3]), "att": r.choice([0, 0, 1]),
                "flags": [f for f in ("-c", "-w", "-W") if r.random() < (0.3 if f == "-W" else 0.12)]}

    def valid(self, c):
        return dix.valid(c["dix"]) and all(gen.text_ok(t) for t in c["texts"]) and tuple(c["lr"]) in NAMES and \
            c["max"] in (None, 1, 2, 3) and all(f in ("-c", "-w", "-W") for f in c["flags"])

    def att(self, env, rel):
        """a transducer that has the weights on its final states"""
        t, n = [], 0
        for (i, o), w in sorted(rel.items()):
            q = 0
            for k in range(max(len(i), len(o))):
                n += 1
                t.append("%d\t%d\t%s\t%s\t0\n" % (q, n, i[k] if k < len(i) else "@0@", o[k] if k < len(o) else "@0@"))
                q = n
            t.append("%d\t%s\n" % (q, w))
        out = env.path(".bin")
        env.ok("lt-comp", "lr", env.write("".join(t), ".att"), out)
        return out

    def run(self, c, env):
        d = c["dix"]
        try:
            secs = dix.Model(d, "lr").directed()
        except TooBig:
            raise Skip()
        if any(x & {"", " "} for x in dix.firsts(d, "lr").values()) or not any(secs.values()):
            raise Skip()
        L, R = ["<%s>" % x for x in c["lr"]]
        for rel in secs.values():
            for (i, o) in rel:
                if (L in o) + (R in o) > 1 or o.count(L) + o.count(R) > 1 or "+" in o or ";" in i:
                    raise Skip()
        if any(s.rsplit("@", 1)[1] != "standard" for s in secs):
            raise Skip()
        if c.get("att") and len(secs) == 1 and all(proc.isalnum(s) for (i, _) in list(secs.values())[0] for s in i):
            b = self.att(env, list(secs.values())[0])
            d = dict(d, alphabet="")
        else:
            b, _ = compile_dix(env, d, "lr")
        argv = ["-e"] + c["flags"] + (["-M", str(c["max"])] if c["max"] else []) + [b]
        lex = proc.Lexicon(secs, d["alphabet"])
        # a left part with the mark before the end may be given up while it is being read; then the pieces are compared
        pure = all(lex.alpha(s) for rel in secs.values() for (i, _) in rel for s in i) or \
            all(o.index(L) >= len(i) - 1 for rel in secs.values() for (i, o) in rel if L in o)

        def go(items):
            o = env.ok("lt-proc", *argv, inp=gen.text_str(items)).out
            try:
                return o.decode("utf-8")
            except UnicodeDecodeError:
                raise Fail("the output is not valid UTF-8: %r" % o)
        if pure:
            n, loose = 0, False
            for t in c["texts"]:
                comp = Compounds(lex, L, R, c["max"] or 4, "-c" in c["flags"], "-w" in c["flags"])
                exp = analyse(lex, toks(t), comp, "-c" in c["flags"], "-w" in c["flags"])
                if comp.loose:
                    loose = True
                    continue
                compare(exp, go(t), weights="-W" in c["flags"])
                n += sum(1 for x in exp if x[0] == "lu" and x[2] and any("+" in y for y in x[2]))
            return n > 0, {"compound"} if n else {"loose"} if loose else {"none"}
        if any(";" in (i if isinstance(i, str) else i[1]) for t in c["texts"] for i in t):
            raise Skip()
        whole = []
        for n, t in enumerate(c["texts"]):
            whole += ([";"] if n else []) + t
        got, want = go(whole), ";".join(go(t) for t in c["texts"])
        if got != want:
            raise Fail("the analysis of a text is not that of its pieces\npieces %r\npiecewise %r\nwhole     %r" % (
                [gen.text_str(t) for t in c["texts"]], want, got))
        return True, {"pieces"}


CHECK = C()
