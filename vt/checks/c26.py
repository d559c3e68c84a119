"""Analysis with tables of ignored and of restored characters."""
from .. import dix, gen, proc
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig
from ..proc import Tok
from ..uni import isupper, tolower, toupper
from .c05 import compare, words_of

SOFT = "\u00ad"
EXTRA = ["'", "\u0301", "\u200c", SOFT, "\U0001d165", "ـ"]


class Restoring(proc.Lexicon):
    """a character that the table lists also stands for the characters it may be restored to"""
    table = {}

    def step(self, state, c, sensitive=False):
        if c not in self.table:
            return super().step(state, c, sensitive)
        alts = set(self.table[c])
        if isupper(c) and not sensitive:
            alts.add(tolower(c))
            alts |= set(self.table.get(tolower(c), ()))
        alts.discard(c)
        r = set()
        for p, d in state:
            if p + (c,) in self.prefixes:
                r.add((p + (c,), d))
            for a in alts:
                if p + (a,) in self.prefixes:
                    r.add((p + (a,), True))
        return r

    def lookup(self, syms, sensitive=False):
        """the second look at an unknown word, in lower case, takes it as it is"""
        s = self.start()
        for c in syms:
            s = super().step(s, c, sensitive)
        return s


def esc(c):
    return {"'": "&apos;", "&": "&amp;", "<": "&lt;", '"': "&quot;"}.get(c, c)


def icx(chars):
    return "<ignored-chars>\n" + "".join('  <char value="%s"/>\n' % esc(c) for c in chars) + "</ignored-chars>\n"


def rcx(table):
    return "<restore-chars>\n" + "".join('  <char value="%s">%s</char>\n' % (esc(c), "".join('<restore-char value="%s"/>' % esc(x) for x in l)) for c, l in table) + "</restore-chars>\n"


def kept(items, drop):
    r = []
    for it in items:
        if isinstance(it, str):
            r += [Tok(c, " " if c == " " else None) for c in it if c not in drop]
        elif it[0] == "e":
            r.append(Tok(it[1], " " if it[1] == " " else None))
        else:
            r.append(Tok(" ", gen.item_text(it)))
    return r


class C(Check):
    id = "C26"
    quick_n = 30000
    thorough_n = 250000
    rule = ("random dictionary, random tables of ignored characters and of characters with the ones they may be restored to (letters of one to "
            "four bytes, upper and lower case, several restorations of one character, several tables at once); running text with the words "
            "of the dictionary in which restorable characters are replaced by the plain ones and ignored ones are strewn in; with and without the default ignored "
            "character, case options; the whole output compared with a reference analyser; non-trivial: a word is known that would not be known without the tables")
    technique = "model-based testing: reference analyser over the dictionary's denotation with the tables applied to the text"
    assumptions = ["ignored characters are not ones that the stream format reserves, and not white space", "as C05"]

    def gen(self, r, size):
        k = gen.ana_knobs(r)
        for _ in range(30):
            d = gen.dix(r, k, size)
            m = dix.Model(d, "lr")
            f = dix.firsts(d, "lr")
            if not any(x & {"", " "} for x in f.values()):
                break
        ws = words_of(m.directed())
        letters = sorted({c for w in ws for c in w if c.isalpha()} | {"a", "b", "A"})
        plain = letters + [toupper(c) for c in letters if len(toupper(c)) == 1] + ["e", "E", "\U00010400", "\U00010428"]
        tables = []
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            t = []
            for _ in range(r.randint(0, 4)):
                t.append([r.choice(plain), sorted({r.choice(letters) for _ in range(r.randint(0, 3))})])
            if r.random() < 0.5:        # upper case in step with lower case
                t += [[toupper(c), [toupper(x) for x in l if len(toupper(x)) == 1]] for c, l in t if len(toupper(c)) == 1 and toupper(c) != c]
            tables.append(t)
        ign = []
        for _ in range(r.choice([0, 1, 1, 2])):
            ign.append(sorted({r.choice(EXTRA + letters[:1]) for _ in range(r.randint(0, 3))}))
        rev = {}
        for t in tables:
            for c, l in t:
                for x in l:
                    rev.setdefault(x, []).append(c)
        drop = [c for t in ign for c in t] + [SOFT]

        def spoil(w):
            o = []
            for c in w:
                if c in rev and r.random() < 0.6:
                    c = r.choice(rev[c])
                o.append(c)
                if r.random() < 0.15:
                    o.append(r.choice(drop))
            return "".join(o)
        text = []
        for it in gen.text_items(r, ws, size, chars=k.chars):
            text.append(spoil(it) if isinstance(it, str) and r.random() < 0.7 else it)
        return {"dix": d, "text": text, "rcx": tables, "icx": ign, "flags": [f for f in ("-c", "-w", "-I") if r.random() < 0.2]}

    def valid(self, c):
        bad = set("[]{}^$/\\@<>\0") | set(" \t\n\r")
        ch = [x for t in c["icx"] for x in t] + [x for t in c["rcx"] for a, l in t for x in [a] + l]
        return dix.valid(c["dix"]) and gen.text_ok(c["text"]) and all(f in ("-c", "-w", "-I") for f in c["flags"]) and \
            all(isinstance(x, str) and len(x) == 1 and x not in bad and ord(x) >= 32 for x in ch)

    def run(self, c, env):
        d = c["dix"]
        try:
            secs = dix.Model(d, "lr").directed()
        except TooBig:
            raise Skip()
        if any(x & {"", " "} for x in dix.firsts(d, "lr").values()) or not any(secs.values()):
            raise Skip()
        b, _ = compile_dix(env, d, "lr")
        drop = {x for t in c["icx"] for x in t}
        if "-I" not in c["flags"] and not c["rcx"]:
            drop.add(SOFT)
        lex = Restoring(secs, d["alphabet"])
        lex.table = {}
        for t in c["rcx"]:
            for x, l in t:
                if l:
                    lex.table.setdefault(x, set()).update(l)
        sens, dc = "-c" in c["flags"], "-w" in c["flags"]
        ts = kept(c["text"], drop)
        exp = proc.analyse(lex, ts, sensitive=sens, dictcase=dc)
        opts = list(c["flags"])
        for t in c["icx"]:
            opts += ["-i", env.write(icx(t), ".icx")]
        for t in c["rcx"]:
            opts += ["-r", env.write(rcx(t), ".rcx")]
        out = env.ok("lt-proc", *(opts + [b]), inp=gen.text_str(c["text"])).out
        try:
            out = out.decode("utf-8")
        except UnicodeDecodeError:
            raise Fail("the output is not valid UTF-8: %r" % out)
        compare(exp, out)
        base = proc.analyse(proc.Lexicon(secs, d["alphabet"]), kept(c["text"], set()), sensitive=sens, dictcase=dc)
        labels = set()
        if c["icx"]:
            labels.add("ignored")
        if c["rcx"]:
            labels.add("restored")
        if drop & {x for it in c["text"] if isinstance(it, str) for x in it}:
            labels.add("dropped")
        known = sum(1 for t in exp if t[0] == "lu" and t[2])
        return known > 0 and [t for t in exp if t[0] == "lu"] != [t for t in base if t[0] == "lu"], labels


CHECK = C()
