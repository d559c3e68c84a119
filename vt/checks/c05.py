from .. import dix, gen, proc
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig
from ..proc import Tok


def toks(items, ignore_soft=True):
    r = []
    for it in items:
        if isinstance(it, str):
            for c in it:
                if c == "\u00ad" and ignore_soft:
                    continue
                r.append(Tok(c, " " if c == " " else None))
        elif it[0] == "e":
            r.append(Tok(it[1], " " if it[1] == " " else None))
        else:
            r.append(Tok(" ", gen.item_text(it)))
    return r


def words_of(rel_by_section):
    return sorted({"".join(i) for rel in rel_by_section.values() for (i, _) in rel if all(len(s) == 1 for s in i)})


def compare(exp, text, n=None, l=None, weights=False):
    """expected token list against lt-proc's output; raises Fail"""
    try:
        got = proc.parse_stream(text)
    except proc.BadStream as e:
        raise Fail("the output is not a well-formed stream (%s): %r" % (e, text))
    e2 = []
    for t in exp:
        if t[0] == "raw" and e2 and e2[-1][0] == "raw":
            e2[-1] = ("raw", e2[-1][1] + t[1])
        else:
            e2.append(t)
    exp = [t for t in e2 if not (t[0] == "raw" and t[1] == "")]

    def show(t):
        return repr(t[1]) if t[0] == "raw" else "^%s -> %s" % (t[1], sorted(t[2]) if t[2] else "*")
    for k in range(max(len(exp), len(got))):
        if k >= len(got):
            raise Fail("output ends early; expected %s next; output %r" % (show(exp[k]), text))
        g = got[k]
        if k >= len(exp):
            raise Fail("unexpected %r at the end of %r" % (g, text))
        x = exp[k]
        if x[0] != g[0]:
            raise Fail("token %d: expected %s, got %r in %r" % (k, show(x), g, text))
        if x[0] == "raw":
            if x[1] != g[1]:
                raise Fail("token %d: expected text %r, got %r in %r" % (k, x[1], g[1], text))
            continue
        sf, rs = g[1][0], g[1][1:]
        if sf != gen.item_text(x[1]):
            raise Fail("token %d: expected surface form %r, got %r in %r" % (k, x[1], sf, text))
        if x[2] is None:
            if rs != ["*" + sf]:
                raise Fail("token %d: expected unknown word %r, got %r in %r" % (k, x[1], rs, text))
            continue
        check_readings(x[2], rs, n, l, weights, "token %d (%s)" % (k, x[1]), text)


def check_readings(expected, rs, n, l, weights, where, text):
    ws = []
    if weights:
        plain = []
        for r in rs:
            p = r.rfind("<W:")
            if p < 0 or not r.endswith(">"):
                raise Fail("%s: no weight in reading %r of %r" % (where, r, text))
            plain.append(r[:p])
            ws.append(float(r[p + 3:-1]))
        rs = plain
    must, may, count = proc.cut(expected, n, l)
    if len(rs) != len(set(rs)):
        raise Fail("%s: repeated readings %s in %r" % (where, rs, text))
    if len(rs) != count or not must <= set(rs) or not set(rs) <= may:
        raise Fail("%s: expected readings %s%s, got %s in %r" % (
            where, sorted(must), "" if must == may else " and some of %s, %d in all" % (sorted(may), count), rs, text))
    wl = [expected[r] for r in rs]
    if any(a > b + 1e-9 for a, b in zip(wl, wl[1:])):
        raise Fail("%s: readings %s are not in order of weight %s" % (where, rs, wl))
    if weights:
        for r, w in zip(rs, ws):
            if abs(w - expected[r]) > 1e-5 * max(1, abs(expected[r])):
                raise Fail("%s: reading %r has weight %r, expected %r" % (where, r, w, expected[r]))


class C(Check):
    id = "C05"
    quick_n = 14000
    thorough_n = 300000
    rule = ("random dictionary (all section types, multiwords, ambiguous and overlapping entries, non-BMP letters) compiled as "
            "analyser; random running text made of its words, their prefixes, extensions and recasings, unknown words, "
            "punctuation, escapes and blanks; the whole output compared token by token with a reference analyser working on "
            "the dictionary's denotation; non-trivial: at least 2 known tokens and 1 other token")
    technique = "model-based testing: reference analyser over the dictionary's denotation"
    assumptions = ["input streams are well formed (reserved characters escaped, superblanks closed)",
                   "a token and its look-ahead are shorter than the analyser's 2048-symbol window",
                   "readings of equal weight may come in any order"]

    def gen(self, r, size):
        k = gen.ana_knobs(r)
        for _ in range(30):
            d = gen.dix(r, k, size)
            wide = gen.widen(r, k, d, "l")
            m = dix.Model(d, "lr")
            f = dix.firsts(d, "lr")
            if not any(x & {"", " "} for x in f.values()):
                break
        ws = words_of(m.directed())
        if wide:
            w = "".join(d["sections"][0][2][-1]["items"][0][1])
            ws = list(ws)[:4] + [w, w.upper(), w.capitalize(), w[0] + w[1:].upper()]
        return {"dix": d, "text": gen.text_items(r, ws, size, chars=k.chars), "rep": r.choice([1] * 19 + [r.randint(2, 150)]),
                "flags": [f for f in ("-c", "-w", "-a") if r.random() < 0.15]}

    def valid(self, c):
        return dix.valid(c["dix"]) and c.get("rep", 1) >= 1 and gen.text_ok(c["text"]) and all(f in ("-c", "-w", "-a") for f in c["flags"])

    def run(self, c, env):
        d = c["dix"]
        try:
            secs = dix.Model(d, "lr").directed()
        except TooBig:
            raise Skip()
        if any(x & {"", " "} for x in dix.firsts(d, "lr").values()) or not any(secs.values()):
            raise Skip()
        b, _ = compile_dix(env, d, "lr")
        c = dict(c, text=c["text"] * c.get("rep", 1))
        lex = proc.Lexicon(secs, d["alphabet"])
        exp = proc.analyse(lex, toks(c["text"]), sensitive="-c" in c["flags"], dictcase="-w" in c["flags"])
        out = env.ok("lt-proc", *(c["flags"] + [b]), inp=gen.text_str(c["text"])).out
        try:
            out = out.decode("utf-8")
        except UnicodeDecodeError:
            raise Fail("the output is not valid UTF-8: %r" % out)
        compare(exp, out)
        known = sum(1 for t in exp if t[0] == "lu" and t[2])
        labels = []
        if any(t[0] == "lu" and t[2] and " " in t[1] for t in exp):
            labels.append("multiword")
        if any(t[0] == "lu" and t[2] is None for t in exp):
            labels.append("unknown")
        if any(t[0] == "lu" and t[2] and len(t[2]) > 1 for t in exp):
            labels.append("ambiguous")
        if not c["text"] or not gen.text_str(c["text"]).endswith("\n"):
            labels.append("no_final_newline")
        return known >= 2 and len(exp) > known, labels


CHECK = C()
