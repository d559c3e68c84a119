from .. import dix, gen, proc
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig
from ..uni import isalnum
from .c05 import toks, words_of

FLAGS = ["-e", "-c", "-w", "-W", "-N1", "-z"]


class C(Check):
    id = "C06"
    quick_n = 16000
    thorough_n = 300000
    rule = ("random dictionary (standard and inconditional sections, multiwords, regular expressions, compound symbols) and "
            "random text up to tens of thousands of symbols with superblanks, word-bound blanks, escapes, non-BMP "
            "characters, all kinds of white space; the surface forms and the text between them are read back from the output "
            "and must reproduce the input; non-trivial: at least 2 lexical units and at least 1 blank or escape")
    technique = "property-based testing: text reconstruction (round trip) oracle"
    assumptions = ["input streams are well formed", "soft hyphens are ignored characters unless escaped",
                   "blanks inside a matched multiword follow it, plain spaces before the first other blank are absorbed"]

    def gen(self, r, size):
        k = gen.ana_knobs(r, regex=r.choice([0, 0, 0.4]), types=("standard", "inconditional"),
                          neg=0.3, special=r.choice([0, 0.1]))
        k.tags = k.tags + ["compound-only-L", "compound-R"]
        for _ in range(30):
            d = gen.dix(r, k, size)
            f = dix.firsts(d, "lr")
            if not any(x & {"", " "} for x in f.values()) and any(f.values()):
                break
        try:
            ws = words_of(dix.Model(d, "lr", {}, 5).directed())
        except TooBig:
            ws = ["ab"]
        if len(ws) > 60:
            ws = r.sample(ws, 60)
        ws = ["".join(c for c in w if c >= " ") for w in ws]
        return {"dix": d, "text": gen.text_items(r, ws, size, chars=k.chars, special=0.1), "rep": r.choice([1] * 14 + [r.randint(2, 300)]),
                "flags": [f for f in FLAGS if r.random() < 0.15]}

    def valid(self, c):
        return dix.valid(c["dix"]) and gen.text_ok(c["text"]) and all(f in FLAGS for f in c["flags"]) and c["rep"] >= 1 and \
            not any(s[1] in ("postblank", "preblank") for s in c["dix"]["sections"])

    def run(self, c, env):
        d = c["dix"]
        f = dix.firsts(d, "lr")
        if any(x & {"", " "} for x in f.values()) or not any(f.values()):
            raise Skip()
        b, _ = compile_dix(env, d, "lr")
        text = c["text"] * c["rep"]
        out = env.ok("lt-proc", *(c["flags"] + [b]), inp=gen.text_str(text)).out
        if "-z" in c["flags"]:
            while out.endswith(b"\0"):
                out = out[:-1]
        try:
            s = out.decode("utf-8")
        except UnicodeDecodeError:
            raise Fail("the output is not valid UTF-8: %r" % out[:2000])
        try:
            got = proc.parse_stream(s)
        except proc.BadStream as e:
            raise Fail("malformed output (%s): %r" % (e, s[:2000]))
        ts = toks(text)
        letters = set(d["alphabet"])
        pos, owed, nlu = 0, "", 0
        for g in got:
            if g[0] == "lu":
                if owed:
                    raise Fail("blank %r of a multiword does not follow it: %r" % (owed, s[:2000]))
                sf = proc.unescape(g[1][0])
                nlu += 1
                if not sf or len(g[1]) < 2:
                    raise Fail("lexical unit without surface form or reading: %r in %r" % (g, s[:2000]))
                bl = []
                for ch in sf:
                    if pos >= len(ts) or ts[pos].c != ch:
                        raise Fail("surface form %r is not the text at symbol %d (%r): %r" % (
                            sf, pos, "".join(t.c for t in ts[pos:pos + 20]), s[:2000]))
                    if ts[pos].blank is not None:
                        bl.append(ts[pos].blank)
                    pos += 1
                while bl and bl[0] == " ":
                    bl.pop(0)
                owed = "".join(bl)
            else:
                x, i = g[1], 0
                if owed:
                    if not x.startswith(owed):
                        raise Fail("blank %r of a multiword does not follow it but %r does: %r" % (owed, x, s[:2000]))
                    i, owed = len(owed), ""
                while i < len(x):
                    if pos >= len(ts):
                        raise Fail("output has text %r beyond the input: %r" % (x[i:], s[:2000]))
                    t = ts[pos]
                    if t.blank is not None:
                        e = t.blank
                    elif t.c in gen.ESCAPED:
                        e = "\\" + t.c
                    else:
                        e = t.c
                    if not x.startswith(e, i):
                        raise Fail("expected %r next, output has %r (symbol %d): %r" % (e, x[i:i + 20], pos, s[:2000]))
                    if t.blank is None and (isalnum(t.c) or t.c in letters):
                        raise Fail("letter %r is outside of any lexical unit: %r" % (t.c, s[:2000]))
                    i += len(e)
                    pos += 1
        if pos != len(ts) or owed:
            raise Fail("%d of %d symbols are missing from the output: %r ... output %r" % (
                len(ts) - pos, len(ts), "".join(t.c for t in ts[pos:pos + 30]), s[-300:]))
        labels = list(c["flags"])
        if len(ts) > 2100:
            labels.append("longer_than_buffer")
        return nlu >= 2 and any(not isinstance(i, str) for i in text), labels


CHECK = C()
