"""Translation memories: lt-tmxcomp and lt-tmxproc."""
from .. import gen, proc
from ..core import Check, Fail, Skip
from ..uni import ESCAPED, ispunct, isspace

LETTERS = ["a", "b", "c", "A", "B", "é", "É", "ж", "\U00010428", "\U00010400", "n"]
PUNCT = [".", ",", "-", "!", "/", "(", ")", "'"]
DIGITS = ["1", "2", "23", "4", "507", "٣"]
RESERVED = set("[]{}^$/\\@<>")


def segs(parts):
    """characters, numbers and placeholders of one side -> symbols with texts; parts: strings, ["n", digits], ["ph"]"""
    for p in parts:
        if isinstance(p, str):
            for ch in p:
                yield ch, ch
        elif p[0] == "n":
            yield "<n>", p[1]
        else:
            yield "<b>", ""


def xml(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def side_xml(parts, how):
    o = []
    for p in parts:
        o.append(xml(p) if isinstance(p, str) else p[1] if p[0] == "n" else '<ph x="1"/>' if how else '<hi></hi>')
    return "".join(o)


def strip(l):
    while l and isspace(l[-1]):
        l.pop()
    while l and isspace(l[0]):
        l.pop(0)
    return l


def compile_unit(src, trg):
    """None or (source symbols, target pieces): a piece is text, a number index or the place of a blank"""
    s, t, nums = [], [], []
    for y, x in segs(src):
        if y == "<n>":
            nums.append(x)
        s.append(y)
    for y, x in segs(trg):
        if y == "<n>":
            if x not in nums:
                if nums:
                    return False
                t.extend(x)
                continue
            t.append(nums.index(x) + 1)
        else:
            t.append(y)

    def trim(l):
        while l and isinstance(l[-1], str) and isspace(l[-1][0]):
            l.pop()
        while l and isinstance(l[0], str) and isspace(l[0][0]):
            l.pop(0)
        return l

    def parts(l):
        r = [[]]
        for x in l:
            if x == "<b>":
                r.append([])
            else:
                r[-1].append(x)
        return [trim(x) for x in r]
    s, t = trim(s), trim(t)
    if s[:1] == ["<b>"] or t[:1] == ["<b>"]:
        return None
    so, to = parts(s), parts(t)
    if any(not x for x in so + to):
        return False                    # placeholders side by side or at the end
    s = [y for i, x in enumerate(so) for y in ([" "] if i else []) + x]
    t = [y for i, x in enumerate(to) for y in ([None] if i else []) + x]
    if len(s) < 5 or sum(1 if isinstance(y, str) else 3 + len(str(y)) if y is not None else 3 for y in t) < 5:
        return None
    return tuple(s), tuple(t)


def toks(items):
    """(symbol, text) of a text"""
    r = []
    for it in items:
        if isinstance(it, str):
            i = 0
            while i < len(it):
                j = i
                while j < len(it) and it[j].isdigit():
                    j += 1
                if j > i:
                    r.append(("<n>", it[i:j]))
                    i = j
                else:
                    r.append((it[i], it[i]))
                    i += 1
        elif it[0] == "e":
            r.append((it[1], "\\" + it[1]))
        else:
            r.append((" ", gen.item_text(it)))
    # digits of neighbouring items are one number
    o = []
    for y, x in r:
        if y == "<n>" and o and o[-1][0] == "<n>":
            o[-1] = (y, o[-1][1] + x)
        else:
            o.append((y, x))
    return o


def translate(memory, ts, space):
    lex = proc.Lexicon({"m@standard": {(s, t): 0.0 for s, t in memory.items()}}, "")
    out, i, n = [], 0, len(ts)
    hits = 0

    def edge(j):
        return j >= n or ts[j][0] != "<n>" and (isspace(ts[j][0]) or ispunct(ts[j][0]))

    def bound(j):
        return j >= n or ts[j][0] != "<n>" and (ispunct(ts[j][0]) or space and isspace(ts[j][0]))
    while i < n:
        st, j, best = lex.start(), i, None
        while True:
            fin = lex.outputs(st)
            if fin and bound(j):
                best = (j, fin)
            st = lex.step(st, ts[j][0]) if j < n else set()
            if not st:
                break
            j += 1
        if best:
            j, fin = best
            if len(fin) > 1:
                return None, 0
            nums = [x for y, x in ts[i:j] if y == "<n>"]
            bl = [x for y, x in ts[i:j] if x[0] == "["]
            t = []
            for y in fin[0][0]:
                if y is None:
                    t.append(bl.pop(0)[1:-1] if bl else " ")
                elif isinstance(y, int):
                    t.append(nums[y - 1])
                else:
                    t.append(("\\" if y in ESCAPED else "") + y)
            out.append("[" + "".join(t) + "]")
            hits += 1
            i = j
            continue
        if j == i and edge(j):
            j += 1
        else:
            while not edge(j):
                j += 1
        out.append("".join(x for _, x in ts[i:j]))
        i = j
    return "".join(out), hits


class C(Check):
    id = "C22"
    quick_n = 30000
    thorough_n = 300000
    rule = ("random translation memory (several languages, language codes by option, numbers, placeholders, escapes, letters of one to "
            "four bytes, segments sharing prefixes, too short ones) compiled for one direction; random texts made of its segments, recased, with other numbers, their prefixes "
            "and extensions, other words, punctuation, superblanks and escapes, cut into parts by null characters; the whole output "
            "compared with a reference model; non-trivial: a segment is translated")
    technique = "model-based testing: reference translation memory"
    assumptions = ["numbers of the target segment occur in the source segment, if that has numbers", "no two segments that match the same text",
                   "numbers are stretches of digits; placeholders do not stand side by side"]

    def side(self, r, nums=None, words=None):
        o = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if o and isinstance(o[-1], str) and not o[-1].endswith(" ") or o and isinstance(o[-1], list) and o[-1][0] == "n":
                o.append(" ")
            if x < 0.25 and (nums is None or nums):
                o.append(["n", r.choice(nums or DIGITS)])
            elif x < 0.33 and o and not (isinstance(o[-1], list)) and "".join(p for p in o if isinstance(p, str)).strip():
                o.append(["ph"])
            else:
                w = "".join(r.choice(LETTERS) for _ in range(r.randint(1, 4)))
                if words and r.random() < 0.6:
                    w = r.choice(words)
                if r.random() < 0.15:
                    w += r.choice(PUNCT)
                o.append(w)
        if isinstance(o[-1], list) and o[-1][0] == "ph":
            o.append("ab")
        return o

    def gen(self, r, size):
        words = ["".join(r.choice(LETTERS) for _ in range(r.randint(1, 4))) for _ in range(4)]
        units = []
        for _ in range(r.randint(1, max(1, int(min(6, size))))):
            s = self.side(r, words=words)
            if units and r.random() < 0.3:
                s = r.choice(units)["l1"] + [" "] + s
            if r.random() < 0.08:               # more numbers than one digit can count
                for _ in range(r.randint(8, 12)):
                    s += [" ", ["n", str(r.randint(1, 999))]]
            u = {"l1": s, "l2": self.side(r, nums=[p[1] for p in s if isinstance(p, list) and p[0] == "n"] or r.choice([[], None]))}
            if r.random() < 0.3:
                u["l3"] = self.side(r)
            units.append(u)
        text = []
        for _ in range(r.randint(1, 4 + int(size))):
            if r.random() < 0.75:
                seg = []
                for p in r.choice(units)[r.choice(["l1", "l1", "l1", "l2"])]:
                    if isinstance(p, str):
                        for ch in p:
                            if ch == " " and r.random() < 0.1:
                                seg.append(["b", "<i>"])
                            elif ch in RESERVED:
                                seg.append(["e", ch])
                            else:
                                seg.append(ch.upper() if r.random() < 0.1 and len(ch.upper()) == 1 else ch)
                    elif p[0] == "n":
                        seg.append(r.choice([p[1], r.choice(DIGITS)]))
                    else:
                        seg.append(r.choice([" ", ["b", "<b>"], ["b", r.choice(["x", "\\]", ""])]]))
                if r.random() < 0.15:
                    seg = seg[:r.randint(0, len(seg))]
                text += seg
            else:
                text.append(r.choice(words + LETTERS + DIGITS))
            text.append(r.choice([" ", " ", ". ", ", ", "\n", "", "a", ["b", "<p>"], ["e", "/"], "1"]))
            if r.random() < 0.05:
                text.append(["z"])
        return {"units": units, "text": text, "space": r.random() < 0.6, "codes": r.choice(["plain", "plain", "options", "one"]), "style": r.randint(0, 7)}

    def ok_side(self, p):
        return isinstance(p, list) and p and all((isinstance(x, str) and x and not any(ch.isdigit() or ch in "#@" or ord(ch) < 32 for ch in x)) or
                                                 (isinstance(x, list) and (x == ["ph"] or len(x) == 2 and x[0] == "n" and x[1].isdigit())) for x in p) and \
            not any(isinstance(a, list) and isinstance(b, list) and a[0] == b[0] == "n" for a, b in zip(p, p[1:])) and \
            not any(isinstance(p[i], list) and p[i][0] == "n" and isinstance(p[i + 1], str) and p[i + 1][-1] in ".," and isinstance(p[i + 2], list) for i in range(len(p) - 2))

    def valid(self, c):
        return c["units"] and all(self.ok_side(p) for u in c["units"] for p in u.values()) and all("l1" in u and "l2" in u for u in c["units"]) and \
            gen.text_ok([x for x in c["text"] if x != ["z"]]) and c["codes"] in ("plain", "options", "one")

    def run(self, c, env):
        memory = {}
        for u in c["units"]:
            m = compile_unit(u["l1"], u["l2"])
            if m is False:
                raise Skip()
            if m:
                if memory.setdefault(m[0], m[1]) != m[1]:
                    raise Skip()
        st = c["style"]
        code = {"l1": "l1", "l2": "l2", "l3": "l3"}
        opts = []
        if c["codes"] != "plain":
            code["l1"], code["l3"] = "EN-US", "l1"
            opts = ["-o", "EN-US"]
        if c["codes"] == "options":
            code["l2"] = "l2-XX"
            opts += ["--meta-code", "l2-XX"]
        t = ['<?xml version="1.0" encoding="UTF-8"?>\n<tmx version="1.4"><header/><body>\n<!-- c -->']
        for u in c["units"]:
            t.append("<tu>" + ("\n  " if st & 1 else ""))
            for k in (sorted(u) if st & 2 else sorted(u, reverse=True)):
                t.append('<tuv %s="%s">%s<seg>%s</seg></tuv>' % ("xml:lang" if st & 4 else "lang", code[k], "\n" if st & 1 else "", side_xml(u[k], st & 2)))
            t.append("</tu>\n")
        t.append("</body></tmx>\n")
        b = env.path(".bin")
        env.ok("lt-tmxcomp", *(opts + ["l1-l2", env.write("".join(t), ".tmx"), b]))
        parts = [[]]
        for x in c["text"]:
            if x == ["z"]:
                parts.append([])
            else:
                parts[-1].append(x)
        exp, hits = [], 0
        for p in parts:
            e, h = translate(memory, toks(p), c["space"])
            if e is None:
                raise Skip()
            exp.append(e)
            hits += h
        exp = "\0".join(exp) + "\0"
        inp = "\0".join(gen.text_str(p) for p in parts)
        out = env.ok("lt-tmxproc", *((["-s"] if c["space"] else []) + [b]), inp=inp).out
        try:
            out = out.decode("utf-8")
        except UnicodeDecodeError:
            raise Fail("the output is not valid UTF-8: %r" % out)
        if out.rstrip("\0") != exp.rstrip("\0"):
            raise Fail("for %r expected %r, got %r" % (inp, exp, out))
        labels = set()
        if any(y is None for v in memory.values() for y in v):
            labels.add("placeholder")
        if any(isinstance(y, int) for v in memory.values() for y in v):
            labels.add("number")
        if c["codes"] != "plain":
            labels.add("codes")
        return hits > 0, labels


CHECK = C()
