"""Streams read through the library: InputFile and StreamReader."""
from ..core import Check, Fail, Skip

EOF = 0xffff
MARKS = "*@#=%"
CH = ["a", "b", "B", "é", "漢", "😀", "𐐀", " ", "\n", "1", "_", "+", "~", "ÿ", "\u07ff", "\u0800", "\U0010fffd"]
ODD = ["^", "$", "/", "<", ">", "[", "]", "[[", "]]", "[[/]]", "\\", "{", "}", "*", "@", "#", "=", "%", "\0"]
TAGS = ["n", "sg", "é", "x\\>y", "*", "a b", "@", "MERGED", ""]


def hex16(s):
    return s.encode("utf-16-be", "surrogatepass").hex()


class Input:
    def __init__(self):
        self.text, self.pos, self.back, self.eof, self.open = "", 0, [], False, False

    def start(self, text):
        self.text, self.pos, self.back, self.eof, self.open = text, 0, [], False, True

    def get(self):
        if self.back:
            return self.back.pop()
        if self.pos < len(self.text):
            self.pos += 1
            return self.text[self.pos - 1]
        self.eof = True
        return None

    def unget(self, c):
        self.back.append(c)

    def peek(self):
        c = self.get()
        self.unget(c)
        return c

    def escaped(self):
        """the character after a backslash, unless the text breaks off there"""
        c = self.get()
        if c is None or c == "\0":
            self.unget(c)
            return ""
        return c

    def block(self, start, end):
        o = start
        while True:
            c = self.get()
            if c is None or c == "\0":
                self.unget(c)
                return o
            o += c
            if c == "\\":
                o += self.escaped()
            elif c == end:
                return o

    def wblank(self):
        o = "[["
        while True:
            c = self.get()
            if c is None or c == "\0":
                self.unget(c)
                return o
            o += c
            if c == "\\":
                o += self.escaped()
            elif c == "]" and self.peek() == "]":
                return o + self.get()

    def blank(self, readw):
        o = ""
        while True:
            c = self.get()
            if c is None or c in "^\0":
                self.unget(c)
                return o
            if c == "[":
                d = self.get()
                if d == "[":
                    if not readw:
                        self.unget(d)
                        self.unget(c)
                        return o
                    o += self.wblank()
                else:
                    self.unget(d)
                    o += self.block("[", "]")
            elif c == "\\":
                e = self.escaped()
                if not e:
                    raise Skip()        # refused
                o += c + e
            else:
                o += c


def block(t, i, end):
    """index behind the block that starts at i"""
    while i < len(t) and t[i] != "\0":
        if t[i] == "\\":
            i += 1
            if i < len(t) and t[i] != "\0":
                i += 1
        elif t.startswith(end, i):
            return i + len(end)
        else:
            i += 1
    return i


def units(t, known, add):
    """what a reader finds: (blank, word-bound blank, chunk, null, end, readings)"""
    i, n = 0, len(t)
    known = set(known) if known is not None else None
    while True:
        b = w = ""
        while True:
            if i >= n:
                yield b, "", "", 0, 1, []
                return
            if t[i] == "\0":
                i += 1
                yield b, "", "", 1, 0, []
                b = ""
                continue
            if t[i] == "^":
                i += 1
                break
            j = i + 1
            if t.startswith("[[", i):
                j = block(t, i + 2, "]]")
                if t[j:j + 1] == "^":
                    w = t[i:j]
                    i = j + 1
                    break
            elif t[i] == "[":
                j = block(t, i + 1, "]")
            elif t[i] == "\\":
                if t[i + 1:i + 2] in ("", "\0"):
                    raise Skip()        # refused
                j = i + 2
            b += t[i:j]
            i = j
        rs, chunk = [], ""
        while True:
            mark, content, syms = "", "", []
            if i < n and t[i] in MARKS:
                mark = t[i]
                i += 1
            while i < n and t[i] not in "/$\0":
                if t[i] == "<":
                    j = block(t, i + 1, ">")
                    tag = t[i:j]
                    content += tag
                    if add and known is not None:
                        known.add(tag)
                    syms.append(tag if known is not None and tag in known else 0)
                    i = j
                elif t[i] == "{":
                    j = block(t, i + 1, "}")
                    chunk += t[i:j]
                    i = j
                elif t[i] == "\\":
                    if t[i + 1:i + 2] not in ("", "\0"):
                        content += t[i:i + 2]
                        syms.append(ord(t[i + 1]))
                    i += 2 if t[i + 1:i + 2] not in ("", "\0") else 1
                else:
                    content += t[i]
                    syms.append(ord(t[i]))
                    i += 1
            rs.append((mark, content, syms if known is not None else []))
            end = t[i] if i < n else None
            i += 1
            if end != "/":
                break
        yield b, w, chunk, int(end == "\0"), int(end is None), rs
        if end is None:
            return


class C(Check):
    id = "C29"
    variants = ("harness", "harness-asan")
    quick_n = 40000
    thorough_n = 1500000
    rule = ("random streams of units (several readings, marks, tags, chunks, escapes), blanks, word-bound blanks and null characters, many of them "
            "broken off or malformed; all that a StreamReader finds in them, with and without an alphabet, and all results of random "
            "histories of reading, looking ahead, putting back, rewinding and reopening on an InputFile, compared with a reference "
            "parser; non-trivial: at least 8 characters and 3 units or operations")
    technique = "model-based testing: reference parser of streams and operation histories on inputs (also under AddressSanitizer and UBSan)"
    assumptions = ["the text is valid UTF-8 without U+FFFF", "at most three characters are put back", "a backslash at the end of a blank is refused"]

    def text(self, r, size):
        odd = r.choice([0, 0, 0.05, 0.3])
        o = []

        def word(n):
            return "".join(r.choice(CH) if r.random() < 0.8 else "\\" + r.choice(ODD[:-1] + CH)[0] for _ in range(r.randint(0, n)))

        def tag():
            return "<" + r.choice(TAGS) + ">"
        for _ in range(r.randint(0, 1 + int(size * 2))):
            if r.random() < odd:
                o.append(r.choice(ODD))
                continue
            x = r.random()
            if x < 0.4:
                u = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    u.append((r.choice(MARKS) if r.random() < 0.25 else "") + word(3) + "".join(tag() for _ in range(r.choice([0, 1, 1, 2]))) +
                             (r.choice(["+b<n>", "# q", "{^a<n>$ ^b$}", "{}", "{\\}}", "{a[b]}"]) if r.random() < 0.2 else ""))
                o.append(("[[" + r.choice(["a", "t:b:1", "a; b", "\\]", "]a", "", "😀"]) + "]]" if r.random() < 0.3 else "") + "^" + "/".join(u) + "$")
            elif x < 0.7:
                o.append(word(3))
            elif x < 0.8:
                o.append("[" + r.choice(["", "<b>", "\\]", "^a$", "[", "a [", "\n", "é"]) + "]")
            elif x < 0.88:
                o.append("[[" + r.choice(["/", "a", "]x", ""]) + "]]")
            elif x < 0.93:
                o.append("\0")
            else:
                o.append(r.choice(CH))
        t = "".join(o)
        if r.random() < 0.25:
            t = t[:r.randint(0, len(t))]
        return t

    def gen(self, r, size):
        if r.random() < 0.5:
            return {"kind": "reader", "text": self.text(r, size), "alpha": r.choice("-01"), "known": ["<%s>" % t for t in TAGS if t and r.random() < 0.5],
                    "asan": r.random() < 0.2}
        texts = [self.text(r, size) for _ in range(r.randint(1, 2))]
        ops = [[r.choice(["open", "open", "wrap", "mem", "std"]), 0]]
        for _ in range(r.randint(2, 4 + int(size * 4))):
            x = r.random()
            if x < 0.4:
                ops.append(["get"])
            elif x < 0.55:
                ops.append(["peek"])
            elif x < 0.66:
                ops.append(["unget", r.choice(["", "", ord(r.choice(CH))])])
            elif x < 0.72:
                ops.append(["eof"])
            elif x < 0.78:
                ops.append(["block", *r.choice([["[", "]"], ["<", ">"], ["{", "}"]])])
            elif x < 0.84:
                ops.append(["wblank"])
            elif x < 0.92:
                ops.append(["blank", r.randint(0, 1)])
            elif x < 0.96:
                ops.append(["rewind"])
            else:
                ops.append([r.choice(["open", "wrap", "mem", "std"]), r.randrange(len(texts))])
        return {"kind": "input", "texts": texts, "ops": ops, "asan": r.random() < 0.2}

    def valid(self, c):
        ts = [c["text"]] if c["kind"] == "reader" else c["texts"]
        for t in ts:
            t.encode("utf-8")
            if "\uffff" in t:
                return False
        if c["kind"] not in ("reader", "input"):
            return False
        if c["kind"] == "reader":
            return c["alpha"] in ("-", "0", "1") and all(k[:1] == "<" and k[-1:] == ">" and len(k) > 2 for k in c["known"])
        return bool(c["ops"]) and c["ops"][0][0] in ("open", "wrap", "mem", "std") and all(
            o[0] in ("open", "wrap", "mem", "std") and 0 <= o[1] < len(ts) or o[0] in ("get", "peek", "eof", "wblank", "rewind") or
            o[0] == "block" and len(o) == 3 and o[1] + o[2] in ("[]", "<>", "{}") or o[0] == "blank" and o[1] in (0, 1) or
            o[0] == "unget" and (o[1] == "" or 0 < o[1] < 0x110000 and o[1] != EOF and not 0xd800 <= o[1] < 0xe000) for o in c["ops"])

    def run(self, c, env):
        variant = "harness-asan" if c["asan"] else "harness"
        if c["kind"] == "reader":
            want = []
            for b, w, ch, z, e, rs in units(c["text"], None if c["alpha"] == "-" else c["known"], c["alpha"] == "1"):
                want.append("\t".join([hex16(b), hex16(w), hex16(ch), str(z), str(e)] +
                                      [" ".join([str(ord(m) if m else 0), hex16(x)] + ["t" + hex16(y) if isinstance(y, str) else str(y) for y in ys]) for m, x, ys in rs]))
            f = env.write(c["text"], ".txt")
            got = env.ok("harness", "reader", f, c["alpha"], *c["known"], variant=variant).text.split("\n")[:-1]
            want.append("again\t00001")
            if got != want:
                for n, (g, w) in enumerate(zip(got + [None] * len(want), want + [None] * len(got))):
                    if g != w:
                        raise Fail("stream %r, unit %d\nexpected %r\ngot      %r\n(blank, word-bound blank, chunk, null, end, readings: mark, content, symbols)" % (c["text"], n, w, g))
            return len(c["text"]) >= 8 and len(want) > 3, {"reader", "alpha" + c["alpha"]} | ({"broken"} if "^" in c["text"] and want[-2].count("\t") > 4 else set())
        m = Input()
        lines, want, labels = [], [], set()
        last = None
        texts = c["texts"]
        for o in c["ops"]:
            k, x = o[0], None
            if k not in ("open", "wrap", "mem", "std") and not m.open:
                raise Skip()
            if k in ("open", "wrap", "mem", "std"):
                t = texts[o[1]]
                if k == "mem":
                    t = t.split("\0")[0]
                    if not t:
                        continue
                if m.back:
                    labels.add("reopen-pending")
                m.start(t)
                x = 1
            elif k == "rewind":
                if m.back:
                    labels.add("rewind-pending")
                m.start(m.text)
                x = 1
            elif k in ("get", "peek"):
                y = m.get() if k == "get" else m.peek()
                x = EOF if y is None else ord(y)
                if k == "get":
                    last = y
            elif k == "unget":
                if len(m.back) > 2 or m.eof or o[1] == "" and last is None:
                    continue
                m.unget(last if o[1] == "" else chr(o[1]))
                x = 1
            elif k == "eof":
                if m.back and m.eof:
                    continue
                x = int(m.eof)
            else:
                if m.eof:
                    continue
                x = hex16(m.block(o[1], o[2]) if k == "block" else m.wblank() if k == "wblank" else m.blank(o[1]))
            labels.add(k)
            lines.append("\t".join(str(y) for y in o))
            want.append(str(x))
        fs = [env.write(t, ".txt") for t in texts]
        got = env.ok("harness", "input", *fs, inp="\n".join(lines) + "\n", variant=variant).text.split("\n")[:-1]
        for n, w in enumerate(want):
            if n >= len(got) or got[n] != w:
                raise Fail("texts %r\n%s\n%r: expected %s, got %s" % (texts, "\n".join(lines[:n + 1]), lines[n].split("\t")[0], w, got[n] if n < len(got) else None))
        return len(lines) >= 3 and max(len(t) for t in texts) >= 8, labels


CHECK = C()
