"""Reference model of lt-proc's lookups, on relations instead of transducers.

A lexicon is built from {section name: {(input tuple, output tuple): weight}}.  Symbols are
one-character strings or "<tag>".  Nothing here shares code or data structures with the
implementation: a state is the set of (prefix, dirty) pairs of inputs still possible."""
from . import uni
from .uni import ESCAPED, isalnum, isspace, isupper, tolower, toupper


class Lexicon:
    def __init__(self, sections, letters):
        self.letters = set(letters)
        self.entries = {}       # input -> {section type: [(output, weight)]}
        self.prefixes = {()}
        for name, rel in sections.items():
            t = name.rsplit("@", 1)[1]
            for (i, o), w in rel.items():
                self.entries.setdefault(i, {}).setdefault(t, []).append((o, w))
        for i in self.entries:
            for n in range(len(i)):
                self.prefixes.add(i[:n + 1])
        if not self.entries:
            self.prefixes = set()

    def alpha(self, c):
        return len(c) == 1 and (isalnum(c) or c in self.letters)

    def types(self, state):
        r = set()
        for p, _ in state:
            r |= set(self.entries.get(p, ()))
        return r

    def outputs(self, state):
        """[(output, dirty, weight)] of the finals of a state set"""
        r = []
        for p, d in state:
            for t, l in self.entries.get(p, {}).items():
                for o, w in l:
                    r.append((o, d, w))
        return r

    def start(self):
        return {((), False)} if self.prefixes else set()

    def step(self, state, c, sensitive=False):
        r = set()
        for p, d in state:
            q = p + (c,)
            if q in self.prefixes:
                r.add((q, d))
            if len(c) == 1 and not sensitive and isupper(c):
                l = tolower(c)
                if l != c:
                    q = p + (l,)
                    if q in self.prefixes:
                        r.add((q, True))
        return r

    def lookup(self, syms, sensitive=False):
        s = self.start()
        for c in syms:
            s = self.step(s, c, sensitive)
        return s


def render(out, upper_all, upper_first, escape=True):
    t = []
    for s in out:
        if len(s) > 1:
            t.append(s)
            continue
        if upper_all:
            s = toupper(s)
        if escape and s in ESCAPED:
            t.append("\\")
        t.append(s)
    t = [c for s in t for c in ([s] if len(s) == 1 else list(s))]
    if upper_first:
        loc = 1 if t and t[0] == "~" else 0
        if loc < len(t):
            t[loc] = toupper(t[loc])
    return "".join(t)


def readings(outs, upper_all, upper_first):
    """{reading text: minimal weight}"""
    r = {}
    for o, d, w in outs:
        x = render(o, upper_all and d, upper_first and d)
        if x not in r or w < r[x]:
            r[x] = w
    return r


def cut(rs, n=None, l=None):
    """What -N and -L leave: (texts that must be present, texts that may be, how many)."""
    items = sorted(rs.items(), key=lambda kv: kv[1])
    if l is not None:
        classes = []
        for _, w in items:
            if not classes or abs(classes[-1] - w) > 1e-9:
                classes.append(w)
        classes = classes[:l]
        items = [kv for kv in items if classes and kv[1] <= classes[-1] + 1e-9]
    if n is not None and len(items) > n:
        w = items[n - 1][1]
        must = {k for k, x in items[:n] if x < w - 1e-9}
        return must, {k for k, x in items if x <= w + 1e-9}, n
    return {k for k, _ in items}, {k for k, _ in items}, len(items)


# ------------------------------------------------------------------ analysis
class Tok:
    """One symbol as the analyser sees it, and the blank text behind it."""
    __slots__ = ("c", "blank")

    def __init__(self, c, blank=None):
        self.c, self.blank = c, blank


def case_of(sf, dictcase=False):
    if dictcase or not sf:
        return False, False
    f = isupper(sf[0])
    return f and len(sf) > 1 and isupper(sf[-1]), f


def analyse(lex, toks, sensitive=False, dictcase=False, last="std", compound=None):
    """toks: list of Tok.  Returns a list of ("raw", text) and ("lu", surface, readings dict or
    None for unknown)."""
    out = []

    def raw(x):
        if x == "":
            return
        if out and out[-1][0] == "raw":
            out[-1] = ("raw", out[-1][1] + x)
        else:
            out.append(("raw", x))

    def char(t):
        if t.blank is not None:
            raw(t.blank)
        elif isspace(t.c):
            raw(t.c)
        else:
            raw(("\\" if t.c in ESCAPED else "") + t.c)
    n, i = len(toks), 0
    while i < n:
        # longest match starting at i
        st = lex.start()
        best = None                  # (length, kind, readings)
        j = i
        while st:
            if j > i:
                ty = lex.types(st)
                if ty:
                    kind = None
                    for k in ("inconditional", "postblank", "preblank"):
                        if k in ty:
                            kind = k
                            break
                    if kind is None and not (j < n and lex.alpha(toks[j].c)):
                        kind = "standard"
                    if kind:
                        sf = [t.c for t in toks[i:j]]
                        best = (j - i, kind, readings(lex.outputs(st), *case_of(sf, dictcase)))
            if j >= n:
                break
            st = lex.step(st, toks[j].c, sensitive)
            j += 1
        if best:
            ln, kind, rs = best
            sf = "".join(t.c for t in toks[i:i + ln])
            if kind == "preblank":
                raw(" ")
            out.append(("lu", sf, rs))
            # blanks inside a multiword: plain spaces vanish into it; from the first other
            # blank on, they follow it
            bl = [t.blank for t in toks[i:i + ln] if t.blank is not None]
            while bl and bl[0] == " ":
                bl.pop(0)
            raw("".join(bl))
            if kind == "postblank":
                raw(" ")
            i += ln
            continue
        if not lex.alpha(toks[i].c):
            char(toks[i])
            i += 1
            continue
        j = i
        while j < n and lex.alpha(toks[j].c):
            j += 1
        word = "".join(t.c for t in toks[i:j])
        rs = None
        if compound:
            rs = compound(word)
        if not rs and not sensitive:
            low = word.lower()
            st = lex.lookup(low)
            o = lex.outputs(st)
            if compound:
                o = compound.prune(o)
            if o:
                rs = readings(o, *case_of(low, dictcase))
            elif compound:
                rs = compound(low)
        out.append(("lu", word, rs or None))
        i = j
    return out


# ------------------------------------------------------------------ streams
class BadStream(Exception):
    pass


def parse_stream(s):
    """Output of an analyser -> list of ("raw", text) | ("lu", [parts]) with parts split on
    unescaped '/' and left escaped."""
    out, i, n = [], 0, len(s)
    cur = []
    while i < n:
        c = s[i]
        if c == "\\":
            cur.append(s[i:i + 2])
            i += 2
        elif c == "[":
            w = s.startswith("[[", i)
            j = i + (2 if w else 1)
            while j < n and not (s.startswith("]]", j) if w else s[j] == "]"):
                j += 2 if s[j] == "\\" else 1
            j += 2 if w else 1
            cur.append(s[i:j])
            i = j
        elif c == "^":
            if cur:
                out.append(("raw", "".join(cur)))
                cur = []
            parts, p = [], []
            i += 1
            while True:
                if i >= n:
                    raise BadStream("unterminated lexical unit")
                c = s[i]
                if c == "\\":
                    p.append(s[i:i + 2])
                    i += 2
                elif c == "/":
                    parts.append("".join(p))
                    p = []
                    i += 1
                elif c == "$":
                    parts.append("".join(p))
                    i += 1
                    break
                elif c == "<":
                    j = s.find(">", i)
                    if j < 0:
                        raise BadStream("unterminated tag")
                    p.append(s[i:j + 1])
                    i = j + 1
                else:
                    p.append(c)
                    i += 1
            out.append(("lu", parts))
        else:
            cur.append(c)
            i += 1
    if cur:
        out.append(("raw", "".join(cur)))
    return out


def unescape(s):
    o, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            i += 1
        o.append(s[i])
        i += 1
    return "".join(o)
