"""Independent reader and writer of the binary transducer files."""
import math, struct
from .fst import Fst


class Bad(Exception):
    pass


def mb(n):
    if n < 0x40:
        return bytes([n])
    if n < 0x4000:
        return bytes([0x40 | n >> 8, n & 255])
    if n < 0x400000:
        return bytes([0x80 | n >> 16, n >> 8 & 255, n & 255])
    if n < 0x40000000:
        return bytes([0xc0 | n >> 24, n >> 16 & 255, n >> 8 & 255, n & 255])
    raise ValueError(n)


def mb_long(v):
    m, e = math.frexp(v)
    out = b""
    for x in (int(m * 0x40000000), e):
        x &= 0xffffffff
        out += mb(x) if x < 0x04000000 else mb(0x04000000 | x >> 26) + mb(x & 0x03ffffff)
    return out


def mb_str(s):
    return mb(len(s)) + b"".join(mb(ord(c)) for c in s)


class R:
    def __init__(self, b):
        self.b, self.i = b, 0

    def mb(self):
        if self.i >= len(self.b):
            raise Bad("truncated")
        c = self.b[self.i]
        n = c >> 6
        v = c & 0x3f
        for k in range(n):
            if self.i + 1 + k >= len(self.b):
                raise Bad("truncated")
            v = v << 8 | self.b[self.i + 1 + k]
        self.i += n + 1
        return v

    def long(self):
        r = []
        for _ in range(2):
            u = self.mb()
            if u >= 0x04000000:
                u = (u & 0x03ffffff) << 26 | self.mb()
            u &= 0xffffffff
            r.append(u - (1 << 32) if u >= 1 << 31 else u)
        return math.ldexp(r[0] / 0x40000000, r[1])

    def str(self):
        return "".join(chr(self.mb()) for _ in range(self.mb()))

    def head(self, magic, known):
        if self.b[self.i:self.i + 4] == magic:
            f = struct.unpack(">Q", self.b[self.i + 4:self.i + 12])[0]
            if f & ~known:
                raise Bad("unknown features")
            self.i += 12
            return f
        return None


class File:
    """letters: list of characters; tags: list of names without brackets; pairs: list of
    (symbol number, symbol number); sections: {name: Trans}"""

    def __init__(self):
        self.letters, self.tags, self.pairs, self.sections = [], [], [], {}

    def sym(self, n):
        if n == 0:
            return ""
        return "<%s>" % self.tags[-n - 1] if n < 0 else chr(n)

    def fst(self, name, ctrl=True):
        t = self.sections[name]
        f = Fst()
        f.init = t[0]
        f.finals = dict(t[1])
        f.arcs = {s: [] for s in range(len(t[2]))}
        for s, l in enumerate(t[2]):
            for p, d, w in l:
                a, b = self.pairs[p]
                if ctrl or not 0 < a < 32:
                    f.arcs[s].append((self.sym(a), self.sym(b), d, w))
        return f


def read(data):
    r = R(data)
    f = File()
    r.head(b"LTTB", 0)
    f.letters = [chr(r.mb()) for _ in range(r.mb())]
    f.tags = [r.str() for _ in range(r.mb())]
    bias = len(f.tags)
    n = r.mb()
    for _ in range(n):
        a = r.mb() - bias
        b = r.mb() - bias
        f.pairs.append((a, b))
    for _ in range(r.mb()):
        name = r.str()
        w = bool(r.head(b"LTTD", 1))
        init = r.mb()
        finals, base = {}, 0
        for _ in range(r.mb()):
            base += r.mb()
            finals[base] = r.long() if w else 0.0
        n = r.mb()
        trans = []
        for s in range(n):
            tag, l = 0, []
            for _ in range(r.mb()):
                tag += r.mb()
                d = (s + r.mb()) % n
                l.append((tag, d, r.long() if w else 0.0))
                if tag >= len(f.pairs):
                    raise Bad("arc with symbol pair %d of %d" % (tag, len(f.pairs)))
            trans.append(l)
        if name in f.sections:
            raise Bad("two sections called %r" % name)
        f.sections[name] = (init, finals, trans)
    if r.i != len(data):
        raise Bad("%d bytes after the end" % (len(data) - r.i))
    return f


def write(f, header=True, weights=None):
    """weights: {section: write weights?}; without a header the file is of the old format"""
    o = [b"LTTB" + struct.pack(">Q", 0)] if header else []
    o.append(mb(len(f.letters)) + b"".join(mb(ord(c)) for c in f.letters))
    o.append(mb(len(f.tags)) + b"".join(map(mb_str, f.tags)))
    bias = len(f.tags)
    o.append(mb(len(f.pairs)) + b"".join(mb(a + bias) + mb(b + bias) for a, b in f.pairs))
    o.append(mb(len(f.sections)))
    for name in sorted(f.sections):
        init, finals, trans = f.sections[name]
        w = header and (any(finals.values()) or any(x[2] for l in trans for x in l) or bool(weights and weights.get(name)))
        o.append(mb_str(name))
        if header:
            o.append(b"LTTD" + struct.pack(">Q", 1 if w else 0))
        o.append(mb(init) + mb(len(finals)))
        base = 0
        for s in sorted(finals):
            o.append(mb(s - base))
            base = s
            if w:
                o.append(mb_long(finals[s]))
        n = len(trans)
        o.append(mb(n))
        for s, l in enumerate(trans):
            o.append(mb(len(l)))
            tag = 0
            for t, d, x in sorted(l):
                o.append(mb(t - tag) + mb((d - s) % n))
                tag = t
                if w:
                    o.append(mb_long(x))
    return b"".join(o)


def build(letters, sections):
    """sections: {name: Fst} -> File (states are renumbered 0..n-1 keeping order)"""
    f = File()
    f.letters = list(letters)
    tags, pairs = {}, {("", ""): 0}
    f.pairs.append((0, 0))

    def num(s):
        if s == "":
            return 0
        if len(s) == 1:
            return ord(s)
        if s not in tags:
            tags[s] = -len(tags) - 1
            f.tags.append(s[1:-1])
        return tags[s]
    for name in sorted(sections):
        t = sections[name]
        st = sorted(set(t.arcs) | {d for l in t.arcs.values() for (_, _, d, _) in l} | set(t.finals) | {t.init})
        ix = {s: i for i, s in enumerate(st)}
        tr = []
        for s in st:
            l = []
            for a, b, d, w in t.arcs.get(s, ()):
                k = (a, b)
                if k not in pairs:
                    pairs[k] = len(f.pairs)
                    f.pairs.append((num(a), num(b)))
                l.append((pairs[k], ix[d], w))
            tr.append(l)
        f.sections[name] = (ix[t.init], {ix[s]: w for s, w in t.finals.items()}, tr)
    return f
