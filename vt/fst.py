"""A small independent model of weighted transducers: parse what lt-print prints, and
enumerate the relation it denotes."""
from .core import Fail

EPS = ""
UNESC = {"@0@": "", "@_SPACE_@": " ", "@_TAB_@": "\t"}
CAP = 40000


class TooBig(Exception):
    pass


class Fst:
    def __init__(self):
        self.init = 0
        self.arcs = {}
        self.finals = {}

    def add(self, s, d, i, o, w):
        self.arcs.setdefault(s, []).append((i, o, d, w))
        self.arcs.setdefault(d, self.arcs.get(d, []))


def parse_att(text, hfst=True):
    """lt-print -H output -> list of Fst, one per section."""
    res = []
    if text == "":
        return res
    # a negated character class contains control characters, which lt-print writes raw; paths
    # through them are left out of the comparison (the model leaves them out as well)
    text = text.replace("\t\n\t\n\t", "\t\x01\t\x01\t")
    for block in text.split("--\n"):
        f = Fst()
        first = True
        for line in block.split("\n"):
            if line == "":
                continue
            c = line.split("\t")
            try:
                if len(c) == 5:
                    s, d, w = int(c[0]), int(c[1]), float(c[4])
                    if first:
                        f.init = s
                    if len(c[2]) == 1 and c[2] < " " or c[2] == "@_TAB_@":
                        continue
                    f.add(s, d, UNESC.get(c[2], c[2]), UNESC.get(c[3], c[3]), w)
                elif len(c) == 2:
                    if first:
                        f.init = int(c[0])
                    f.finals[int(c[0])] = float(c[1])
                else:
                    raise ValueError
            except ValueError:
                raise Fail("unexpected line in printed transducer: %r" % line)
            first = False
        res.append(f)
    return res


def relation(f, max_in=None, max_out=None, max_total=None, cap=CAP):
    """dict (input tuple, output tuple) -> minimal weight; restricted to |input| <= max_in
    (and |output| <= max_out) when given.  Exact for acyclic transducers without bounds."""
    # trim to co-accessible states so that dead ends do not blow up the enumeration
    rev = {}
    for s, l in f.arcs.items():
        for (_, _, d, _) in l:
            rev.setdefault(d, set()).add(s)
    co, todo = set(f.finals), list(f.finals)
    while todo:
        x = todo.pop()
        for y in rev.get(x, ()):
            if y not in co:
                co.add(y)
                todo.append(y)
    res = {}
    best = {(f.init, (), ()): 0.0}
    frontier = [(f.init, (), ())]
    steps = 0
    while frontier:
        nxt = []
        for key in frontier:
            s, i, o = key
            w = best[key]
            if s in f.finals:
                t = w + f.finals[s]
                k = (i, o)
                if k not in res or t < res[k]:
                    res[k] = t
            for (a, b, d, aw) in f.arcs.get(s, ()):
                if d not in co:
                    continue
                ni = i + (a,) if a else i
                no = o + (b,) if b else o
                if (max_in is not None and len(ni) > max_in) or (max_out is not None and len(no) > max_out) or \
                   (max_total is not None and len(ni) + len(no) > max_total):
                    continue
                nk = (d, ni, no)
                nw = w + aw
                old = best.get(nk)
                if old is None or nw < old - 1e-9:
                    best[nk] = nw
                    nxt.append(nk)
                    steps += 1
                    if steps > cap:
                        raise TooBig()
        frontier = list(dict.fromkeys(nxt))
    return res


def fmt(t):
    return "".join(x if len(x) == 1 or x.startswith("<") else "{%s}" % x for x in t)


def diff(expect, got, tol=2e-6, weights=True, limit=6):
    """Human-readable difference of two relations, or None."""
    out = []
    for k in sorted(set(expect) - set(got)):
        out.append("missing  %s : %s" % (fmt(k[0]), fmt(k[1])))
    for k in sorted(set(got) - set(expect)):
        out.append("extra    %s : %s" % (fmt(k[0]), fmt(k[1])))
    if weights:
        for k in sorted(set(got) & set(expect)):
            if abs(got[k] - expect[k]) > tol * max(1.0, abs(expect[k])):
                out.append("weight   %s : %s is %r, expected %r" % (fmt(k[0]), fmt(k[1]), got[k], expect[k]))
    if not out:
        return None
    return "\n".join(out[:limit]) + ("\n... %d differences" % len(out) if len(out) > limit else "")


def invert(rel):
    r = {}
    for (i, o), w in rel.items():
        if (o, i) not in r or w < r[(o, i)]:
            r[(o, i)] = w
    return r


def union(*rels):
    r = {}
    for x in rels:
        for k, w in x.items():
            if k not in r or w < r[k]:
                r[k] = w
    return r
