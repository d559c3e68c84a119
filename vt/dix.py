"""Dictionaries as JSON values: generator, XML writer and denotational model.

dictionary: {"alphabet": str, "sdefs": [tag], "pardefs": [[name, [entry]]], "sections": [[id, type, [entry]]]}
entry:      {"items": [item], optional "?r","?i","?alt","?v","?vl","?vr","?w","?lm","?c"}
item:       ["i", [sym]] | ["p", [sym], [sym]] | ["ig", [sym]] | ["par", name] | ["re", re-ast]
sym:        one-character string | "<tag>" | "B" blank -> ["b"], ["j"], ["a"], ["m"], ["g", [sym]]
re-ast:     ["c", ch] | ["cat", [re]] | ["alt", [re]] | ["q", re, "*+?"] | ["set", neg, [[lo, hi]]]
"""
from xml.sax.saxutils import escape, quoteattr
from .fst import TooBig

TYPES = ("standard", "inconditional", "postblank", "preblank")


# ------------------------------------------------------------------ XML
def sym_xml(s):
    if isinstance(s, str):
        if s.startswith("<") and len(s) > 1:
            return "<s n=%s/>" % quoteattr(s[1:-1])
        return escape(s)
    if s[0] == "g":
        return "<g>%s</g>" % "".join(map(sym_xml, s[1])) if s[1] else "<g/>"
    return "<%s/>" % s[0]


def syms_xml(l):
    return "".join(map(sym_xml, l))


RESERVED = set("()[]*?+-^\\|")


def re_str(r, top=True):
    k = r[0]
    if k == "c":
        return ("\\" if r[1] in RESERVED else "") + r[1]
    if k == "cat":
        return "".join(re_str(x, False) if x[0] != "alt" else "(" + re_str(x) + ")" for x in r[1])
    if k == "alt":
        s = "|".join(re_str(x, False) if x[0] != "alt" else "(" + re_str(x) + ")" for x in r[1])
        return s
    if k == "q":
        x = r[1]
        return (re_str(x, False) if x[0] in ("c", "set") else "(" + re_str(x) + ")") + r[2]
    if k == "set":
        e = lambda c: ("\\" if c in RESERVED else "") + c
        return "[" + ("^" if r[1] else "") + "".join(e(a) if a == b else e(a) + "-" + e(b) for a, b in r[2]) + "]"
    raise ValueError(r)


def item_xml(it):
    k = it[0]
    if k in ("i", "ig"):
        return "<%s>%s</%s>" % (k, syms_xml(it[1]), k)
    if k == "p":
        return "<p><l>%s</l><r>%s</r></p>" % (syms_xml(it[1]), syms_xml(it[2]))
    if k == "par":
        return "<par n=%s/>" % quoteattr(it[1])
    if k == "re":
        return "<re>%s</re>" % escape(re_str(it[1]))
    raise ValueError(it)


def entry_xml(e):
    a = "".join(" %s=%s" % (k[1:], quoteattr(str(v))) for k, v in e.items() if k.startswith("?"))
    return "<e%s>%s</e>" % (a, "".join(map(item_xml, e["items"])))


def to_xml(d):
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n<dictionary>\n<alphabet>%s</alphabet>\n<sdefs>\n' % escape(d["alphabet"])]
    for s in d["sdefs"]:
        o.append("<sdef n=%s/>\n" % quoteattr(s))
    o.append("</sdefs>\n")
    if d["pardefs"]:
        o.append("<pardefs>\n")
        for n, es in d["pardefs"]:
            o.append("<pardef n=%s>\n%s\n</pardef>\n" % (quoteattr(n), "\n".join(map(entry_xml, es))))
        o.append("</pardefs>\n")
    for i, t, es in d["sections"]:
        o.append('<section id=%s type=%s>\n%s\n</section>\n' % (quoteattr(i), quoteattr(t), "\n".join(map(entry_xml, es))))
    o.append("</dictionary>\n")
    return "".join(o)


# ------------------------------------------------------------------ model
def flat(l, opts):
    r = []
    for s in l:
        if isinstance(s, str):
            r.append(s)
        elif s[0] == "b":
            r.append(" ")
        elif s[0] == "j":
            r.append("+")
        elif s[0] == "a":
            r.append("~")
        elif s[0] == "m":
            if opts.get("m"):
                r.append(">")
        elif s[0] == "g":
            r.append("#")
            r += flat(s[1], opts)
    return tuple(r)


def re_lang(r, k):
    """All strings of the expression with at most k symbols."""
    t = r[0]
    if t == "c":
        return {(r[1],)} if k >= 1 else set()
    if t == "set":
        chars = set()
        for a, b in r[2]:
            for c in range(ord(a), ord(b) + 1):
                chars.add(chr(c))
        if r[1]:
            chars = {chr(c) for c in range(32, 256)} - chars
        return {(c,) for c in chars} if k >= 1 else set()
    if t == "alt":
        s = set()
        for x in r[1]:
            s |= re_lang(x, k)
        return s
    if t == "cat":
        s = {()}
        for x in r[1]:
            l = re_lang(x, k)
            s = {a + b for a in s for b in l if len(a) + len(b) <= k}
            if len(s) > 20000:
                raise TooBig()
        return s
    if t == "q":
        l = re_lang(r[1], k)
        if r[2] == "?":
            return l | {()}
        s = set(l)
        cur = set(l)
        while True:
            cur = {a + b for a in cur for b in l if b and len(a) + len(b) <= k} - s
            if not cur:
                break
            s |= cur
            if len(s) > 20000:
                raise TooBig()
        if r[2] == "*":
            s.add(())
        return s
    raise ValueError(r)


def re_cyclic(r):
    t = r[0]
    if t in ("c", "set"):
        return False
    if t == "q":
        return r[2] != "?" or re_cyclic(r[1])
    return any(re_cyclic(x) for x in r[1])


def is_cyclic(d):
    return any(it[0] == "re" and re_cyclic(it[1]) for e in all_entries(d) for it in e["items"])


def all_entries(d):
    for _, es in d["pardefs"]:
        yield from es
    for _, _, es in d["sections"]:
        yield from es


def sel(o, key):
    """the selected values (lt-restrict takes several)"""
    return set(o.get(key, "").split(" "))


def keeps(e, direction, o):
    """Is the entry part of the dictionary compiled in this direction with these options?"""
    if e.get("?i") == "yes":
        return False
    r = e.get("?r", "")
    if r and r != direction.upper():
        return False
    alt = e.get("?alt", "")
    if alt and not sel(o, "alt") & set(alt.split(" ")):
        return False
    v = e.get("?v", "")
    if v and o.get("v", "") and not sel(o, "v") & set(v.split(" ")):
        return False
    if direction == "rl":
        vl = e.get("?vl", "")
        if vl and not sel(o, "vl") & set(vl.split(" ")):
            return False
    else:
        vr = e.get("?vr", "")
        if vr and not sel(o, "vr") & set(vr.split(" ")):
            return False
    return True


def merge(rel, k, w):
    if k not in rel or w < rel[k]:
        rel[k] = w


class Model:
    """Relations (left, right) -> weight of every paradigm and section."""

    def __init__(self, d, direction, opts=None, k=10 ** 6, cap=20000, keep=keeps):
        self.opts = opts or {}
        self.dir, self.k, self.cap, self.keep = direction, k, cap, keep
        self.pars = {}
        for n, es in d["pardefs"]:
            rel = self.pars.setdefault(n, {})
            for e in es:
                self.add(rel, e)
        self.sections = {}
        for i, t, es in d["sections"]:
            rel = self.sections.setdefault(i + "@" + t, {})
            for e in es:
                self.add(rel, e)

    def item(self, it, w):
        """relation of one item, and whether it carries the entry's weight"""
        if it[0] == "i":
            f = flat(it[1], self.opts)
            return {(f, f): w if f else 0.0}
        if it[0] == "ig":
            f = flat(it[1], self.opts)
            return {(f, ("#",) + f): w}
        if it[0] == "p":
            l, r = flat(it[1], self.opts), flat(it[2], self.opts)
            return {(l, r): w if l or r else 0.0}
        if it[0] == "par":
            return self.pars[it[1]]
        if it[0] == "re":
            return {(s, s): 0.0 for s in re_lang(it[1], min(self.k, 200))}
        raise ValueError(it)

    def entry(self, e):
        w = float(e.get("?w", 0) or 0)
        cur = {((), ()): 0.0}
        for it in e["items"]:
            rel = self.item(it, w)
            nxt = {}
            for (a, b), x in cur.items():
                for (c, d2), y in rel.items():
                    l, r = a + c, b + d2
                    if (len(l) if self.dir == "lr" else len(r)) <= self.k:
                        merge(nxt, (l, r), x + y)
            cur = nxt
            if len(cur) > self.cap:
                raise TooBig()
        return cur

    def add(self, rel, e):
        if not self.keep(e, self.dir, self.opts):
            return
        for k, w in self.entry(e).items():
            merge(rel, k, w)

    def directed(self):
        """section name -> relation (input, output) in the compiled direction"""
        res = {}
        for n, rel in self.sections.items():
            if self.dir == "lr":
                res[n] = dict(rel)
            else:
                o = {}
                for (l, r), w in rel.items():
                    merge(o, (r, l), w)
                res[n] = o
        return res


def firsts(d, direction, opts=None, keep=keeps):
    """section name -> set of first input symbols ("" when the input side can be empty);
    exact also where regular expressions make the relation infinite"""
    o = opts or {}
    pars = {}

    def re_first(r):
        t = r[0]
        if t == "c":
            return {r[1]}
        if t == "set":
            return {x[0] for x in re_lang(r, 1)}
        if t == "alt":
            return set().union(*map(re_first, r[1]))
        if t == "cat":
            return seq(map(re_first, r[1]))
        return re_first(r[1]) | ({""} if r[2] in "*?" else set())

    def seq(sets):
        cur = {""}
        for x in sets:
            if "" not in cur:
                if not x:
                    return set()
                continue
            cur = (cur - {""}) | x if x else set()
            if not cur:
                return cur
        return cur

    def item(it):
        if it[0] in ("i", "ig", "p"):
            l = flat(it[1], o)
            rr = l if it[0] == "i" else ("#",) + l if it[0] == "ig" else flat(it[2], o)
            x = l if direction == "lr" else rr
            return {x[0] if x else ""}
        return pars[it[1]] if it[0] == "par" else re_first(it[1])

    def entries(es):
        return set().union(*[seq(map(item, e["items"])) for e in es if keep(e, direction, o)])
    for n, es in d["pardefs"]:
        pars[n] = pars.get(n, set()) | entries(es)
    res = {}
    for i, t, es in d["sections"]:
        res[i + "@" + t] = res.get(i + "@" + t, set()) | entries(es)
    return res


def valid(d):
    """Well-formedness used when shrinking: references resolve, names unique, shapes right."""
    defined = []
    tags = set(d["sdefs"])
    if len(tags) != len(d["sdefs"]) or any(not t for t in tags):
        return False

    def sym_ok(s, depth=0):
        if isinstance(s, str):
            if len(s) > 1:
                return s[0] == "<" and s[-1] == ">" and s[1:-1] in tags
            return len(s) == 1
        if not isinstance(s, list) or not s:
            return False
        if s[0] == "g":
            return depth == 0 and len(s) == 2 and isinstance(s[1], list) and all(sym_ok(x, 1) for x in s[1])
        return s[0] in ("b", "j", "a", "m") and len(s) == 1

    def re_ok(r):
        if not isinstance(r, list) or not r:
            return False
        if r[0] == "c":
            return len(r) == 2 and len(r[1]) == 1
        if r[0] in ("cat", "alt"):
            return len(r) == 2 and isinstance(r[1], list) and len(r[1]) > 0 and all(map(re_ok, r[1]))
        if r[0] == "q":
            return len(r) == 3 and r[2] in ("*", "+", "?") and re_ok(r[1])
        if r[0] == "set":
            return len(r) == 3 and isinstance(r[1], bool) and len(r[2]) > 0 and all(
                len(x) == 2 and len(x[0]) == 1 and len(x[1]) == 1 and x[0] <= x[1] for x in r[2])
        return False

    def entry_ok(e, cur):
        if not e["items"]:
            return False
        for it in e["items"]:
            if not it:
                return False
            if it[0] in ("i", "ig"):
                if len(it) != 2 or not all(map(sym_ok, it[1])):
                    return False
            elif it[0] == "p":
                if len(it) != 3 or not all(map(sym_ok, it[1] + it[2])):
                    return False
            elif it[0] == "par":
                if len(it) != 2 or it[1] not in defined or it[1] == cur:
                    return False
            elif it[0] == "re":
                if len(it) != 2 or not re_ok(it[1]):
                    return False
            else:
                return False
        for k in ("?r",):
            if k in e and e[k] not in ("LR", "RL"):
                return False
        for k in ("?alt", "?v", "?vl", "?vr", "?i"):
            if k in e and not e[k]:
                return False
        return True

    for p in d["pardefs"]:
        if len(p) != 2 or not p[0] or p[0] in defined or not p[1]:
            return False
        if not all(entry_ok(e, p[0]) for e in p[1]):
            return False
        defined.append(p[0])
    ids = set()
    for s in d["sections"]:
        if len(s) != 3 or not s[0] or s[0] in ids or s[1] not in TYPES or not s[2]:
            return False
        ids.add(s[0])
        if not all(entry_ok(e, None) for e in s[2]):
            return False
    return bool(d["sections"])
