"""Random dictionaries.  All choices come from the rng passed in."""
CORE = "abc"
EXTRA = ["d", "e", "A", "B", "é", "É", "ñ", "ß", "ı", "İ", "Ω", "ω", "д", "Д", "́", "𐐨", "𐐀", "𝜊", "1", "2", "'", "-", ".", "ʼ", "字"]
SPECIAL = list("+#~*@/^$[]{}\\<>&\"_:;,!?") + ["ε", "\u00a0", "\u00ad", "\u200d"]
TAGS = ["n", "v", "adj", "sg", "pl", "x-y", "1/2", "@SUBJ", "ünï", "n.a", "sp c"]


class Knobs:
    def __init__(self, **kw):
        self.chars = CORE
        self.extra = EXTRA
        self.special = 0.0          # probability of a special character per position
        self.p_extra = 0.15
        self.weights = 0.0
        self.regex = 0.0
        self.neg = 0.2
        self.cyclic = 0.5
        self.restrict = 0.2
        self.variants = 0.15
        self.groups = 0.1
        self.joins = 0.1
        self.blanks = 0.1
        self.wake = 0.0
        self.bound = 0.0
        self.pardefs = 3
        self.sections = 3
        self.types = ("standard", "inconditional", "postblank", "preblank")
        self.entries = 6
        self.maxword = 4
        self.empty = 0.05
        self.tags = TAGS[:8]
        self.freeform = 0.3         # anything-goes entries
        self.ascii_names = False
        self.__dict__.update(kw)


def char(r, k):
    x = r.random()
    if x < k.special:
        return r.choice(SPECIAL)
    if x < k.special + k.p_extra:
        return r.choice(k.extra)
    return r.choice(k.chars)


def word(r, k, lo=1, hi=None):
    n = r.randint(lo, hi or k.maxword)
    return [char(r, k) for _ in range(n)]


def tag(r, sd):
    return "<%s>" % r.choice(sd)


def decorate(r, k, w, side):
    """adds blanks, joins, groups, wake-up marks and boundaries to a word"""
    out = list(w)
    if r.random() < k.blanks:
        out.insert(r.randint(1, len(out)) if out else 0, ["b"])
    if side == "r" and r.random() < k.joins:
        out.insert(r.randint(0, len(out)), ["j"])
    if r.random() < k.wake:
        out.insert(r.randint(0, len(out)), ["a"])
    if side == "l" and r.random() < k.bound:
        out.insert(r.randint(0, len(out)), ["m"])
    if side == "r" and r.random() < k.groups:
        g = [c for c in word(r, k, 0, 2)]
        if r.random() < 0.7:
            g.insert(0, ["b"])
        out.append(["g", g])
    return out


def tags(r, sd, lo=0, hi=3):
    return [tag(r, sd) for _ in range(r.randint(lo, hi))]


def regex(r, k, depth=2):
    x = r.random()
    if depth == 0 or x < 0.3:
        return ["c", char(r, k)]
    if x < 0.5:
        return ["cat", [regex(r, k, depth - 1) for _ in range(r.randint(1, 3))]]
    if x < 0.65:
        return ["alt", [regex(r, k, depth - 1) for _ in range(r.randint(2, 3))]]
    if x < 0.85:
        q = r.choice("*+?") if r.random() < k.cyclic else "?"
        return ["q", regex(r, k, depth - 1), q]
    rs = []
    for _ in range(r.randint(1, 2)):
        a, b = sorted((r.choice(k.chars), r.choice(k.chars)))
        if r.random() < 0.3:
            a = b = char(r, k)
        rs.append([a, b])
    return ["set", r.random() < k.neg, rs]


def attrs(r, k, e):
    if r.random() < k.restrict:
        e["?r"] = r.choice(["LR", "RL"])
    if r.random() < k.restrict * 0.3:
        e["?i"] = r.choice(["yes", "no"])
    if r.random() < k.variants:
        which = r.choice(["?alt", "?v", "?vl", "?vr"])
        e[which] = r.choice(["x", "y", "x y", "y z", "z", "xy", "x xy"])
        if r.random() < 0.2:
            e[r.choice(["?alt", "?v", "?vl", "?vr"])] = r.choice(["x", "y", "x y"])
    if r.random() < 0.1:
        e["?lm"] = "lemma"
    if r.random() < 0.05:
        e["?c"] = "a comment"
    return e


def put_weight(r, k, e):
    """w= is only put on entries with exactly one non-empty pair or identity"""
    if r.random() < k.weights:
        ne = [it for it in e["items"] if (it[0] in ("i", "ig") and it[1]) or (it[0] == "p" and (it[1] or it[2]))
              or it[0] == "ig"]
        if len(ne) == 1 and all(any(not (isinstance(s, list) and s[0] == "m") for s in x) for x in ne[0][1:] if x):
            e["?w"] = str(r.choice([0.5, 1, 1, 2, 2.25, 3, 10, 0.125, 100.5, 0]))
    return e


def suffix_entry(r, k, sd, pars):
    x = r.random()
    items = []
    if x < 0.1:
        items.append(["i", word(r, k, 0, 2)])
    elif x < 0.7:
        l = decorate(r, k, word(r, k, 0, 2), "l")
        rr = decorate(r, k, word(r, k, 0, 2), "r") + tags(r, sd, 0, 2)
        items.append(["p", l, rr])
    elif x < 0.8:
        items.append(["p", [], tags(r, sd, 0, 2)])
    else:
        items.append(["p", word(r, k, 0, 1), tags(r, sd, 1, 2)])
    if pars and r.random() < 0.35:
        items.insert(r.randint(0, len(items)), ["par", r.choice(pars)])
    if r.random() < k.regex * 0.5:
        items.insert(r.randint(0, len(items)), ["re", regex(r, k, 1)])
    return put_weight(r, k, attrs(r, k, {"items": items}))


def main_entry(r, k, sd, pars):
    x = r.random()
    if x < k.freeform:
        items = []
        for _ in range(r.randint(1, 4)):
            y = r.random()
            if y < 0.3:
                items.append(["i", decorate(r, k, word(r, k, 0 if r.random() < k.empty else 1, 3), "l") + (tags(r, sd, 0, 1) if r.random() < 0.2 else [])])
            elif y < 0.65:
                items.append(["p", decorate(r, k, word(r, k, 0, 3), "l") + (tags(r, sd, 0, 1) if r.random() < 0.1 else []),
                              decorate(r, k, word(r, k, 0, 3), "r") + tags(r, sd, 0, 2)])
            elif y < 0.72:
                items.append(["ig", decorate(r, k, word(r, k, 1, 2), "l")])
            elif y < 0.9 and pars:
                items.append(["par", r.choice(pars)])
            elif r.random() < k.regex:
                items.append(["re", regex(r, k, 2)])
        if not items:
            items = [["i", word(r, k)]]
    elif x < k.freeform + 0.3 and pars:
        items = [["i", word(r, k)], ["par", r.choice(pars)]]
        if r.random() < 0.2:
            items.insert(0, ["par", r.choice(pars)])
    elif r.random() < k.regex:
        items = [["re", regex(r, k, 2)], ["p", [], tags(r, sd, 1, 2)]]
    else:
        items = [["p", decorate(r, k, word(r, k), "l"), decorate(r, k, word(r, k), "r") + tags(r, sd, 0, 3)]]
        if pars and r.random() < 0.2:
            items.append(["par", r.choice(pars)])
    return put_weight(r, k, attrs(r, k, {"items": items}))


def dix(r, k, size=5):
    sd = sorted(set(r.choice(k.tags) for _ in range(r.randint(2, 6))))
    pd = []
    for n in range(r.randint(0, k.pardefs)):
        names = [p[0] for p in pd]
        nm = "p%d" % n if k.ascii_names or r.random() < 0.7 else r.choice(["casa__n", "pär/%d", "p %d", "x__v%d"]) .replace("%d", str(n)) + ("" if True else "")
        if nm in names:
            nm += "_%d" % n
        pd.append([nm, [suffix_entry(r, k, sd, names) for _ in range(r.randint(1, 3))]])
    names = [p[0] for p in pd]
    secs = []
    for n in range(r.randint(1, k.sections) if r.random() < 0.5 else 1):
        secs.append(["main" if n == 0 else "s%d" % n, "standard" if r.random() < 0.4 and "standard" in k.types else r.choice(k.types),
                     [main_entry(r, k, sd, names) for _ in range(r.randint(1, max(1, int(k.entries * size / 5))))]])
    alpha = set(k.chars) | set(r.sample(k.extra, min(3, len(k.extra))))
    if r.random() < 0.1:
        # few letters, or letters that only the dictionary makes such
        alpha = set(r.sample(list("'\u2019-\u00b7\U0001f600\U0001f4a9\U00010428\u02bc") + sorted(set(k.chars) - {" "}), r.randint(0, 3)))
    return {"alphabet": "".join(sorted(alpha)), "sdefs": sd,
            "pardefs": pd, "sections": secs}


def widen(r, k, d, side):
    """now and then gives one word very many readings that differ from their first letter on, so that many paths are open at once"""
    if not d["sections"] or r.random() >= 0.012:
        return False
    w = [r.choice([c for c in k.chars if c.islower()] or ["a"]) for _ in range(r.randint(2, 4))]
    n = r.choice([20, 70, 140, 300])
    pool = "abcdefghijklmnopqrstuvwxyz"
    for i in range(n):
        x = [pool[i % 26], pool[i // 26 % 26]] + w[2:]
        d["sections"][0][2].append({"items": [["p", x, w] if side == "r" else ["p", w, x]]})
    return True


def opts(r):
    o = {}
    for key in ("alt", "v", "vl", "vr"):
        if r.random() < 0.3:
            o[key] = r.choice(["x", "x", "y", "y", "z", "xy"])
    return o


def comp_flags(o, direction):
    f = []
    for key, flag, on in (("alt", "alt", True), ("v", "var", True), ("vl", "var-left", direction == "rl"), ("vr", "var-right", direction == "lr")):
        if key in o and on:
            f += ["--%s=%s" % (flag, x) for x in o[key].split(" ")]
    if o.get("m"):
        f.append("-m")
    return f


# ------------------------------------------------------------------ running text
def ana_knobs(r, **kw):
    """knobs for dictionaries used as analysers: no regexes, no empty inputs wanted"""
    k = Knobs(special=r.choice([0, 0, 0.08]), p_extra=r.choice([0, 0.1, 0.3]), restrict=0, variants=0, regex=0,
              blanks=r.choice([0, 0.2, 0.5]), empty=0, pardefs=2, sections=3, freeform=r.choice([0, 0.2]))
    if r.random() < 0.5:
        k.chars = "ab"
    k.__dict__.update(kw)
    return k


def recase(r, w):
    """change the case of a string the ways text does"""
    x = r.random()
    if x < 0.4:
        return w
    up = lambda c: c.upper() if len(c.upper()) == 1 else c
    if x < 0.65:
        return up(w[:1]) + w[1:]
    if x < 0.85:
        return "".join(map(up, w))
    return "".join(up(c) if r.random() < 0.5 else c for c in w)


def text_items(r, words, size=5, case=0.3, blanks=True, chars=CORE, extra=EXTRA, special=0.05, spaces=(" ",)):
    """A running text as a list of items: a string (each character escaped when it must be),
    ["e", c] an escaped character, ["b", s] a superblank, ["wb", s] a word-bound blank."""
    items = []
    for _ in range(r.randint(1, max(2, int(size * 2)))):
        x = r.random()
        if x < 0.62 and words:
            w = r.choice(words)
            if r.random() < case:
                w = recase(r, w)
            y = r.random()
            if y < 0.12 and len(w) > 1:
                w = w[:r.randint(1, len(w))]
            elif y < 0.22:
                w += r.choice(chars)
            for c in split_blanks(r, w, blanks):
                items.append(c)
        elif x < 0.75:
            items.append("".join(r.choice(extra) if r.random() < 0.2 else r.choice(chars) for _ in range(r.randint(1, 4))))
        elif x < 0.8:
            items.append(r.choice([".", ",", "!", "(", ")", "'", "-", "1", "23", "😀", "\u00ad", "´", "€"]))
        elif x < 0.8 + special:
            items.append(r.choice(SPECIAL))
        elif x < 0.88:
            items.append(["e", r.choice(list("^$@/\\[]{}<>") + ["a", ".", " ", "b"])])
        y = r.random()
        if y < 0.6:
            items.append(r.choice(spaces))
        elif y < 0.68 and blanks:
            items.append(blank_item(r))
        elif y < 0.72:
            items.append(r.choice(["\n", "  ", "\t", "\u00a0", "\r\n", " \n "]))
    return items


def blank_item(r):
    x = r.random()
    if x < 0.15:
        return ["wb", r.choice(["t:i:x1", "t:b:y; t:i:z", ""])]
    return ["b", r.choice(["<b>", "", " ", "\\]", "\\^x", "</p>\n<p>", "a b", "é", "\\\\"])]


def split_blanks(r, w, blanks):
    """a word as items; its spaces may be written as superblanks"""
    out, cur = [], ""
    for c in w:
        if c == " " and blanks and r.random() < 0.25:
            if cur:
                out.append(cur)
                cur = ""
            out.append(blank_item(r))
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


ESCAPED = set("[]{}^$/\\@<>")


def item_text(it):
    if isinstance(it, str):
        return "".join("\\" + c if c in ESCAPED else c for c in it)
    if it[0] == "e":
        return "\\" + it[1]
    if it[0] == "b":
        return "[" + it[1] + "]"
    return "[[" + it[1] + "]]"


def text_str(items):
    return "".join(map(item_text, items))


def text_ok(items):
    for it in items:
        if isinstance(it, str):
            if "\0" in it:
                return False
        elif not (isinstance(it, list) and len(it) == 2 and it[0] in ("e", "b", "wb") and isinstance(it[1], str)):
            return False
        elif it[0] == "e" and len(it[1]) != 1:
            return False
        elif it[0] == "b":
            # a superblank's text has no bare ']' and does not turn it into a word-bound blank
            s, i = it[1], 0
            if s.startswith("["):
                return False
            while i < len(s):
                if s[i] == "]":
                    return False
                i += 2 if s[i] == "\\" else 1
            if i > len(s):
                return False
        elif it[0] == "wb" and any(c in it[1] for c in "[]\\"):
            return False
    return True
