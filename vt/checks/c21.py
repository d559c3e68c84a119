"""Listing the paths of a compiled transducer that match patterns: lt-paradigm."""
from .. import dix, gen
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig

MAYBE = {"+", "#", "<compound-only-L>", "<compound-R>", "<$>", "<$_>", "<$->"}
KB = 5
OPEN = {"<compound-only-L>", "<compound-R>", "<$>", "<$_>", "<$->"}


def match(pat, syms, letters, tags):
    """does the whole sequence match?  sets of positions, no automaton"""
    here = {0}
    n = len(syms)
    for p in pat:
        if isinstance(p, str):
            here = {i + 1 for i in here if i < n and syms[i] == p}
            continue
        k = p[0]
        if k == "or":
            here = {i + 1 for i in here if i < n and syms[i] in p[1]}
            continue
        if k == "*":
            ok = letters
        elif k == "<*>":
            ok = tags
        elif k == "rep":
            ok = set(p[1])
        else:
            ok = tags - set(p[1])
        r = set()
        for i in here:
            r.add(i)
            while i < n and syms[i] in ok:
                i += 1
                r.add(i)
        here = r
    return n in here


def text(pat):
    o = []
    for p in pat:
        if isinstance(p, str):
            o.append("\\" + p if p in "<\\" else p)
        elif p[0] in ("*", "<*>"):
            o.append(p[0])
        else:
            names = [t[1:-1] for t in p[1]]
            o.append({"or": "<|%s>" % "|".join(names), "rep": "<*|%s>" % "|".join(names), "but": "<*-%s>" % "-".join(names)}[p[0]])
    return "".join(o)


def key(s):
    return s.encode("utf-16-be")


class C(Check):
    id = "C21"
    quick_n = 20000
    thorough_n = 300000
    rule = ("random dictionary compiled in one direction; a sequence of patterns for one process, made from the lexical forms of its entries by "
            "replacing stretches with wildcards of letters, of tags, of one of some tags, of any number of some tags, of all tags but some, or with other symbols; "
            "excluded tags, sorting, separators; the groups of output lines are compared with the pairs of the dictionary's denotation that match; "
            "non-trivial: some pattern lists something and another pair is left out")
    technique = "model-based testing: pattern matching over the dictionary's denotation"
    assumptions = ["whether wildcards cross joins, lemma queues and compound tags is left open", "patterns are well formed", "how often the loops of a regular expression are listed is left open"]

    def gen(self, r, size):
        k = gen.ana_knobs(r, weights=0, regex=r.choice([0, 0, 0, 0.6]))
        direction = r.choice(["lr", "rl"])
        for _ in range(30):
            d = gen.dix(r, k, size)
            if k.regex and d["sections"] and r.random() < 0.5:
                x = ["c", r.choice(d["alphabet"] or "a")]
                x = r.choice([x, x, ["cat", [["c", "a"], x]], ["alt", [["c", "b"], x]]])
                r.choice(d["sections"])[2].append({"items": [["re", ["q", x, "+"]]]})
            if not any(x & {"", " "} for x in dix.firsts(d, direction).values()):
                break
        try:
            rel = dix.Model(d, direction, None, KB if dix.is_cyclic(d) else 10 ** 6).directed()
        except TooBig:
            rel = {}
        side = sorted({(o if direction == "lr" else i) for v in rel.values() for (i, o) in v})
        tags = ["<%s>" % t for t in d["sdefs"]]
        other = ["<zz>", "<q>"]
        pats = []
        for _ in range(r.randint(1, 4)):
            if not side or r.random() < 0.05:
                p = [r.choice(["a", "b", "<zz>"] + tags) for _ in range(r.randint(0, 3))]
            else:
                p = list(r.choice(side))

            def some():
                l = sorted({r.choice(tags + other) for _ in range(r.choice([1, 2, 3, 3, 5, 8]))})
                return [t for t in l if not set(t) & set("-|\\")] or ["<q>"]
            for _ in range(r.randint(0, 3)):
                i = r.randint(0, len(p))
                j = min(len(p), i + r.choice([0, 1, 1, 2, 4]))
                p[i:j] = [r.choice([["*"], ["*"], ["<*>"], ["<*>"], ["or", some()], ["rep", some()], ["but", some()]])]
            if r.random() < 0.2 and p:
                p[r.randrange(len(p))] = r.choice(["a", "b", "<zz>", "\U00010428", "é", "\\", "<"] + tags)
            p = [x for x in p if x != "*"]          # a plain asterisk cannot be expressed
            pats.append([p, r.choice(["\n", "\n", "\0"])])
        if dix.is_cyclic(d) and r.random() < 0.6:
            pats.append([[["*"]] + r.choice([[], [["<*>"]], [["<*>"]]]), "\n"])
        if r.random() < 0.3 and pats[-1][0]:
            pats[-1][1] = ""
        ex = [t for t in tags if r.random() < 0.15]
        return {"dix": d, "dir": direction, "pats": pats, "exclude": ex, "sort": r.random() < 0.5}

    def valid(self, c):
        def okp(p):
            return isinstance(p, str) and (len(p) == 1 and p not in "*\n\0" or len(p) > 2 and p[0] == "<" and p[-1] == ">" and p[1] not in "*|") or \
                isinstance(p, list) and p and (p in (["*"], ["<*>"]) or len(p) == 2 and p[0] in ("or", "rep", "but") and p[1] and
                                               all(len(t) > 2 and t[0] == "<" and not set(t) & set("-|\\") for t in p[1]))
        return dix.valid(c["dix"]) and c["dir"] in ("lr", "rl") and c["pats"] and all(all(okp(x) for x in p) and s in ("\n", "\0", "") for p, s in c["pats"]) and \
            all(s for _, s in c["pats"][:-1]) and all(len(t) > 2 and t[0] == "<" and t[-1] == ">" for t in c["exclude"])

    def run(self, c, env):
        d = c["dix"]
        cyclic = dix.is_cyclic(d)
        try:
            rel = dix.Model(d, c["dir"], None, KB if cyclic else 10 ** 6).directed()
        except TooBig:
            raise Skip()
        if not any(rel.values()) or any(x & {"", " "} for x in dix.firsts(d, c["dir"]).values()):
            raise Skip()
        b, _ = compile_dix(env, d, c["dir"])
        # (side that the patterns are about, other side)
        pairs = {((o, i) if c["dir"] == "lr" else (i, o)) for v in rel.values() for (i, o) in v}
        whole = all(p and q for p, q in pairs)
        pairs = {(p, q) for p, q in pairs if p and q}
        alltags = {s for p, q in pairs for s in p + q if len(s) > 1} | {"<%s>" % t for t in d["sdefs"]}
        tags = alltags - set(c["exclude"])
        letters = set(d["alphabet"])
        opts = (["-a"] if c["dir"] == "lr" else []) + (["-s"] if c["sort"] else [])
        for t in c["exclude"]:
            opts += ["-e", t]
        inp = "".join(text(p) + s for p, s in c["pats"])
        out = env.ok("lt-paradigm", *(opts + [b]), inp=inp).out
        try:
            out = out.decode("utf-8")
        except UnicodeDecodeError:
            raise Fail("the output is not valid UTF-8: %r" % out)
        listed = left = 0
        pos = 0
        full = out
        # behind the last separator there is one more, empty pattern
        for pat, sep in c["pats"] + ([[[], ""]] if c["pats"][-1][1] else []):
            must, may = set(), set()
            for p, q in pairs:
                s = "".join(p) + ":" + "".join(q)
                if match(pat, p, letters, tags) and not OPEN & set(p):
                    must.add(s)
                elif MAYBE & set(p):
                    may.add(s)
            may |= must
            # the group: lines, each ended by a newline, then the separator
            lines = []
            while True:
                rest = full[pos:]
                if sep and rest.startswith(sep):
                    pos += 1
                    break
                e = rest.find("\n")
                if e < 0:
                    if sep or rest:
                        raise Fail("the group of pattern %r does not end as it should: %r" % (text(pat), full))
                    break
                lines.append(rest[:e])
                pos += e + 1
            g = set(lines)
            if cyclic:
                # how often a loop is listed is left open, but what is listed has to match, and something has to be listed
                g = {x for x in g if self.short(x, c["dir"])}
                if must and whole and not lines:
                    raise Fail("pattern %r lists nothing, not even %r" % (text(pat), sorted(must)[0]))
                must = set()
            if must - g:
                raise Fail("pattern %r does not list %r; output %r" % (text(pat), sorted(must - g)[0], full))
            if g - may:
                raise Fail("pattern %r lists %r; output %r" % (text(pat), sorted(g - may)[0], full))
            if c["sort"] and not cyclic:
                if sorted(g, key=lambda s: self.order(s, pairs)) != lines:
                    raise Fail("the lines %r are not sorted, or repeated" % lines)
            listed += len(g)
            left += len(pairs) > len(g)
        if pos != len(full):
            raise Fail("%r follows the last group" % full[pos:])
        return listed > 0 and left > 0, {"sort" if c["sort"] else "unsorted"} | ({"exclude"} if c["exclude"] else set()) | ({"loops"} if cyclic else set())

    def short(self, line, direction):
        """is what the dictionary reads in this line surely short enough for the bounded model?"""
        for i, c in enumerate(line):
            if c == ":":
                side = line[i + 1:] if direction == "lr" else line[:i]
                if len(side) > KB:
                    return False
        return True

    def order(self, s, pairs):
        for p, q in pairs:
            if "".join(p) + ":" + "".join(q) == s:
                return key("".join(p)), key("".join(q))
        return key(s), b""


CHECK = C()
