from .. import dix, fst, gen
from ..core import Check, Fail, Skip
from ..common import section_relations
from ..fst import TooBig

KB = 6
ANY = ("<ANY_TAG>", "<ANY_CHAR>")
XML = {'<s n="ANY_TAG"/>': "<t/>", '<s n="ANY_CHAR"/>': "<w/>", '<s n="$"/>': "<d/>", '<s n="$_"/>': '<d space="yes"/>',
       '<s n="$-"/>': '<d space="no"/>', '<s n="/"/>': "<f/>"}
SPECIAL = ["ANY_TAG", "ANY_CHAR", "$", "$_", "$-", "/"]


def aligned(it, opts):
    """the pairs of symbols of an item, or None if it has none of its own"""
    if it[0] == "i":
        l = r = dix.flat(it[1], opts)
    elif it[0] == "p":
        l, r = dix.flat(it[1], opts), dix.flat(it[2], opts)
    elif it[0] == "ig":
        l = dix.flat(it[1], opts)
        r = ("#",) + l
    else:
        return None
    n = max(len(l), len(r))
    return list(zip(l + ("",) * (n - len(l)), r + ("",) * (n - len(r))))


def loops(p, direction):
    a, b = p if direction == "lr" else p[::-1]
    return a in ANY and b in (a, "")


class Sep(dix.Model):
    def item(self, it, w):
        ps = aligned(it, self.opts)
        if ps is None:
            return super().item(it, w)
        cur = {((), ())}
        for p in ps:
            nxt = set()
            for l, r in cur:
                n = len(l) if self.dir == "lr" else len(r)
                for k in range(1, (max(self.k - n, 0) if loops(p, self.dir) else 1) + 1):
                    nxt.add((l + (p[0],) * k if p[0] else l, r + (p[1],) * k if p[1] else r))
            cur = nxt
            if len(cur) > self.cap:
                raise TooBig()
        return {x: w if ps else 0.0 for x in cur}


def to_xml(d, kind):
    s = dix.to_xml(dict(d, sdefs=[x for x in d["sdefs"] if x not in SPECIAL]))
    for a, b in XML.items():
        s = s.replace(a, b)
    return s.replace("<dictionary>", '<dictionary type="%s">' % kind, 1)


class C(Check):
    id = "C10"
    quick_n = 22000
    thorough_n = 500000
    rule = ("random separable and sequential dictionaries: entries and paradigms with wildcard tags and characters, word boundaries of "
            "the three kinds and reading separators, as identities and pairs, compiled in both directions and compared section by "
            "section, up to input length %d, with the denotation computed from the XML, where a wildcard stands for one or more "
            "symbols and every path may end in a word boundary; non-trivial: some entry has a wildcard or boundary" % KB)
    technique = "property-based testing against a denotational model of dictionaries"
    assumptions = ["the same wildcard pair does not occur twice in a row", "entries carrying a weight have exactly one non-empty pair or identity"]

    def gen(self, r, size):
        k = gen.Knobs(special=r.choice([0, 0, 0.05]), weights=r.choice([0, 0, 0.4]), regex=0, restrict=r.choice([0, 0.15]), variants=0)
        if r.random() < 0.5:
            k.chars = "ab"
        for _ in range(30):
            d = gen.dix(r, k, min(size, 5))
            extra = ["<%s>" % s for s in SPECIAL]
            for e in dix.all_entries(d):
                for it in e["items"]:
                    if it[0] == "i" and it[1] and r.random() < 0.5:
                        for _ in range(r.randint(1, 2)):
                            s = r.choice(extra + extra[:3])
                            it[1].insert(r.randint(int(s in ANY), len(it[1])), s)
                    elif it[0] == "p" and r.random() < 0.5:
                        x = r.random()
                        if x < 0.6 and it[1] and it[2]:
                            # a wildcard opposite to itself
                            n = r.randint(1, min(len(it[1]), len(it[2])))
                            s = r.choice(extra[:3])
                            it[1].insert(n, s)
                            it[2].insert(n, s)
                        elif x < 0.8 and it[1]:
                            it[1].insert(r.randint(1, len(it[1])), r.choice(extra))
                        elif it[2]:
                            it[2].insert(r.randint(1, len(it[2])), r.choice(extra[2:]))
            d["sdefs"] = d["sdefs"] + SPECIAL
            if self.good(d) and not any(f & {"", " "} for f in dix.firsts(d, "lr").values()):
                break
        return {"dix": d, "dir": r.choice(["lr", "lr", "rl"]), "kind": r.choice(["separable", "separable", "sequential"])}

    def good(self, d):
        """no wildcard at the beginning of an item, and none directly behind the same"""
        for e in dix.all_entries(d):
            for it in e["items"]:
                ps = aligned(it, {})
                if ps and (set(ps[0]) & set(ANY) or any(p == q and set(p) & set(ANY) for p, q in zip(ps, ps[1:]))):
                    return False
        return True

    def valid(self, c):
        return dix.valid(c["dix"]) and set(SPECIAL) <= set(c["dix"]["sdefs"]) and c["dir"] in ("lr", "rl") and c["kind"] in ("separable", "sequential") \
            and self.good(c["dix"])

    def run(self, c, env):
        d, direction = c["dix"], c["dir"]
        if not self.good(d) or any(f & {"", " "} for f in dix.firsts(d, direction).values()):
            raise Skip()
        try:
            exp = {n: x for n, x in Sep(d, direction, {}, KB, 5000).directed().items() if x}
        except TooBig:
            raise Skip()
        if not exp:
            raise Skip()
        src = env.write(to_xml(d, c["kind"]), ".lsx")
        b = env.path(".bin")
        r = env.ok("lt-comp", direction, src, b)
        names = [l.rsplit(" ", 2)[0] for l in r.text.splitlines()]
        try:
            got = section_relations(env, b, names, KB)
        except TooBig:
            raise Skip()
        for n in set(names) | set(exp):
            e = dict(exp.get(n, {}))
            for (i, o), w in exp.get(n, {}).items():
                if len(i) < KB:
                    dix.merge(e, (i + ("<$>",), o + ("<$>",)), w)
            x = fst.diff(e, got.get(n, {}))
            if x:
                raise Fail("section %s compiled %s does not denote the dictionary's entries:\n%s" % (n, direction, x))
        used = {s for e in dix.all_entries(d) for it in e["items"] for p in aligned(it, {}) or () for s in p}
        labels = {direction, c["kind"]} | {s for s in used if s[1:-1] in SPECIAL}
        if any(it[0] == "par" for e in dix.all_entries(d) for it in e["items"]):
            labels.add("paradigm")
        return bool(used & {"<%s>" % s for s in SPECIAL}), labels


CHECK = C()
