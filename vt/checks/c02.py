from .. import dix, gen
from ..core import Check, Fail, Skip
from ..fst import TooBig

ESC = set("^$/<>{}\\*@#+~:")


def text(l, m):
    """One side of an entry as lt-expand writes it: reserved characters of the text escaped,
    the ones the elements stand for not."""
    o = []
    for s in l:
        if isinstance(s, str):
            o.append(s if len(s) > 1 else "\\" + s if s in ESC else s)
        elif s[0] == "b":
            o.append(" ")
        elif s[0] == "j":
            o.append("+")
        elif s[0] == "a":
            o.append("~")
        elif s[0] == "m":
            o.append(">" if m else "")
        elif s[0] == "g":
            o.append("#" + text(s[1], m))
    return "".join(o)


def expand(d, o):
    """set of (left, right, directions) with directions in 1 (lr), 2 (rl), 3 (both)"""
    m = o.get("m")
    pars = {}

    def entries(es):
        res = set()
        for e in es:
            mask = (1 if dix.keeps(e, "lr", o) else 0) | (2 if dix.keeps(e, "rl", o) else 0)
            cur = {("", "", mask)} if mask else set()
            for it in e["items"]:
                if it[0] == "i":
                    rel = {(text(it[1], m), text(it[1], m), 3)}
                elif it[0] == "ig":
                    rel = {(text(it[1], m), "#" + text(it[1], m), 3)}
                elif it[0] == "p":
                    rel = {(text(it[1], m), text(it[2], m), 3)}
                else:
                    rel = pars[it[1]]
                cur = {(a + c, b + f, x & y) for a, b, x in cur for c, f, y in rel if x & y}
                if len(cur) > 20000:
                    raise TooBig()
            res |= cur
        return res
    for n, es in d["pardefs"]:
        pars[n] = pars.get(n, set()) | entries(es)
    res = set()
    for _, _, es in d["sections"]:
        res |= entries(es)
    return res


MARK = {1: ":>:", 2: ":<:", 3: ":"}


class C(Check):
    id = "C02"
    quick_n = 30000
    thorough_n = 500000
    rule = ("random dictionaries (as for C01, without regular expressions) expanded with random alt/v/vl/vr selections; "
            "the set of printed lines is compared with the set of (left, right, direction mark) lines computed from the XML; "
            "non-trivial: at least 3 expected lines and (a paradigm is used or a line is one-way)")
    technique = "property-based testing against a denotational model of lt-expand's listing"
    assumptions = ["the order and multiplicity of lines are not checked",
                   "the v attribute is left out: lt-comp and lt-expand disagree on it (known finding)"]

    def gen(self, r, size):
        k = gen.Knobs(special=r.choice([0, 0.1, 0.3]), wake=0.1, bound=0.1, p_extra=r.choice([0, 0.2]),
                      restrict=r.choice([0, 0.2, 0.5]), variants=r.choice([0, 0.1, 0.4]), weights=0.1)
        d = gen.dix(r, k, size)
        for e in dix.all_entries(d):
            e.pop("?v", None)
        o = gen.opts(r)
        o.pop("v", None)
        if r.random() < 0.4:
            o["m"] = 1
        return {"dix": d, "opts": o}

    def valid(self, c):
        return dix.valid(c["dix"]) and not any(it[0] == "re" for e in dix.all_entries(c["dix"]) for it in e["items"])

    def run(self, c, env):
        d, o = c["dix"], c["opts"]
        try:
            exp = expand(d, o)
        except TooBig:
            raise Skip()
        exp = {a + MARK[x] + b for a, b, x in exp}
        fl = []
        for key, f in (("alt", "--alt="), ("v", "--var="), ("vl", "--var-left="), ("vr", "--var-right=")):
            if o.get(key):
                fl.append(f + o[key])
        if o.get("m"):
            fl.append("-m")
        out = env.path(".exp")
        src = env.write(dix.to_xml(d), ".dix")
        env.ok("lt-expand", *(fl + [src, out]))
        data = open(out, "rb").read().decode("utf-8", "replace")
        lines = data.split("\n")
        if lines.pop() != "":
            raise Fail("the listing does not end with a newline")
        got = set(lines)
        if got != exp:
            raise Fail("missing lines: %s\nunexpected lines: %s" % (sorted(exp - got)[:5], sorted(got - exp)[:5]))
        if env.ok("lt-expand", *(fl + [src])).text != data:
            raise Fail("writing to standard output and to a file differ")
        one = any(":>:" in l or ":<:" in l for l in exp)
        par = any(it[0] == "par" for e in dix.all_entries(d) for it in e["items"])
        return len(exp) >= 3 and (one or par), [x for x, y in (("one_way", one), ("paradigms", par), ("escapes", any("\\" in l for l in exp))) if y]


CHECK = C()
