from .. import gen, streams
from ..core import Check, Fail, Skip

BEG, END = "<MERGE_BEG>", "<MERGE_END>"
RES = set("[]{}^$/\\@<>")


def esc(s):
    return "".join("\\" + c if c in RES else c for c in s)


def is_wb(i):
    return isinstance(i, list) and i[0] == "wb"


def units(items):
    """(blank, word-bound blank, unit or None or "\\0") triples"""
    out, bl = [], []
    for n, i in enumerate(items):
        if streams.is_lu(i):
            wb = gen.item_text(bl.pop()) if bl and is_wb(bl[-1]) else ""
            out.append(("".join(map(gen.item_text, bl)), wb, i))
            bl = []
        elif i == "\0":
            out.append(("".join(map(gen.item_text, bl)), "", "\0"))
            bl = []
        else:
            bl.append(i)
    out.append(("".join(map(gen.item_text, bl)), "", None))
    return out


def merged(items):
    """(merged stream, stream with the merged units as they come back from generation, unmerged stream)"""
    a, b, c = [], [], []

    def put(s):
        a.append(s), b.append(s), c.append(s)
    surf, plain, on, n = "", "", False, 0
    for bl, wb, lu in units(items):
        end = lu in (None, "\0")
        if streams.is_lu(lu):
            tags = [s for r in lu[2] for s in r if len(s) > 1]
            on = on or BEG in tags
            end = END in tags
        if on:
            if plain:
                surf += esc(bl + wb) + (esc("^$") if wb else "")
                plain += bl + wb + ("^$" if wb else "")
            else:
                put(bl + wb)
            if streams.is_lu(lu):
                f = streams.esc_syms(lu[2][0])
                surf += esc(f)
                plain += f
        else:
            put(bl + wb)
            if streams.is_lu(lu):
                put(streams.lu_text(lu))
        if end and on:
            a.append("^%s/%s<MERGED>$" % (surf, surf))
            b.append("^%s<MERGED>/%s$" % (surf, surf))
            c.append(plain)
            on, surf, plain, n = False, "", "", n + 1
        if lu == "\0":
            put("\0")
    return "".join(a), "".join(b), "".join(c), n


class C(Check):
    id = "C17"
    quick_n = 40000
    thorough_n = 1000000
    rule = ("random analysed streams with begin and end marks of quotations at random units (nested, unbalanced, at one unit, never "
            "closed), with escapes, superblanks and word-bound blanks within and around them and null characters; lt-merge's output is "
            "compared with a reference model, and lt-merge -u of the merged units as they come back from generation with the plain text "
            "of the quotation; non-trivial: some quotation of at least two units, or with formatting in it")
    technique = "property-based testing against a reference model, and a round trip"
    assumptions = ["surface forms are not empty and do not start with a mark (lt-merge drops marks of merged forms)"]

    def gen(self, r, size):
        items = []
        chars = "abé😀Aß" + r.choice(["", "[]^$/\\{}@<>"]) + r.choice(["", " ", "-.'"])
        tags = ["<n>", "<sg>", BEG, END] if r.random() < 0.8 else ["<n>", BEG, END, "<MERGED2>", "<merge_beg>", "<MERGE_BEG2>"]
        for _ in range(r.randint(0, 1 + int(size))):
            if r.random() < 0.08:
                items.append("\0")
            items += streams.blanks(r)
            if r.random() < 0.2:
                items.append(["wb", r.choice(["t:b", "x", "a:é😀", "t:i; t:b", "a/b", "t:^$"])])
            w = [r.choice(chars) for _ in range(r.randint(1, 3))]
            rs = [w]
            for _ in range(r.randint(1, 2)):
                rs.append([r.choice(chars) for _ in range(r.randint(0, 2))] + [r.choice(tags) for _ in range(r.randint(0, 3))])
            if w[0] in streams.MARKS and w[0] != "@":
                w[0] = "a"
            items.append(["lu", "", rs])
        items += streams.blanks(r)
        if r.random() < 0.2:
            items.append("\0")
        if r.random() < 0.3:
            items.append("\n")
        return {"s": items, "files": r.choice([0, 0, 0, 1, 2]), "z": r.choice([0, 1])}

    def valid(self, c):
        return c["files"] in (0, 1, 2) and streams.ok([i for i in c["s"] if i != "\0"]) and not any(
            isinstance(i, str) and "\0" in i and i != "\0" for i in c["s"])

    def tool(self, c, env, flags, text):
        data = text.encode("utf-8", "surrogatepass")
        if c["files"] == 0:
            r = env.ok("lt-merge", *flags, inp=data)
            return r.out
        f = env.write(data, ".in")
        if c["files"] == 1:
            return env.ok("lt-merge", *(flags + [f])).out
        o = env.path(".out")
        r = env.ok("lt-merge", *(flags + [f, o]))
        if r.out:
            raise Fail("lt-merge writes to the standard output although an output file is given: %r" % r.out)
        with open(o, "rb") as fh:
            return fh.read()

    def run(self, c, env):
        s = c["s"]
        for i in s:
            if streams.is_lu(i):
                if i[1] or len(i[2]) < 2 or not i[2][0] or i[2][0][0] in "*#=%" or any(len(x) > 1 for x in i[2][0]):
                    raise Skip()
                if "<MERGED>" in i[2][0] or any("<MERGED>" in x for x in i[2]):
                    raise Skip()
                if any(x and x[0] in streams.MARKS for x in i[2][1:]) and False:
                    raise Skip()
        a, b, p, n = merged(s)
        z = ["-z"] if c["z"] else []
        src = streams.text(s)
        got = self.tool(c, env, z, src)
        want = a.encode("utf-8", "surrogatepass")
        if got != want:
            raise Fail("merging %r\nexpected %r\ngot      %r" % (src, a, got.decode("utf-8", "replace")))
        got = self.tool(c, env, z + ["-u"], b)
        want = p.encode("utf-8", "surrogatepass")
        if got != want:
            raise Fail("unmerging %r\nexpected %r\ngot      %r" % (b, p, got.decode("utf-8", "replace")))
        return n > 0, {"merges=%d" % min(n, 3), "files=%d" % c["files"]}


CHECK = C()
