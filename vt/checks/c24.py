"""A source that is not well formed, or that refers to what it does not define, is refused as a whole."""
import os
from .. import dix, gen
from ..core import Check, Fail, Skip

BREAKS = ["cut", "close", "par", "sym", "elem", "tail", "amp", "utf8", "missing"]


def spots(x, what):
    """the places of a token in the text"""
    r, i = [], x.find(what)
    while i >= 0:
        r.append(i)
        i = x.find(what, i + 1)
    return r


class C(Check):
    id = "C24"
    variants = ("plain",)
    quick_n = 9000
    thorough_n = 150000
    rule = ("a valid random dictionary (or table of equivalent, ignored or restored characters, or translation memory) is damaged: cut "
            "short at any character, a closing tag removed, a stray ampersand or text after the end, a byte that is not UTF-8, or the whole file missing, an unknown element, or a paradigm or "
            "symbol that is not defined; every tool that reads it must end with an error status and leave no output file, while the undamaged source is "
            "accepted; non-trivial: the undamaged source is accepted")
    technique = "property-based testing with injected damage"
    assumptions = ["lt-expand does not check symbols against their declarations", "where a reference to a paradigm or symbol stands inside an entry that the "
                   "direction leaves out it is not checked: only entries of all directions are damaged"]

    def gen(self, r, size):
        k = gen.ana_knobs(r, weights=r.choice([0, 0.3]), regex=r.choice([0, 0.2]))
        k.restrict = k.variants = 0
        d = gen.dix(r, k, min(size, 5))
        kind = r.choice(["dix"] * 6 + ["acx", "icx", "rcx", "tmx"])
        return {"kind": kind, "dix": d, "how": r.choice(BREAKS), "at": r.random(), "dir": r.choice(["lr", "rl", "u"]), "n": r.randint(1, 4)}

    def valid(self, c):
        return dix.valid(c["dix"]) and c["how"] in BREAKS and 0 <= c["at"] < 1 and c["dir"] in ("lr", "rl", "u") and 1 <= c["n"] <= 4 and \
            c["kind"] in ("dix", "acx", "icx", "rcx", "tmx") and not any(k in e for e in dix.all_entries(c["dix"]) for k in ("?r", "?alt", "?v", "?vl", "?vr", "?i"))

    def damage(self, x, c, root):
        x = x.rstrip()
        how, n = c["how"], len(x)
        end = x.rindex(">")
        i = int(c["at"] * end)
        def pick(l):
            if not l:
                raise Skip()
            return l[int(c["at"] * len(l))]
        if how == "cut":
            return x[:max(i, 1)]          # an empty file is an empty AT&T table
        if how == "utf8":
            return x[:i] + ["\udcff", "\udc80", "\udcc3", "\udcf5\udc80\udc80\udc80"][c["n"] - 1] + x[i:]
        if how == "missing":
            return ""
        if how == "close":
            i = pick(spots(x, "</"))
            return x[:i] + x[x.index(">", i) + 1:]
        if how == "par":
            i = pick(spots(x, "<par n=\""))
            return x[:i + 8] + "no-such" + x[i + 8:]
        if how == "sym":
            i = pick(spots(x, "<s n=\""))
            return x[:i + 6] + "no-such" + x[i + 6:]
        if how == "elem":
            i = pick([j for j in spots(x, "<") if j > x.index("<" + root) and x[j + 1] != "/"] + [x.rindex("</")])
            return x[:i] + "<no-such-element/>" + x[i:]
        if how == "amp":
            i = pick([j for j in spots(x, "><") if j < end])
            return x[:i + 1] + "&" + x[i + 1:]
        return x + ["x", "<a/>", "</%s>" % root, "<"][c["n"] - 1]

    def run(self, c, env):
        kind = c["kind"]
        good = dix.to_xml(c["dix"])
        if isinstance(good, bytes):
            good = good.decode("utf-8")
        if kind == "dix":
            src, root = good, "dictionary"
        elif kind == "tmx":
            root = "tmx"
            src = '<tmx version="1.4"><header/><body>' + "".join(
                '<tu><tuv xml:lang="a"><seg>hello %d</seg></tuv><tuv xml:lang="b"><seg>there %d</seg></tuv></tu>' % (i, i) for i in range(c["n"])) + "</body></tmx>"
        else:
            root, inner = {"acx": ("analysis-chars", "equiv-char"), "icx": ("ignored-chars", None), "rcx": ("restore-chars", "restore-char")}[kind]
            src = "<%s>" % root + "".join('<char value="%s">%s</char>' % (chr(97 + i), '<%s value="%s"/>' % (inner, chr(98 + i)) if inner else "")
                                          for i in range(c["n"])) + "</%s>" % root
        if kind != "dix" and c["how"] in ("par", "sym") or kind == "tmx" and c["how"] == "elem":
            raise Skip()
        bad = self.damage(src, c, root)
        ok_bin = env.path(".bin")
        if env.run("lt-comp", c["dir"], env.write(good, ".dix"), ok_bin).rc != 0:
            raise Skip()
        cmds = []
        for text, want in ((src, True), (bad, False)):
            out = env.path(".out")
            if os.path.exists(out):
                os.unlink(out)
            f = env.write(text.encode("utf-8", "surrogateescape"), "." + kind)
            if not want and c["how"] == "missing":
                os.unlink(f)
            if kind == "dix":
                cmds = [("lt-comp", c["dir"], f, out)] + ([("lt-expand", f)] if c["how"] != "sym" else [])
            elif kind == "acx":
                cmds = [("lt-comp", "lr", env.write(good, ".dix"), out, f), ("lt-apply-acx", ok_bin, f, env.path(".o2"))]
                if c["dir"] != "lr":
                    cmds = cmds[1:]
            elif kind == "tmx":
                cmds = [("lt-tmxcomp", "a-b", f, out)]
            else:
                cmds = [("lt-proc", "-" + kind[0], f, ok_bin)]
            for cmd in cmds:
                r = env.run(*cmd, inp=b"a b\n")
                shown = " ".join(os.path.basename(x) for x in cmd)
                if want and r.rc != 0:
                    raise Fail("%s: refuses a good source (%d): %s\n%s" % (shown, r.rc, r.err[-300:].decode("utf-8", "replace"), text))
                if not want:
                    if r.rc == 0:
                        raise Fail("%s: accepts a damaged source (%s)\n%s" % (shown, c["how"], text))
                    if r.rc != 1:
                        raise Fail("%s: exit status %d on a damaged source (%s): %s\n%s" % (shown, r.rc, c["how"], r.err[-300:].decode("utf-8", "replace"), text))
                    if out in cmd and os.path.exists(out):
                        raise Fail("%s: leaves an output file for a damaged source (%s)\n%s" % (shown, c["how"], text))
        return True, {kind, c["how"]}


CHECK = C()
