"""Robustness: no stream, dictionary source or table makes a tool crash, hang or touch memory it must not."""
from .. import binfmt, dix, gen
from ..core import Check, Fail, Skip

MODES = ["-a", "-e", "-g", "-d", "-n", "-l", "-m", "-C", "-b", "-o", "-O", "-p", "-t", "-x", "-s", "-b -g", "-b -d", "merge", "unmerge",
         "paradigm", "paradigm -a"]
OPS = ["trim", "compose", "compose -i", "compose -a", "append", "append -k", "invert", "restrict lr", "restrict -m rl",
       "restrict -v x lr", "acx"]
PIECES = ["^", "$", "/", "<", ">", "[", "]", "[[", "]]", "[[/]]", "\\", "{", "}", "~", "\0", "@", "*", "#", "%", "=", "+", "\n", " ", "\t",
          "<n>", "<sg>", "<*>", "<|n|sg>", "<*-n>", "^a<n>$", "^a/a<n>$", "^*a$", "😀", "𐐷", "é", "É", "ß", "İ", "\u00ad", "\u00a0", "'",
          ".", "1", "_", "<MERGE_BEG>", "<MERGE_END>", "<MERGED>", "+b<n>", "# c", "&lt;", "<ANY_CHAR>", "<W:1>"]
TAGS = ["<e>", "</e>", "<p>", "</p>", "<l>", "</l>", "<r>", "</r>", "<i>", "</i>", "<ig>", "</ig>", "<g>", "</g>", "<b/>", "<j/>", "<a/>", "<m/>",
        '<s n="n"/>', '<s n=""/>', "<s/>", '<par n="p0"/>', "<par/>", "<re>", "</re>", "<re>(a|b)*[^a-c]?</re>", "<re>[a</re>", "<re>)(</re>",
        "<re>\\</re>", "<re>a|</re>", "<re></re>", "<re>[b-a]</re>", "<re>**</re>",
        '<e r="LR">', '<e r="">', '<e w="x">', '<e w="1e999">', '<e i="yes">', '<e lm="a">', '<e vl="x">', "<pardefs>", "</pardefs>",
        '<pardef n="p0">', "</pardef>", '<pardef n="">', '<section id="main" type="standard">', '<section id="" type="">', "<section>",
        "</section>", "<alphabet>", "</alphabet>", "<alphabet/>", "<sdefs>", "</sdefs>", '<sdef n="n"/>', "<sdef/>", "<!-- x -->", "&amp;", "&#0;",
        "&#128512;", "<dictionary>", "</dictionary>", "x", " ", "<![CDATA[a]]>", "<t/>", '<t n="x"/>', '<v n="x"/>']


CDATA = ["<![CDATA[", "<![CDATA[a]]>", "]]>", "<![CDATA[a", "<![CDATA[a>b]]>", "<![CDATA[a]>"]
LONG = ["[[a]]", "[[a]] ", "[a]", " ", "\n", "^a<n>$", "^a$ ", "[[a]]^a<n>$", "[[a]]^a/a<n>$", "[[a]][a]", "\0", "a ", ". ", "[[a]]a ", "[[a]]a[[/]]", "[[a]]a[[/]] ",
        "\\a ", "a\\ ", "<n>", "1 ", "^a/b/c$", "^*a$", "é. ", "]", "[", "^", "$", "/", "<![CDATA[a]]>", "<![CDATA[", "~a "]


def pieces(r, size, words, run=12):
    out = []
    for _ in range(r.randint(1, 2 + int(size * 4))):
        x = r.random()
        if x < 0.35 and words:
            w = r.choice(words)
            out.append(w[:r.randint(1, len(w))] if r.random() < 0.3 else gen.recase(r, w) if r.random() < 0.3 else w)
        elif x < 0.37:
            out.append("".join(r.choice(PIECES) for _ in range(3)) * r.randint(1, run))
        elif x < 0.39:
            out.append((r.choice(words or ["a"]) + r.choice(["", " ", "+"])) * r.randint(1, run * 3))
        elif x < 0.392:
            out.append(r.choice(["\udcff", "\udc80", "\udce9", "\udcf0\udc9f", "\udcc3", "\udced\udca0\udc80", "\udcc0\udc80"]))     # not UTF-8
        else:
            out.append(r.choice(PIECES))
    return out


def loops(path):
    """can the transducer go round without reading anything?  (Then some inputs have infinitely many readings.)"""
    with open(path, "rb") as fh:
        f = binfmt.read(fh.read())
    for name in f.sections:
        g = {}
        for s, arcs in f.fst(name).arcs.items():
            for a in arcs:
                if a[0] == "":
                    g.setdefault(s, set()).add(a[2])
        seen, done = set(), set()

        def go(x):
            seen.add(x)
            for y in g.get(x, ()):
                if y in seen and y not in done or y not in seen and go(y):
                    return True
            done.add(x)
        if any(x not in seen and go(x) for x in g):
            return True
    return False


class C(Check):
    id = "C23"
    variants = ("asan",)
    quick_n = 12000
    thorough_n = 400000
    rule = ("random streams, mostly malformed (unbalanced units, tags, blanks and escapes, null characters, bytes that are not UTF-8, long runs), in every mode of "
            "lt-proc, lt-merge and lt-paradigm over random dictionaries; random dictionary sources, AT&T texts, regular expressions and "
            "character tables, mostly malformed, through lt-comp, lt-expand, lt-print and lt-proc; all with address and "
            "undefined-behaviour sanitizers; non-trivial: the input is longer than 10 characters")
    technique = "structure-aware fuzzing with address and undefined-behaviour sanitizers"
    assumptions = ["compiled files come from the tools themselves", "a transducer that can go round without reading anything is only compiled and printed: it has infinitely many readings"]

    def gen(self, r, size):
        x = r.random()
        k = gen.ana_knobs(r, weights=r.choice([0, 0.3]), wake=r.choice([0, 0.3]), regex=r.choice([0, 0.2]))
        d = gen.dix(r, k, min(size, 5))
        if x < 0.62:
            if r.random() < 0.2:
                d["sdefs"] = sorted(set(d["sdefs"]) | {"compound-only-L", "compound-R"})
                for _, _, es in d["sections"]:
                    for e in es:
                        if r.random() < 0.6:
                            e["items"].append(["p", [], ["<%s>" % r.choice(["compound-only-L", "compound-R"])]])
            try:
                rels = dix.Model(d, "lr").directed()
                words = sorted({"".join(y) for rel in rels.values() for p in rel for y in p if "".join(y)})
            except Exception:
                words = []
            if r.random() < 0.012:
                # very long inputs of one shape
                return {"kind": "stream", "dix": d, "mode": r.choice(MODES[:-2]), "s": [r.choice(LONG)] + ([r.choice(LONG)] if r.random() < 0.3 else []),
                        "rep": r.choice([3000, 40000]), "flags": ["-z"] if r.random() < 0.2 else []}
            mode = r.choice(MODES)
            if mode == "-s":
                words = words[:20] + CDATA
            return {"kind": "stream", "dix": d, "mode": mode, "s": pieces(r, size, words[:200], 12 if k.regex or "compound-R" in d["sdefs"] else 300),
                    "flags": [f for f in ("-z", "-c", "-w", "-W", "-N 1", "-L 2", "-I", "-M 2") if r.random() < 0.12]}
        if x < 0.85:
            t = dix.to_xml(d)
            if isinstance(t, bytes):
                t = t.decode("utf-8")
            for _ in range(r.randint(1, 3)):
                i = r.randint(0, len(t))
                # at the edge of a tag more often than not
                if r.random() < 0.8 and "<" in t[i:]:
                    i = t.index("<", i)
                y = r.random()
                if y < 0.4:
                    t = t[:i] + r.choice(TAGS) + t[i:]
                elif y < 0.7:
                    j = t.find(">", i) + 1 or len(t)
                    t = t[:i] + (r.choice(TAGS) if r.random() < 0.5 else "") + t[j:]
                else:
                    j = min(len(t), i + r.randint(1, 60))
                    t = t[:i] + t[i:j] * 2 + t[j:] if r.random() < 0.5 else t[:i] + t[j:]
            return {"kind": "dix", "text": t, "dir": r.choice(["lr", "rl", "u"]), "flags": [f for f in ("-m", "-S", "-j", "-l x", "-v x", "-r x", "-a x")
                                                                                       if r.random() < 0.1], "s": pieces(r, 2, ["a", "b"])}
        if x < 0.93:
            n = r.randint(1, 4)
            L = []
            for _ in range(r.randint(0, 8)):
                f = [str(r.randint(0, n)), str(r.randint(0, n)), r.choice(["a", "b", "@0@", "ε", "<n>", "@_SPACE_@", "+", "", "<", "😀", "A", ".", "@x", "--"]),
                     r.choice(["a", "b", "@0@", "ε", "<n>", "@_SPACE_@", "x<n>", "", ">"]), r.choice(["0", "1.5", "-1", "inf", "x", "", "1e3"])]
                f = f[:r.choice([5, 5, 5, 4, 4, 2, 1, 3])]
                L.append(r.choice(["\t"] * 9 + [" "]).join(f))
            if r.random() < 0.01:
                return {"kind": "chain", "n": r.choice([2000, 40000]), "s": [r.choice(["a", "ab"])], "sym": r.choice(["a", "a", ".", "A", "@0@"]), "back": r.random() < 0.3}
            L.append(r.choice([str(n), str(n) + "\t0.5", "--", "", str(n) + "\t"]))
            return {"kind": "att", "text": "\n".join(L) + r.choice(["\n", "", "\n\n", "\r\n"]), "dir": r.choice(["lr", "rl"]), "s": pieces(r, 2, ["a", "b"])}
        if x < 0.96:
            return {"kind": "two", "dix": d, "dix2": gen.dix(r, k, min(size, 4)), "op": r.choice(OPS), "dir": r.choice(["lr", "rl"]), "s": pieces(r, 2, ["a", "b"])}
        if x < 0.98:
            return self.tmx(r, size)
        w = r.choice(["icx", "rcx", "acx"])
        el = {"icx": ["<ignored-chars>", "</ignored-chars>"], "rcx": ["<restore-chars>", "</restore-chars>"], "acx": ["<analysis-chars>", "</analysis-chars>"]}[w]
        t = el[0]
        for _ in range(r.randint(0, 4)):
            t += r.choice(['<char value="a"/>', '<char value="a">', "</char>", '<char value=""/>', "<char/>", '<restore-char value="b"/>',
                           '<equiv-char value="b"/>', '<equiv-char value=""/>', '<char value="A">', '<char value="😀"/>', '<restore-char value="é"/>', "x", "<x/>"])
        t += el[1] if r.random() < 0.8 else ""
        return {"kind": w, "text": t, "dix": d, "s": pieces(r, 3, ["a", "b", "ab"])}

    def tmx(self, r, size):
        t = '<tmx version="1.4"><header/><body>'
        segs = []
        for _ in range(r.randint(1, 3)):
            t += r.choice(["<tu>"] * 6 + ["", "<!-- a -->", "x"])
            for l in r.choice([["a", "b"], ["a", "b"], ["b", "a"], ["a"], ["a", "b", "a"], ["c", "b"], []]):
                seg = "".join(r.choice(["a", "b", "kake", " ", "1", "23", "1.5", ",", ".", "x1", "(", ")", "@", "#", "/", "<", "é", "😀", "@(1)", "(#)",
                                        "12345", "  "]) for _ in range(r.randint(0, 8)))
                segs.append(seg)
                seg = seg.replace("<", "&lt;")
                if r.random() < 0.3:
                    i = r.randint(0, len(seg))
                    seg = seg[:i] + r.choice(["<hi>x</hi>", "<ph/>", "<ph>y</ph>", "<hi>", "</tuv>", "<!-- c -->", "<x/>", "&amp;"]) + seg[i:]
                t += r.choice(['<tuv xml:lang="%s">', '<tuv lang="%s">'] * 5 + ["<tuv>"]).replace("%s", l) + "<seg>" + seg + "</seg>" + "</tuv>"
            t += r.choice(["</tu>"] * 9 + [""])
        t += "</body></tmx>"
        if r.random() < 0.3:
            t = t[:r.randint(0, len(t))]
        return {"kind": "tmx", "text": t, "flags": r.choice([[], ["-s"]]), "s": pieces(r, 3, [g for g in segs if g] + ["1", "22", "a"])}

    def valid(self, c):
        return all(isinstance(x, str) for x in c["s"]) and c["kind"] in ("stream", "dix", "att", "icx", "rcx", "acx", "two", "tmx", "chain") and \
            ("dix2" not in c or dix.valid(c["dix2"])) and c.get("op", OPS[0]) in OPS and ("dix" not in c or dix.valid(c["dix"])) and c.get("mode", "-a") in MODES and c.get("dir", "lr") in ("lr", "rl", "u")

    def go(self, env, tool, *args, inp=b""):
        r = env.run(tool, *args, inp=inp, variant="asan", timeout=60)
        e = r.err.decode("utf-8", "replace")
        if r.rc not in (0, 1) or "runtime error:" in e or "AddressSanitizer" in e:
            i = max(e.find("runtime error:") - 80, e.find("ERROR: AddressSanitizer"), 0)
            raise Fail("%s %s: exit status %d\n%s" % (tool, " ".join(args), r.rc, e[i:i + 900]))
        return r

    def proc(self, env, b, mode, flags, data):
        if mode in ("merge", "unmerge"):
            self.go(env, "lt-merge", *(["-u"] if mode == "unmerge" else []), inp=data)
        elif mode.startswith("paradigm"):
            self.go(env, "lt-paradigm", *(mode.split()[1:] + [b]), inp=data)
        else:
            self.go(env, "lt-proc", *(mode.split() + [x for f in flags for x in f.split()] + [b]), inp=data)

    def run(self, c, env):
        data = "".join(c["s"]).encode("utf-8", "surrogateescape") * c.get("rep", 1)
        k = c["kind"]
        out = env.path(".bin")
        if k == "stream":
            d = c["dix"]
            direction = "rl" if c["mode"] in ("-g", "-d", "-n", "-l", "-m", "-C", "paradigm") else "lr"
            if self.go(env, "lt-comp", direction, env.write(dix.to_xml(d), ".dix"), out).rc:
                raise Skip()
            if c["mode"].startswith("paradigm") and sum(c["s"].count(x) for x in ("*", "<*>")) > 2:
                raise Skip()
            self.proc(env, out, c["mode"], c["flags"], data)
        elif k == "dix":
            f = env.write(c["text"], ".dix")
            fl = [x for y in c["flags"] for x in y.split()]
            r = self.go(env, "lt-comp", *(fl + [c["dir"], f, out]))
            if not any(x in ("-S", "-j") for x in fl):
                self.go(env, "lt-expand", *([x for x in fl] + [f]))
            if r.rc == 0:
                self.go(env, "lt-print", out)
                if c["dir"] != "u":
                    self.proc(env, out, "-a" if c["dir"] == "lr" else "-g", [], data)
        elif k == "att":
            r = self.go(env, "lt-comp", c["dir"], env.write(c["text"], ".att"), out)
            if r.rc == 0:
                self.go(env, "lt-print", out)
                if loops(out):
                    return True, {"att", "loop"}
                self.proc(env, out, "-a", [], data)
        elif k == "chain":
            n = c["n"]
            L = ["%d\t%d\t%s\tb" % (i, i + 1, c["sym"] if i else "a") for i in range(n)] + ["%d\t0.5" % n]
            if c["back"]:
                L.insert(1, "%d\t%d\tb\tb" % (n - 1, 1))
            if self.go(env, "lt-comp", "lr", env.write("\n".join(L) + "\n", ".att"), out).rc:
                raise Fail("lt-comp refuses a chain of %d states" % n)
            self.go(env, "lt-print", out)
            o2 = env.path(".bin")
            self.go(env, "lt-invert", out, o2)
            self.go(env, "lt-trim", out, o2, env.path(".bin"))
            self.proc(env, out, "-a", [], data)
        elif k == "two":
            o1, o2 = env.path(".bin"), env.path(".bin")
            if any(self.go(env, "lt-comp", c["dir"], env.write(dix.to_xml(c[z]), ".dix"), o).rc for z, o in (("dix", o1), ("dix2", o2))):
                raise Skip()
            op = c["op"].split()
            if op[0] == "acx":
                f = env.write('<analysis-chars><char value="a"><equiv-char value="b"/></char></analysis-chars>', ".acx")
                r = self.go(env, "lt-apply-acx", o1, f, out)
            elif op[0] in ("invert", "restrict"):
                r = self.go(env, "lt-" + op[0], *(op[1:] + [o1, out]))
            else:
                r = self.go(env, "lt-" + op[0], *(op[1:] + [o1, o2, out]))
            if r.rc == 0:
                self.go(env, "lt-print", out)
                if loops(out):
                    return True, {c["op"], "loop"}
                self.proc(env, out, "-a", [], data)
            k = c["op"]
        elif k == "tmx":
            if self.go(env, "lt-tmxcomp", "a-b", env.write(c["text"], ".tmx"), out).rc == 0:
                self.go(env, "lt-tmxproc", *(c["flags"] + [out]), inp=data)
        else:
            f = env.write(c["text"], "." + k)
            x = [f] if k == "acx" else []
            r = self.go(env, "lt-comp", "lr", env.write(dix.to_xml(c["dix"]), ".dix"), out, *x)
            if r.rc == 0:
                self.proc(env, out, "-a", ["-%s %s" % (k[0], f)] if k != "acx" else [], data)
        return len(data) + len(c.get("text", "")) > 10, {k if k != "stream" else c["mode"]}


CHECK = C()
