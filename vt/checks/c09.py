import itertools
from .. import binfmt, dix, gen, proc, streams, uni
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig

MODES = {"g": "-g", "d": "-d", "n": "-n", "l": "-l", "m": "-m", "C": "-C"}


def esc_once(s):
    o, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            o.append(s[i:i + 2])
            i += 2
            continue
        o.append("\\" + s[i] if s[i] in uni.ESCAPED else s[i])
        i += 1
    return "".join(o)


def careful(secs, syms):
    """the documented careful-case lookup on the arcs of the compiled transducers: an upper-case letter is read as lower
    case only where the transducer does not continue with the letter itself"""
    out = []
    st = []

    def closure(l):
        i = 0
        while i < len(l):
            f, s, o, w, d = l[i]
            for a, b, t, aw in f.arcs.get(s, ()):
                if a == "":
                    l.append((f, t, o + ((b,) if b else ()), w + aw, d))
            i += 1
            if len(l) > 5000:
                raise TooBig()
        return l
    st = closure([(f, f.init, (), 0.0, False) for f in secs])
    for c in syms:
        nx = []
        for f, s, o, w, d in st:
            arcs = [x for x in f.arcs.get(s, ()) if x[0] == c]
            dd = d
            if not arcs and len(c) == 1 and uni.isupper(c):
                arcs = [x for x in f.arcs.get(s, ()) if x[0] == uni.tolower(c)]
                dd = True
            for a, b, t, aw in arcs:
                nx.append((f, t, o + ((b,) if b else ()), w + aw, dd))
        st = closure(nx)
    return [(o, d, w + f.finals[s]) for f, s, o, w, d in st if s in f.finals]


def match(text, exp):
    """does the text consist of the expected parts?  A part is a string or (forms {text: weight}, count)."""
    todo, seen = [(0, 0, frozenset())], set()
    while todo:
        at = todo.pop()
        if at in seen:
            continue
        seen.add(at)
        pos, k, used = at
        if k == len(exp):
            if pos == len(text):
                return True
            continue
        e = exp[k]
        if isinstance(e, str):
            if text.startswith(e, pos):
                todo.append((pos + len(e), k + 1, frozenset()))
            continue
        forms, count = e
        if len(used) == count:
            todo.append((pos, k + 1, frozenset()))
            continue
        rest = [f for f in forms if f not in used]
        w = min(forms[f] for f in rest)
        if used:
            if not text.startswith("/", pos):
                continue
            pos += 1
        todo += [(pos + len(f), k, used | {f}) for f in rest if forms[f] <= w + 1e-9 and text.startswith(f, pos)]
    return False


def shown(e):
    return "".join(x if isinstance(x, str) else "{%s}" % "/".join(sorted(x[0], key=lambda f: x[0][f])) for x in e)


def limit(rs, n, l, w):
    """(forms as printed -> weight, how many of them)"""
    items = dict(rs)
    if l is not None:
        cl = []
        for x in sorted(items.values()):
            if not cl or x - cl[-1] > 1e-9:
                cl.append(x)
        items = {k: x for k, x in items.items() if x <= cl[min(l, len(cl)) - 1] + 1e-9}
    if w:
        items = {k + "<W:%f>" % x: x for k, x in items.items()}
    return items, min(len(items), n or len(items))


class C(Check):
    id = "C09"
    quick_n = 45000
    thorough_n = 1500000
    rule = ("random dictionaries compiled as generators and random streams of lexical units derived from their lexical forms "
            "(recased, truncated, with unknown tags, marks, queues, alternatives, escapes, blanks of every kind), in every generation "
            "mode and with case, weight and limit options; compared with a reference generator; non-trivial: at least one unit is "
            "generated and one of them is changed in case or ambiguous, or one is not found")
    technique = "property-based testing against a reference implementation"
    assumptions = ["lexical units have a non-empty lemma", "units inside chunks are left out"]

    def gen(self, r, size):
        k = gen.ana_knobs(r, weights=r.choice([0, 0, 0.5]))
        if r.random() < 0.4:
            k.maxword, k.chars = 2, "ab"
            k.tags = k.tags[:3]
        for _ in range(30):
            d = gen.dix(r, k, min(size, 5))
            wide = gen.widen(r, k, d, "r")
            try:
                rel = dix.Model(d, "rl").directed()
            except TooBig:
                continue
            if not any(f & {"", " "} for f in dix.firsts(d, "rl").values()) and any(rel.values()):
                break
        ins = sorted({i for x in rel.values() for (i, _) in x}) or [("a",)]
        if wide:
            ins = ins[:3] + [tuple(d["sections"][0][2][-1]["items"][0][2])] * 3
        tags = ["<%s>" % t for t in d["sdefs"]] or ["<n>"]
        items = []
        for _ in range(r.randint(1, 1 + int(size))):
            s = list(r.choice(ins))
            if r.random() < 0.45:
                s = streams.recase_syms(r, s)
            if r.random() < 0.25:
                s = streams.mutate(r, s, tags)
            while s and len(s[0]) > 1:
                s.pop(0)
            rs = [s]
            if r.random() < 0.1:
                rs.append(list(r.choice(ins)))
            items += streams.blanks(r)
            wb = r.random() < 0.1
            if wb:
                items.append(["wb", "t:x:1"])
            items.append(["lu", r.choice(streams.MARKS) if r.random() < 0.12 else "", rs])
            if wb:
                items.append(["wb", "/"])
        items += streams.blanks(r)
        fl = {"mode": r.choice(list(MODES))}
        for o, p in (("c", 0.12), ("w", 0.12), ("W", 0.15)):
            if r.random() < p:
                fl[o] = True
        if r.random() < 0.1:
            fl["N"] = r.randint(1, 2)
        if r.random() < 0.1:
            fl["L"] = r.randint(1, 2)
        return {"dix": d, "stream": items, "flags": fl}

    def valid(self, c):
        return dix.valid(c["dix"]) and streams.ok(c["stream"]) and c["flags"].get("mode") in MODES and \
            all(not r or len(r[0]) == 1 for it in c["stream"] if streams.is_lu(it) for r in it[2][:1])

    def run(self, c, env):
        d, fl = c["dix"], c["flags"]
        if any(f & {"", " "} for f in dix.firsts(d, "rl").values()):
            raise Skip()
        try:
            rel = dix.Model(d, "rl").directed()
        except TooBig:
            raise Skip()
        if not any(rel.values()):
            raise Skip()
        b, _ = compile_dix(env, d, "rl")
        lex = proc.Lexicon(rel, d["alphabet"])
        secs = None
        mode, sens = fl["mode"], fl.get("c")
        if mode == "C" and not sens:
            with open(b, "rb") as fh:
                f = binfmt.read(fh.read())
            secs = [f.fst(n) for n in f.sections]
        exp, labels, nt = [], [mode], False
        for it in c["stream"]:
            if not streams.is_lu(it):
                exp.append(streams.item_text(it))
                continue
            syms, mark = it[2][0], it[1]
            content = streams.esc_syms(syms)
            lem = []
            for s in syms:
                if len(s) > 1:
                    break
                lem.append(s)
            lemma = esc_once(streams.esc_syms(lem))
            tagged = lemma + content[len(streams.esc_syms(lem)):]
            everything = esc_once(content)
            if mark == "=":
                exp.append("=")
            if mark in ("*", "%") and mark:
                if mode == "m":
                    exp.append("^%s/%s%s$" % (lemma, mark, tagged))
                else:
                    exp.append(("" if mode == "n" else mark) + everything)
                continue
            if mark == "@":
                exp.append({"d": "@" + everything, "n": lemma, "m": "^%s/@%s$" % (lemma, tagged)}.get(mode, "@" + lemma))
                continue
            if secs is not None:
                try:
                    outs = careful(secs, syms)
                except TooBig:
                    raise Skip()
            else:
                outs = lex.outputs(lex.lookup(syms, sens))
            if outs:
                ch = lambda n: len(syms) > n and len(syms[n]) == 1 and uni.isupper(syms[n])
                up, first = (False, False) if fl.get("w") else (ch(1), ch(0))
                rs = proc.readings(outs, up, first)
                if len(rs) > 1 or any(x[1] for x in outs):
                    nt = True
                    labels.append("recased" if any(x[1] for x in outs) else "ambiguous")
                part = limit(rs, fl.get("N"), fl.get("L"), fl.get("W"))
                if mode in "lm":
                    exp += ["^", part, "/" + tagged + "$"]
                else:
                    exp.append(part)
            else:
                labels.append("notfound")
                nt = True
                h = "#" if content else ""
                exp.append({"d": "#" + everything, "n": lemma, "m": "^%s/#%s$" % (lemma, tagged)}.get(mode, h + lemma))
        args = [MODES[mode]] + ["-" + x for x in "cwW" if fl.get(x)] + (["-N", str(fl["N"])] if fl.get("N") else []) + \
            (["-L", str(fl["L"])] if fl.get("L") else [])
        text = streams.text(c["stream"])
        out = env.ok("lt-proc", *(args + [b]), inp=text).text
        if not match(out, exp):
            raise Fail("lt-proc %s on %r\nexpected %r\ngot      %r" % (" ".join(args), text, shown(exp), out))
        return nt, set(labels)


CHECK = C()
