from .. import dix, gen, proc, streams, uni
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig
from .c09 import limit, match, shown

FUNCS = ("biltrans", "with", "without", "lookup", "symbols")


def prefix(lex, syms, sens):
    """(outputs of the longest known beginning, its length)"""
    st, best = lex.start(), ([], 0)
    for k, c in enumerate(syms):
        st = lex.step(st, c, sens)
        o = lex.outputs(st)
        if o:
            best = (o, k + 1)
    return best


class C(Check):
    id = "C20"
    variants = ("plain", "harness", "harness-asan")
    quick_n = 30000
    thorough_n = 600000
    rule = ("random dictionaries loaded once into a processor of the library and random histories of calls of biltrans, "
            "biltransWithQueue, biltransWithoutQueue and lookup on words derived from their entries (recased, truncated, with further "
            "tags, escapes, marks, characters outside the BMP), with and without delimiters, on views into longer texts, with case, "
            "weight and limit options; every answer is compared with a reference lookup; non-trivial: some word is found and another "
            "is not, has a queue, a change of case or several answers")
    technique = "model-based property-based testing of call histories (also under AddressSanitizer and UBSan)"
    assumptions = ["words are not empty and are well-formed stream text"]

    def gen(self, r, size):
        k = gen.ana_knobs(r, weights=r.choice([0, 0, 0.5]))
        k.types = ("standard", "standard", "inconditional")
        if r.random() < 0.4:
            k.maxword, k.chars = 2, "ab"
            k.tags = k.tags[:3]
        if r.random() < 0.2:
            k.extra = list("%#=*@𐐀𐐨😀")
            k.p_extra = 0.3
        side = r.choice(["lr", "lr", "rl"])
        for _ in range(30):
            d = gen.dix(r, k, min(size, 5))
            for _, _, es in d["sections"]:
                for e in es:
                    if r.random() < 0.5:
                        t = gen.tags(r, d["sdefs"], 1, 2)
                        e["items"].append(["p", t, t if r.random() < 0.5 else gen.tags(r, d["sdefs"], 0, 2)])
            try:
                rel = dix.Model(d, side).directed()
            except TooBig:
                continue
            if not any(f & {"", " "} for f in dix.firsts(d, side).values()) and any(rel.values()):
                break
        tags = ["<%s>" % t for t in d["sdefs"]] or ["<n>"]
        ins = sorted({i for x in rel.values() for (i, _) in x}) or [("a",)]
        calls = []
        for _ in range(r.randint(1, 2 + int(size))):
            s = list(r.choice(ins))
            if r.random() < 0.5:
                s = streams.recase_syms(r, s)
            if r.random() < 0.25:
                s = streams.mutate(r, s, tags)
            if r.random() < 0.3:
                s += gen.tags(r, d["sdefs"], 1, 2)
                if r.random() < 0.3:
                    s += ["#", " ", r.choice(k.chars + "/^")]
            fn = r.choice(FUNCS[:4]) if r.random() < 0.9 else "symbols"
            delim = fn in FUNCS[:3] and r.random() < 0.6
            mark = r.choice("=*") if r.random() < 0.1 and fn in FUNCS[:3] else ""
            around = ["", ""]
            if r.random() < 0.3:
                around = [r.choice(["", "x", "\\", "^", "<n>"]), r.choice(["\\", "<", ">", "<n>", "a", "$", "𐐀", "/x$"])]
            calls.append([fn, delim, mark, s, around])
        fl = {}
        for o, p in (("c", 0.12), ("W", 0.15)):
            if r.random() < p:
                fl[o] = True
        if r.random() < 0.1:
            fl["N"] = r.randint(1, 2)
        if r.random() < 0.1:
            fl["L"] = r.randint(1, 2)
        return {"dix": d, "side": side, "init": r.choice(["bil", "bil", "gen", "ana"]), "calls": calls, "flags": fl,
                "asan": r.random() < 0.15}

    def valid(self, c):
        if not (dix.valid(c["dix"]) and c["side"] in ("lr", "rl") and c["init"] in ("bil", "gen", "ana")):
            return False
        if any(c["flags"].get(x, 1) < 1 for x in "NL"):
            return False
        for x in c["calls"]:
            if not (len(x) == 5 and x[0] in FUNCS and x[2] in ("", "=", "*") and isinstance(x[3], list) and len(x[4]) == 2):
                return False
            if not streams.ok([["lu", "", [x[3]]]]) or any("\t" in s or "\n" in s for s in x[3] + x[4]):
                return False
            if x[0] not in FUNCS[:3] and (x[1] or x[2]):
                return False
        return True

    def run(self, c, env):
        d, fl = c["dix"], c["flags"]
        if any(f & {"", " "} for f in dix.firsts(d, c["side"]).values()):
            raise Skip()
        try:
            rel = dix.Model(d, c["side"]).directed()
        except TooBig:
            raise Skip()
        calls = [x for x in c["calls"] if x[3] and not any("\t" in s or "\n" in s for s in x[3])]
        if not any(rel.values()) or not calls:
            raise Skip()
        b, _ = compile_dix(env, d, c["side"])
        lex = proc.Lexicon(rel, "")
        lines, exps, labels = [], [], set()
        for fn, delim, mark, syms, (before, behind) in calls:
            body = mark + streams.esc_syms(syms)
            word = "^%s$" % body if delim else body
            lines.append("\t".join([fn + ("^" if delim else ""), before, word, behind]))
            if fn == "symbols":
                exps.append(["\t".join(syms)])
                labels.add(fn)
                continue
            outs, n = prefix(lex, syms, fl.get("c"))
            whole = n == len(syms)
            queue = streams.esc_syms(["x"] + syms[n:])[1:]
            up = [len(s) == 1 and uni.isupper(s) for s in syms[:2]] + [False]
            forms = None
            if outs:
                forms = limit(proc.readings(outs, up[0] and up[1], up[0]), fl.get("N"), fl.get("L"), fl.get("W"))
                if any(x[1] for x in outs):
                    labels.add("recased")
            if fn == "lookup":
                exps.append(["1\t", forms] if whole and outs else ["0"])
                labels.add("lookup-found" if whole and outs else "lookup-none")
                continue
            tail = "\t0" if fn == "with" else ""
            if mark == "*":
                exps.append([word + tail])
                continue
            if not outs or fn == "without" and not whole or fn == "with" and not whole and not any(len(s) > 1 for s in syms):
                exps.append([("^@" if delim else "@") + word[1 if delim else 0:] + tail])
                labels.add("notfound")
                continue
            if fn == "with":
                tail = "\t%d" % (len(queue.encode("utf-16-le")) // 2)
            labels.add("queue" if queue else "found")
            if len(forms[0]) > 1:
                labels.add("ambiguous")
            exps.append([("^" if delim else "") + mark, ({x + queue: w for x, w in forms[0].items()}, forms[1]), ("$" if delim else "") + tail])
        args = ["api", b, c["init"]] + [x for x in "cW" if fl.get(x)] + [x + str(fl[x]) for x in "NL" if fl.get(x)]
        out = env.ok("harness", *args, inp="\n".join(lines) + "\n", variant="harness-asan" if c["asan"] else "harness").text
        got = out.split("\n")[:-1]
        if len(got) != len(exps):
            raise Fail("%d calls, %d answers: %r" % (len(exps), len(got), out))
        for l, e, g in zip(lines, exps, got):
            text = g.replace("\t", "/").replace("/", "\t", 1) if l.startswith("lookup") else g
            if not match(text, e):
                raise Fail("%s, options %s\nexpected %r\ngot      %r\nhistory %r" % (l, args[2:], shown(e), g, lines))
        good = labels & {"lookup-found", "found", "queue"}
        return bool(good) and bool(labels & {"lookup-none", "notfound", "queue", "recased", "ambiguous"}), labels


CHECK = C()
