"""Text functions of the library."""
import struct, unicodedata
from ..core import Check, Fail, Skip
from ..uni import isspace

LET = ["a", "b", "c", "A", "B", "z", "é", "É", "ñ", "Ñ", "ß", "ẞ", "ж", "Ж", "σ", "ς", "Σ", "ΐ", "ŉ", "ﬁ", "ﬃ", "ǆ", "ǅ", "Ǆ", "İ", "ı", "i", "I", "ÿ", "Ÿ", "µ", "ſ",
       "\U00010400", "\U00010428", "k", "K"]
SPACE = [" ", "\t", "\n", "\u00a0", "\u2003", "\u3000", "\u2028", "\x1f", "\u0085"]
OTHER = ["1", "0", "-", ".", ";", "\\", "/", "<", ">", "[", "]", "漢", "😀", "\u200b", "\ufeff", "+", ","]
FUNCS = ["trim", "split", "split_escaped", "join", "substitute", "itoa", "ftoa", "stoi", "stod", "tolower", "toupper", "totitle", "getcase", "copycase", "caseequal",
         "startswith", "endswith", "merge_wblanks", "vec32", "utf8"]
TWO = ("split", "split_escaped", "copycase", "caseequal", "startswith", "endswith", "merge_wblanks")
CASED = ("tolower", "toupper", "totitle", "copycase", "caseequal")


def hex16(s):
    return s.encode("utf-16-be").hex()


def lst(l):
    return " ".join([str(len(l))] + [hex16(x) for x in l])


def upper1(c):
    return unicodedata.category(c) == "Lu"


def title(s):
    o, w = "", ""
    for c in s + " ":
        if c == " ":
            if w:
                t = w[0].title()
                # lower case in the context of the word
                o += t + w.lower()[len(w[0].lower()):]
            o, w = o + " ", ""
        else:
            w += c
    return o[:-1]


def model(fn, a):
    s = a[0]
    if fn == "trim":
        i, j = 0, len(s)
        while i < j and isspace(s[i]):
            i += 1
        while j > i and isspace(s[j - 1]):
            j -= 1
        return hex16(s[i:j])
    if fn == "split":
        return lst([x for x in s.split(a[1]) if x])
    if fn == "split_escaped":
        l, i = [""], 0
        while i < len(s):
            if s[i] == "\\":
                l[-1] += s[i:i + 2]
                i += 2
                continue
            if s[i] == a[1]:
                l.append("")
            else:
                l[-1] += s[i]
            i += 1
        return lst([x for x in l if x])
    if fn == "join":
        return hex16(s.join(a[1:]))
    if fn == "substitute":
        return hex16(s.replace(a[1], a[2]))
    if fn == "itoa":
        return hex16(s) + " " + s
    if fn == "ftoa":
        return hex16("%f" % float(s))
    if fn == "stoi":
        return s
    if fn == "tolower":
        return hex16(s.lower())
    if fn == "toupper":
        return hex16(s.upper())
    if fn == "totitle":
        return hex16(title(s))
    if fn == "getcase":
        return hex16("aa" if not s or not upper1(s[0]) else "AA" if len(s) > 1 and upper1(s[-1]) else "Aa")
    if fn == "copycase":
        if not s or not a[1]:
            return hex16(a[1])
        if not upper1(s[0]):
            return hex16(a[1].lower())
        return hex16(a[1].upper() if len(s) > 1 and upper1(s[-1]) else title(a[1]))
    if fn == "caseequal":
        return str(int(s.casefold() == a[1].casefold()))
    if fn == "startswith":
        return str(int(s.startswith(a[1])))
    if fn == "endswith":
        return str(int(s.endswith(a[1])))
    if fn == "merge_wblanks":
        return hex16(s[:-2] + "; " + a[1][2:] if s and a[1] else s or a[1])
    if fn == "vec32":
        return "".join(" %d" % ord(c) for c in s) + " " + hex16(s) + " 7"
    return hex16(s)


class C(Check):
    id = "C30"
    variants = ("harness", "harness-asan")
    quick_n = 40000
    thorough_n = 1000000
    rule = ("random calls of the library's text functions (trimming, splitting, joining, replacing, numbers, case mapping, case detection and "
            "transfer, caseless comparison, prefixes and suffixes, word-bound blanks, conversions) on random texts with letters that have "
            "special case mappings, letters outside the BMP and all kinds of spaces, compared with a reference implementation; "
            "non-trivial: at least 3 calls with a non-empty text")
    technique = "property-based testing against a reference implementation (also under AddressSanitizer and UBSan)"
    assumptions = ["delimiters and replaced texts are not empty, and the joined pieces are not empty", "case is converted in words of Latin, Greek, Cyrillic and Deseret letters"]

    def gen(self, r, size):
        def t(n, pool=None):
            return "".join(r.choice(pool or r.choice([LET, LET, SPACE, OTHER])) for _ in range(r.randint(0, n)))

        def words():
            return " ".join(t(4, LET) for _ in range(r.randint(1, 3)))
        calls = []
        for _ in range(r.randint(1, 3 + int(size * 2))):
            fn = r.choice(FUNCS)
            if fn in CASED:
                a = [words()]
                if fn == "copycase":
                    a = [t(3), words()]
                elif fn == "caseequal":
                    a.append(r.choice([str.upper, str.lower, str.title, str.casefold, str.swapcase])(a[0]) if r.random() < 0.7 else words())
            elif fn == "trim":
                a = [t(4, SPACE) + t(4) + t(4, SPACE)]
            elif fn in ("split", "substitute"):
                d = r.choice([" ", ";", "aa", "ab", "aba", "漢", "😀", "\\"])
                a = [r.choice(["", d]) + "".join(r.choice([d, d, t(2), d[:1], "a"]) for _ in range(r.randint(0, 6))), d]
                if fn == "substitute":
                    a.append(r.choice(["", d + d, "x", d[:1], t(3)]))
            elif fn == "split_escaped":
                d = r.choice(" ;/a漢")
                a = ["".join(r.choice([d, d, "\\" + d, "\\\\", "\\", t(2)]) for _ in range(r.randint(0, 7))), d]
            elif fn == "join":
                a = [r.choice(["", " ", ", ", "漢"])] + [t(3) or "x" for _ in range(r.randint(0, 4))]
            elif fn in ("itoa", "stoi"):
                n = r.choice([0, 1, -1, 9, 10, 2 ** 31 - 1, -2 ** 31, r.randint(-2 ** 31, 2 ** 31 - 1), r.randint(-200, 200)])
                a = [str(n)]
            elif fn == "ftoa":
                a = [str(r.choice([0, r.randint(-100, 100), r.randint(-10 ** 6, 10 ** 6), r.randint(-2 ** 40, 2 ** 40)]) / 8)]
            elif fn == "stod":
                a = [r.choice(["inf", "-inf", "0", "-0.5", "1.5", str(r.randint(-10 ** 6, 10 ** 6)), "%.6f" % r.uniform(-1000, 1000), "%.3f" % r.uniform(-1, 1)])]
            elif fn in ("startswith", "endswith"):
                x = t(5)
                k = r.randint(0, len(x))
                a = [x, r.choice([x[:k], x[k:], x[:k] + "a", "a" + x[k:], x + "a"])]
            elif fn == "merge_wblanks":
                a = [r.choice(["", "[[" + t(3, LET + OTHER[:5] + [" ", " "]) + "]]"]) for _ in range(2)]
            else:
                a = [t(6).replace("\0", "")]
            calls.append([fn] + a)
        return {"calls": calls, "asan": r.random() < 0.25}

    def valid(self, c):
        if not c["calls"]:
            return False
        for fn, *a in c["calls"]:
            for x in a:
                if not isinstance(x, str) or any(ord(y) > 0x10ffff or 0xd800 <= ord(y) < 0xe000 for y in x) or "\0" in x:
                    return False
            if fn not in FUNCS or len(a) != (2 if fn in TWO else 3 if fn == "substitute" else 1) and fn != "join" or not a:
                return False
            if fn in ("split", "substitute") and not a[1] or fn == "split_escaped" and (len(a[1]) != 1 or ord(a[1]) > 0xffff or a[1] == "\\") or fn == "join" and not all(a[1:]):
                return False
            if fn in CASED and not all(y in LET or y == " " for y in (a[1] if fn == "copycase" else "".join(a))):
                return False
            if fn in ("itoa", "stoi"):
                if not -2 ** 31 <= int(a[0]) < 2 ** 31 or str(int(a[0])) != a[0]:
                    return False
            if fn == "ftoa" and (not abs(float(a[0])) < 2 ** 40 or float(a[0]) * 8 % 1):
                return False
            if fn == "stod":
                if float(a[0]) != float(a[0]) or any(y not in "-.0123456789" for y in a[0]) and a[0] not in ("inf", "-inf"):
                    return False
            if fn == "merge_wblanks" and any(x and not (x[:2] == "[[" and x[-2:] == "]]" and len(x) > 3) for x in a):
                return False
        return True

    def run(self, c, env):
        inp = "".join("\t".join([fn] + [hex16(x) for x in a]) + "\n" for fn, *a in c["calls"])
        got = env.ok("harness", "text", inp=inp, variant="harness-asan" if c["asan"] else "harness").text.split("\n")[:-1]
        for n, (fn, *a) in enumerate(c["calls"]):
            g = got[n] if n < len(got) else None
            if fn == "stod":
                want = float(a[0])
                v = None if g in (None, "refused") else struct.unpack("<d", struct.pack("<Q", int(g, 16)))[0]
                ok = v is not None and (v == want or abs(v - want) <= 1e-12 * abs(want))
                w = want
            else:
                w = model(fn, a)
                ok = g == w
            if not ok:
                def show(x):
                    try:
                        return repr(bytes.fromhex(x).decode("utf-16-be"))
                    except Exception:
                        return repr(x)
                raise Fail("%s(%s)\nexpected %s\ngot      %s" % (fn, ", ".join(repr(x) for x in a), show(w), show(g)))
        return sum(1 for x in c["calls"] if any(x[1:])) >= 3, {x[0] for x in c["calls"]}


CHECK = C()
