import math, struct
from ..core import Check, Fail, Skip

RANGE = {"i32": (-2 ** 31, 2 ** 31 - 1), "u32": (0, 2 ** 32 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "u64": (0, 2 ** 64 - 1),
         "chr": (-128, 127), "uch": (0, 65535), "mb": (0, 2 ** 30 - 1)}
FILE = ("mb", "lmb", "ustr")


def bits(d):
    return "%x" % struct.unpack("<Q", struct.pack("<d", d))[0]


def dbl(b):
    return struct.unpack("<d", struct.pack("<Q", int(b, 16)))[0]


def coarse(d):
    """what the compiled files keep of a weight: 30 bits of its mantissa"""
    if math.isinf(d):
        return d
    m, e = math.frexp(d)
    return math.ldexp(math.trunc(m * 2 ** 30) / 2 ** 30, e)


def units(s):
    b = s.encode("utf-16-be", "surrogatepass")
    return b.hex()


class C(Check):
    id = "C28"
    variants = ("harness", "harness-asan")
    quick_n = 60000
    thorough_n = 1500000
    rule = ("random sequences of values (integers near every power of two, characters, strings, floating-point numbers, vectors, maps "
            "and nested maps) written one after the other to a stream or file and read back, some cut short; every value is compared "
            "with the one written and the position after it with the position after writing it; non-trivial: at least 3 values of at "
            "least 2 types")
    technique = "property-based testing: round trips, with truncation faults (also under AddressSanitizer and UBSan)"
    assumptions = ["compressed weights are not NaN", "compressed strings are valid UTF-16"]

    def gen(self, r, size):
        def num(t):
            lo, hi = RANGE[t]
            if r.random() < 0.7:
                x = (1 << r.randint(0, hi.bit_length())) + r.randint(-2, 2)
                x = -x if lo < 0 and r.random() < 0.5 else x
            else:
                x = r.randint(lo, hi)
            return min(max(x, lo), hi)

        def d(coarse_ok=False):
            x = r.random()
            if x < 0.25:
                return bits(float(r.randint(-4, 40)))
            if x < 0.5:
                return bits(r.randint(-10 ** 6, 10 ** 6) / 10.0 ** r.randint(0, 6))
            if x < 0.6:
                return bits(r.choice([math.inf, -math.inf, 0.0, -0.0, 1e308, 5e-324, -1e-300]))
            if x < 0.8:
                return bits(r.uniform(-1, 1) * 2.0 ** r.randint(-900, 900))
            if coarse_ok:
                return bits(r.random())
            return "%x" % r.getrandbits(64)

        def s(u16=True):
            n = r.choice([0, 1, 2, 5, 5, 9]) if r.random() < 0.95 else r.choice([63, 64, 65, 255, 256, 257, 300])
            if u16 and r.random() < 0.3:
                return "".join("%04x" % r.choice([r.randint(0, 65535), r.randint(0, 300)]) for _ in range(n))
            return units("".join(r.choice(["a", "é", "Ж", "漢", "😀", "𐐀", "\uffff", "ÿ", "Ā"]) for _ in range(n)))
        where = r.choice("fs")
        vals = []
        for _ in range(r.randint(1, 2 + int(2 * size))):
            t = r.choice(FILE) if where == "f" else r.choice(["i32", "u32", "i64", "u64", "chr", "uch", "dbl", "str", "vec", "map", "nest", "mb", "lmb"])
            if t in RANGE:
                vals.append([t, str(num(t))])
            elif t in ("dbl", "lmb"):
                vals.append([t, d(t == "lmb")])
            elif t in ("str", "ustr"):
                vals.append([t, s(t == "str")])
            elif t == "vec":
                vals.append([t] + [s() for _ in range(r.randint(1, 4))])
            elif t == "map":
                v = [t]
                for _ in range(r.randint(0, 5)):
                    v += [str(num("i32")), d()]
                vals.append(v)
            else:
                v = [t]
                for _ in range(r.randint(0, 6)):
                    v += [str(r.randint(-2, 3)), str(num("i32") if r.random() < 0.5 else r.randint(-2, 2)), str(num("i32")), d()]
                vals.append(v)
        return {"where": where, "vals": vals, "cut": r.random() if where == "s" and r.random() < 0.3 else -1, "asan": r.random() < 0.2}

    def valid(self, c):
        if c["where"] not in ("f", "s") or not c["vals"]:
            return False
        try:
            for v in c["vals"]:
                t = v[0]
                if c["where"] == "f" and t not in FILE or c["where"] == "s" and t == "ustr":
                    return False
                if t in RANGE:
                    if len(v) != 2 or not RANGE[t][0] <= int(v[1]) <= RANGE[t][1]:
                        return False
                elif t in ("dbl", "lmb"):
                    if len(v) != 2 or t == "lmb" and math.isnan(dbl(v[1])):
                        return False
                    dbl(v[1])
                elif t in ("str", "ustr"):
                    if len(v) != 2 or len(v[1]) % 4 or t == "ustr" and bytes.fromhex(v[1]).decode("utf-16-be") is None:
                        return False
                    bytes.fromhex(v[1])
                elif t == "vec":
                    for x in v[1:]:
                        bytes.fromhex(x)
                        if len(x) % 4:
                            return False
                    if len(v) < 2 or len(v) == 2 and not v[1]:
                        return False
                elif t in ("map", "nest"):
                    k = 2 if t == "map" else 4
                    if (len(v) - 1) % k:
                        return False
                    for n in range(1, len(v), k):
                        for x in v[n:n + k - 1]:
                            if not -2 ** 31 <= int(x) < 2 ** 31:
                                return False
                        dbl(v[n + k - 1])
                else:
                    return False
        except (ValueError, IndexError, struct.error, TypeError):
            return False
        return True

    def norm(self, v):
        t = v[0]
        if t == "lmb":
            return "lmb\t" + bits(coarse(dbl(v[1])))
        if t in ("dbl",):
            return "dbl\t%x" % int(v[1], 16)
        if t == "map":
            m = {}
            for n in range(1, len(v), 2):
                m[int(v[n])] = "%x" % int(v[n + 1], 16)
            return "map\t" + "\t".join("%d\t%s" % x for x in sorted(m.items()))
        if t == "nest":
            l = [(int(v[n]), int(v[n + 1]), k, v[n + 2], "%x" % int(v[n + 3], 16)) for k, n in enumerate(range(1, len(v), 4))]
            return "nest\t" + "\t".join("%d\t%d\t%s\t%s" % (a, b, x, y) for a, b, _, x, y in sorted(l))
        return "\t".join(v)

    def run(self, c, env):
        if not self.valid(c):
            raise Skip()
        vals = c["vals"]
        inp = "\n".join("\t".join(v) for v in vals) + "\n"
        variant = "harness-asan" if c["asan"] else "harness"
        out = env.ok("harness", "codec", c["where"], "-1", inp=inp, variant=variant).text.split("\n")
        exp = [self.norm(v) for v in vals]
        ends = []
        for n, e in enumerate(exp):
            x = out[n].rsplit("\t", 2)
            if len(x) != 3 or x[0] != e and not (len(vals[n]) == 1 and x[0].rstrip("\t") == e.rstrip("\t")):
                raise Fail("value %d: written %r, expected %r, read %r\nall: %r" % (n, vals[n], e, out[n], vals))
            if x[1] != x[2]:
                raise Fail("value %d (%r) ends at byte %s, but reading it stops at %s\nall: %r" % (n, vals[n], x[2], x[1], vals))
            ends.append(int(x[2]))
        if out[len(exp)] != "end":
            raise Fail("unexpected %r" % out[len(exp):])
        labels = {v[0] + ("-file" if c["where"] == "f" else "") for v in vals}
        if c["cut"] >= 0 and not any(v[0] in ("mb", "lmb") for v in vals):
            at = int(c["cut"] * ends[-1])
            o2 = env.ok("harness", "codec", "s", str(at), inp=inp, variant=variant).text.split("\n")[:-1]
            k = sum(e <= at for e in ends)
            if len(o2) != k + 1 or not o2[k].startswith("cut\t") or [l.rsplit("\t", 2)[0] for l in o2[:k]] != [l.rsplit("\t", 2)[0] for l in out[:k]]:
                raise Fail("cut at byte %d (values end at %s), reading gives %r\nall: %r" % (at, ends, o2, vals))
            labels.add("cut")
        return len(vals) >= 3 and len(labels) >= 2, labels


CHECK = C()
