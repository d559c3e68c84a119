import json
from ..core import Check, Fail, Skip

ANYC, ANYT, Q = "*", "<*>", "_Q"
CH = "abcAB"


def unit(lemma, tags):
    l = [c for c in lemma] or [ANYC]
    return [ANYC if c == "*" else c for c in l] + (["<%s>" % t for t in tags] or [ANYT])


def patterns(hist):
    """[(id, symbols)] that a history of insertions defines"""
    out, seq, sid = [], None, 0
    for h in hist:
        if h[0] == "begin":
            seq = []
        elif h[0] == "end":
            out += [(sid, p + [Q]) for p in seq]
            seq = None
        elif h[0] == "insert":
            u = unit(h[2], h[3])
            if seq is None:
                out.append((h[1], u + [Q]))
            else:
                sid = h[1]
                seq = [p + ["+"] + u for p in seq] if seq else [u]
        elif h[0] == "label":
            sid = h[1]
            ps = [p for i, p in out if i == h[2]]
            seq = [p + ["+"] + x for p in seq for x in ps] if seq else [list(x) for x in ps]
    return out


def accepts(p, w):
    """does the pattern describe the word?  A wildcard stands for one or more symbols of its kind, a queue for nothing or for a
    blank, underscore or number sign and any characters"""
    cur = {0}

    def skip(s):
        """positions reachable without reading"""
        s = set(s)
        todo = list(s)
        while todo:
            x = todo.pop()
            if isinstance(x, int) and x < len(p) and p[x] == Q and x + 1 not in s:
                s.add(x + 1)
                todo.append(x + 1)
        return s
    cur = skip(cur)
    for c in w:
        tag = len(c) > 1
        nx = set()
        for x in cur:
            if isinstance(x, tuple):            # inside the wildcard or queue in front of position x[0]
                k = p[x[0] - 1]
                if (k == ANYT) == tag:
                    nx |= {x, x[0]}
                continue
            if x == len(p):
                continue
            k = p[x]
            if k == Q:
                if c in ("_", " ", "#"):
                    nx |= {(x + 1,), x + 1}
            elif k == ANYC and not tag or k == ANYT and tag:
                nx |= {(x + 1,), x + 1}
            elif k == c:
                nx.add(x + 1)
        cur = skip(nx)
    return len(p) in cur


class C(Check):
    id = "C27"
    variants = ("harness", "harness-asan")
    quick_n = 60000
    thorough_n = 1500000
    rule = ("random histories of pattern lists (single patterns and sequences, literal or by label, with wildcards in lemmas and "
            "tags), copied, assigned, written and read or serialised and deserialised at random points, and of match states that "
            "read random words derived from the patterns; every classification is compared with matching the patterns one by one; "
            "non-trivial: some word is matched and some word matches a pattern with a wildcard, a queue or a sequence, or several patterns")
    technique = "model-based property-based testing of call histories (also under AddressSanitizer and UBSan)"
    assumptions = ["lemmas are in the Basic Multilingual Plane", "wildcards do not follow each other directly", "at most some dozens of patterns (the state buffer holds 1024 nodes)"]

    def gen(self, r, size):
        tags = ["n", "sg", "v", "x-y"][:r.randint(1, 4)]
        chars = CH[:r.randint(1, 5)]

        def lemma():
            x = r.random()
            if x < 0.25:
                return ""
            l = [r.choice(chars) for _ in range(r.randint(1, 3))]
            if r.random() < 0.3:
                l[r.randrange(len(l))] = "*"
            if r.random() < 0.05:
                l.insert(r.randint(1, len(l)), r.choice("# _é+"))
            return "".join(l).replace("**", "*")

        def tg():
            l = [r.choice(tags + ["*"]) if r.random() < 0.9 else r.choice("abz") for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
            return [t for n, t in enumerate(l) if t != "*" or l[n - 1:n] != ["*"]]
        h, ids = [], []
        n = r.randint(1, 2 + int(size))
        for i in range(n):
            if r.random() < 0.65 or not ids:
                k = r.randint(1, 6)
                h.append(["insert", k, lemma(), tg()])
                ids.append(k)
            else:
                h.append(["begin"])
                k = r.randint(4, 12)
                lab = r.random()
                for _ in range(r.randint(1, 3)):
                    if r.random() < lab:
                        h.append(["label", k, r.choice(ids)])
                    else:
                        h.append(["insert", k, lemma(), tg()])
                h.append(["end"])
                if r.random() < 0.2:
                    ids.append(k)
            if r.random() < 0.1:
                h.append([r.choice(["copy", "assign"])])
        h.append(["build"])
        while r.random() < 0.4:
            h.append([r.choice(["copy", "assign", "file", "serialise"])])
        h.append(["exe"])
        while r.random() < 0.25:
            h.append([r.choice(["exe-copy", "exe-assign"])])
        ps = [p for _, p in patterns(h)] or [["a", "<n>", Q]]
        for _ in range(r.randint(1, 3 + int(size))):
            w = []
            for s in r.choice(ps):
                if s == ANYC:
                    w += [r.choice(chars + "é#+") for _ in range(r.randint(1, 3))]
                elif s == ANYT:
                    w += ["<%s>" % r.choice(tags + ["unk"]) for _ in range(r.choice([1, 1, 2]))]
                elif s == Q:
                    if r.random() < 0.25:
                        w += [r.choice("_ #")] + [r.choice(chars + " +") for _ in range(r.randint(0, 3))]
                else:
                    w.append(s)
            if r.random() < 0.02:
                j = r.randint(0, len(w))
                w[j:j] = [r.choice(chars) for _ in range(r.choice([300, 1020, 1100, 2100]))]
            if r.random() < 0.3 and w:
                x = r.random()
                j = r.randrange(len(w))
                if x < 0.4:
                    w.pop(j)
                elif x < 0.7:
                    w[j] = r.choice(list(chars) + ["<%s>" % t for t in tags] + ["+", "<unk>"])
                else:
                    w.insert(j, r.choice(list(chars) + ["<%s>" % t for t in tags] + ["+"]))
            h.append(["init"])
            if r.random() < 0.1:
                h.append([r.choice(["state-copy", "state-assign"])])
            cut = r.randint(0, len(w)) if r.random() < 0.2 else len(w)
            if w[:cut]:
                h.append(["step"] + w[:cut])
            if cut < len(w):
                h.append(["class"] if r.random() < 0.7 else [r.choice(["state-copy", "state-assign"])])
                h.append(["step"] + w[cut:])
            h.append(["class"] + (sorted(r.sample(range(1, 13), r.randint(1, 3))) if r.random() < 0.2 else []))
            if r.random() < 0.05:
                h += [["clear"], ["class"]]
        return {"history": h, "asan": r.random() < 0.2}

    OPS = {"begin", "end", "insert", "label", "build", "copy", "assign", "file", "serialise", "exe", "exe-copy", "exe-assign", "state-copy",
           "state-assign", "init", "clear", "step", "class"}

    def valid(self, c):
        """the order that the library requires"""
        seq = built = exe = stored = False
        inits = 0
        ids = set()
        n = 0
        for h in c["history"]:
            if not (isinstance(h, list) and h and h[0] in self.OPS):
                return False
            o = h[0]
            if o in ("begin", "end", "insert", "label") and (built or exe):
                return False
            if o == "begin":
                if seq:
                    return False
                seq, n = True, 0
            elif o == "end":
                if not seq or not n:
                    return False
                seq = False
                ids.add(sid)
            elif o == "insert":
                if len(h) != 4 or not isinstance(h[1], int) or h[1] < 1 or not isinstance(h[2], str) or not isinstance(h[3], list):
                    return False
                if any(ord(x) > 0xffff or x in "<>\t\n\0" for x in h[2]) or any(not t or set(t) & set("<>.\t\n") for t in h[3]):
                    return False
                if "**" in h[2] or "*.*" in ".".join(h[3]):
                    return False
                n += 1
                sid = h[1]
                if not seq:
                    ids.add(h[1])
            elif o == "label":
                if not seq or len(h) != 3 or h[2] not in ids:
                    return False
                n += 1
                sid = h[1]
            elif o == "build":
                if built or seq:
                    return False
                built = True
            elif o in ("copy", "assign"):
                if seq:
                    return False
            elif o in ("file", "serialise"):
                if not built or exe:
                    return False
            elif o == "exe":
                if not built or exe:
                    return False
                exe = True
            elif o in ("exe-copy", "exe-assign"):
                if not exe or inits:
                    return False
            elif o == "init":
                if not exe:
                    return False
                inits += 1
            elif o in ("step", "class", "clear", "state-copy", "state-assign"):
                if not inits:
                    return False
                if o == "step" and not all(isinstance(s, str) and (len(s) == 1 and s not in "\t\n<" or len(s) > 2 and s[0] == "<" and s[-1] == ">") for s in h[1:]):
                    return False
        return True

    def run(self, c, env):
        if not self.valid(c):
            raise Skip()
        hist = c["history"]
        ps = patterns(hist)
        if len(ps) > 60 or sum(len(p) for _, p in ps) > 600:
            raise Skip()
        lines, exps, labels, w, live = [], [], set(), [], False
        hit = kind = False
        for h in hist:
            if h[0] == "insert":
                lines.append("insert\t%d\t%s\t%s" % (h[1], h[2], ".".join(h[3])))
                continue
            lines.append("\t".join(map(str, h)))
            if h[0] == "init":
                w, live = [], True
            elif h[0] == "clear":
                live = False
            elif h[0] == "step":
                w = w + h[1:]
            elif h[0] == "class":
                m = [(i, p) for i, p in ps if live and accepts(p, w)]
                ids = {i for i, _ in m}
                exps.append((ids, set(h[1:]), list(w)))
                if ids:
                    hit = True
                    labels.add("banned" if h[1:] else "several" if len(ids) > 1 else "one")
                    if len(ids) > 1 or any(set(p[:-1]) & {ANYC, ANYT, Q, "+"} for _, p in m) or any(x in w for x in "_ #"):
                        kind = True
                else:
                    labels.add("none")
            if h[0] in ("copy", "assign", "file", "serialise", "exe-copy", "exe-assign", "state-copy", "state-assign", "label"):
                labels.add(h[0])
        if not exps:
            raise Skip()
        out = env.ok("harness", "match", inp="\n".join(lines) + "\n", variant="harness-asan" if c["asan"] else "harness").text
        got = [l.split("\t")[0] for l in out.split("\n")[:-1]]
        if len(got) != len(exps):
            raise Fail("%d questions, %d answers: %r" % (len(exps), len(got), out))
        for (ids, ban, w), g in zip(exps, got):
            g = int(g)
            if ids and min(ids) not in ban:
                good = g == min(ids)
            else:
                # where the lowest number is banned, another pattern may or may not share its place
                good = g == -1 or g in ids - ban
            if not good:
                raise Fail("word %s: matching patterns %s, banned %s, got %d\n%s" % ("".join(w), sorted(ids), sorted(ban), g, "\n".join(lines)))
        return hit and kind, labels


CHECK = C()
