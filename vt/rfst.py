"""Random weighted transducers, as JSON values: {"n": states, "arcs": [[s, d, i, o, w]], "finals": [[s, w]]};
state 0 is initial.  Symbols as in fst.py ("" is the empty symbol)."""
from .fst import Fst

LET = "abcA"
EXTRA = ["ñ", "É", "日", "𝒜", "😀", "я"]
PUN = [".", "!", "-", "’"]
TAGS = ["<n>", "<vblex>", "<sg>", "<ñ>", "<a b>"]
WTS = [0, 0, 1, 0.5, 2.25, 10, 100.5, 0.125, 3]


def sym(r, side, k):
    x = r.random()
    if x < k.get("eps", 0.15):
        return ""
    if x < k.get("eps", 0.15) + (k.get("tagin", 0.02) if side == 0 else k.get("tagout", 0.25)):
        return r.choice(k.get("tags", TAGS))
    if x > 1 - k.get("extra", 0.08):
        return r.choice(k.get("extras", EXTRA))
    if x > 1 - k.get("extra", 0.08) - k.get("punct", 0.08):
        return r.choice(k.get("puncts", PUN))
    if x > 1 - k.get("extra", 0.08) - k.get("punct", 0.08) - k.get("space", 0.03):
        return " "
    return r.choice(k.get("letters", LET))


def gen(r, n, k=None):
    """random transducer; acyclic unless k["cyclic"]"""
    k = k or {}
    n = max(2, n)
    arcs = []
    for _ in range(r.randint(n, int(n * k.get("dense", 2.2)) + 1)):
        if r.random() < k.get("cyclic", 0):
            s, d = r.randrange(n), r.randrange(n)
        else:
            s = r.randrange(n - 1)
            d = r.randint(s + 1, min(n - 1, s + 3))
        i = sym(r, 0, k)
        o = i if r.random() < k.get("ident", 0.4) else sym(r, 1, k)
        if s >= d and i == "" and o == "":
            o = i = r.choice(LET)          # no empty cycles
        arcs.append([s, d, i, o, r.choice(WTS) if r.random() < k.get("weights", 0.3) else 0])
        if r.random() < 0.08 and arcs:      # parallel arcs that differ in weight only
            a = list(r.choice(arcs))
            a[4] = r.choice(WTS) if k.get("weights", 0.3) else 0
            arcs.append(a)
    fin = [[s, r.choice(WTS) if r.random() < k.get("weights", 0.3) else 0]
           for s in range(0 if r.random() < 0.1 else 1, n) if r.random() < k.get("finals", 0.25)]
    if not fin or r.random() < 0.7:
        if not any(s == n - 1 for s, _ in fin):
            fin.append([n - 1, r.choice(WTS) if r.random() < k.get("weights", 0.3) else 0])
    return {"n": n, "arcs": arcs, "finals": fin}


def ok(j):
    n = j["n"]
    return n >= 1 and all(len(a) == 5 and 0 <= a[0] < n and 0 <= a[1] < n and symok(a[2]) and symok(a[3]) for a in j["arcs"]) \
        and all(0 <= s < n for s, _ in j["finals"]) and len({s for s, _ in j["finals"]}) == len(j["finals"])


def symok(s):
    return len(s) <= 1 or (s.startswith("<") and s.endswith(">") and len(s) > 2)


def acyclic(j):
    """no cycle at all"""
    indeg = {}
    for s, d, *_ in j["arcs"]:
        indeg[d] = indeg.get(d, 0) + 1
    todo = [s for s in range(j["n"]) if not indeg.get(s)]
    seen = 0
    out = {}
    for s, d, *_ in j["arcs"]:
        out.setdefault(s, []).append(d)
    while todo:
        s = todo.pop()
        seen += 1
        for d in out.get(s, ()):
            indeg[d] -= 1
            if indeg[d] == 0:
                todo.append(d)
    return seen == j["n"]


def empty_cycle(j, both=True):
    """is there a cycle on which nothing is read (and, if both, nothing written)?"""
    sub = {"n": j["n"], "arcs": [a for a in j["arcs"] if a[2] == "" and (not both or a[3] == "")], "finals": []}
    return not acyclic(sub)


def to_fst(j, renum=None):
    f = Fst()
    m = renum or (lambda s: s)
    f.init = m(0)
    f.arcs.setdefault(f.init, [])
    for s, d, i, o, w in j["arcs"]:
        f.add(m(s), m(d), i, o, float(w))
    f.finals = {m(s): float(w) for s, w in j["finals"]}
    return f


def useful(j):
    """does some path lead from state 0 to a final state?"""
    fin = {s for s, _ in j["finals"]}
    seen, todo = {0}, [0]
    while todo:
        s = todo.pop()
        if s in fin:
            return True
        for a in j["arcs"]:
            if a[0] == s and a[1] not in seen:
                seen.add(a[1])
                todo.append(a[1])
    return False
