"""Streams of lexical units, as JSON: a list of items, each a blank item of gen.py (string, ["e", c], ["b", s], ["wb", s])
or a lexical unit ["lu", mark, [reading...]] with a reading a list of symbols (characters or "<tag>")."""
from . import gen

MARKS = "*@#=%"
RES = set("[]{}^$/\\@<>")


def esc_syms(syms):
    o = []
    for n, s in enumerate(syms):
        if len(s) > 1:
            o.append(s)
        elif s in RES or (n == 0 and s in MARKS):
            o.append("\\" + s)
        else:
            o.append(s)
    return "".join(o)


def lu_text(it):
    return "^" + it[1] + "/".join(esc_syms(r) for r in it[2]) + "$"


def item_text(it):
    return lu_text(it) if isinstance(it, list) and it and it[0] == "lu" else gen.item_text(it)


def text(items):
    return "".join(map(item_text, items))


def is_lu(it):
    return isinstance(it, list) and len(it) == 3 and it[0] == "lu"


def tag_ok(s):
    return len(s) > 2 and s[0] == "<" and s[-1] == ">" and not any(c in s[1:-1] for c in "<>\\\0^$[]{}")


def ok(items):
    for it in items:
        if is_lu(it):
            if not (it[1] == "" or it[1] in MARKS) or not isinstance(it[2], list) or not it[2]:
                return False
            for r in it[2]:
                if not isinstance(r, list) or not all(isinstance(s, str) and (len(s) == 1 and s != "\0" or tag_ok(s)) for s in r):
                    return False
        elif isinstance(it, list) and it and it[0] == "lu":
            return False
        elif not gen.text_ok([it]):
            return False
    return True


def blanks(r, n=2, nulls=False):
    out = []
    for _ in range(r.randint(0, n)):
        x = r.random()
        if x < 0.4:
            out.append(" ")
        elif x < 0.6:
            out.append(gen.blank_item(r))
        elif x < 0.7:
            out.append(r.choice(["\n", ". ", "ab c", "]x", "{a}", "@", "/", "😀", "\\", "é^"]))
        elif x < 0.75:
            out.append(["e", r.choice(list("^$@/\\[]{}<>") + ["a", " "])])
    return out


def recase_syms(r, syms):
    x = r.random()
    up = lambda c: c.upper() if len(c) == 1 and len(c.upper()) == 1 else c
    if x < 0.4:
        return list(syms)
    if x < 0.6:
        return [up(s) if n == 0 else s for n, s in enumerate(syms)]
    if x < 0.8:
        return [up(s) if len(s) == 1 else s for s in syms]
    return [up(s) if len(s) == 1 and r.random() < 0.5 else s for s in syms]


def mutate(r, syms, tags, chars="abcAB"):
    s = list(syms)
    x = r.random()
    if x < 0.25 and s:
        s.pop(r.randrange(len(s)))
    elif x < 0.5:
        s.append(r.choice(tags + ["<unk>"]))
    elif x < 0.6:
        s.insert(r.randint(0, len(s)), r.choice(chars))
    elif x < 0.7:
        s += ["#", " ", r.choice(chars)]
    elif x < 0.8:
        s += [r.choice(tags + ["<unk>"]), "+", r.choice(chars)]
    elif s:
        s[r.randrange(len(s))] = r.choice(list(chars) + tags + list("/^@\\*#"))
    return s
