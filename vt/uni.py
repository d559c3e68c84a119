"""The handful of Unicode predicates lttoolbox relies on (ICU definitions)."""
import unicodedata as U


def isupper(c):
    return U.category(c) == "Lu"


def isalnum(c):
    k = U.category(c)
    return k[0] == "L" or k == "Nd"


def isspace(c):
    return U.category(c)[0] == "Z" or "\t" <= c <= "\r" or "\x1c" <= c <= "\x1f" or c == "\x85"


def islower(c):
    return U.category(c) == "Ll"


def ispunct(c):
    return U.category(c)[0] == "P"


def tolower(c):
    """simple mapping"""
    if c == "İ":
        return "i"
    l = c.lower()
    return l if len(l) == 1 else c


def toupper(c):
    u = c.upper()
    return u if len(u) == 1 else c


ESCAPED = set("[]{}^$/\\@<>")


def esc(s):
    return "".join("\\" + c if c in ESCAPED else c for c in s)
