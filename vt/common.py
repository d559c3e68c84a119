"""Helpers shared by checks that go through the command-line tools."""
from . import dix, fst, gen
from .core import Fail, Skip
from .fst import TooBig


def compile_dix(env, d, direction, opts=None, env_vars=None, flags=()):
    """lt-comp; returns (binary path, [section names]); Fail if it does not succeed."""
    src = env.write(dix.to_xml(d), ".dix")
    out = env.path(".bin")
    r = env.ok("lt-comp", *(gen.comp_flags(opts or {}, direction) + list(flags) + [direction, src, out]), env=env_vars)
    return out, [l.rsplit(" ", 2)[0] for l in r.text.splitlines()]


def print_fsts(env, binary):
    return fst.parse_att(env.ok("lt-print", "-H", binary).text)


def section_relations(env, binary, names, max_in=None):
    """section name -> relation, as printed by lt-print.  Sections without any path are
    listed with an empty relation."""
    fs = print_fsts(env, binary)
    names = sorted(names)
    if len(fs) != len(names):
        raise Fail("lt-print shows %d sections, the compiler reported %d (%s)" % (len(fs), len(names), ", ".join(names)))
    return {n: fst.relation(f, max_in=max_in) for n, f in zip(names, fs)}
