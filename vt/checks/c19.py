import os, select, signal, subprocess, time
from .. import dix, gen, streams, uni
from ..common import compile_dix
from ..core import Check, Fail, Skip
from ..fst import TooBig
from . import c12

ANA = ["-a", "-e", "-p", "-t", "-x"]
GEN = ["-g", "-d", "-n", "-l", "-m", "-C"]
BIL = ["-b", "-o", "-O", "-b -g", "-b -d", "-b -n"]
MRG = ["merge", "unmerge"]
WAIT = 20


class Server:
    """a tool that is fed one segment at a time"""

    def __init__(self, env, argv):
        exe = os.path.join(env.dirs["plain"], "bin", argv[0])
        self.p = subprocess.Popen([exe] + argv[1:], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  env=env.base_env, cwd=env.tmp, close_fds=True)
        self.buf = b""

    def ask(self, data):
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except BrokenPipeError:
            return None
        end = time.time() + WAIT
        while b"\0" not in self.buf:
            t = end - time.time()
            if t <= 0 or not select.select([self.p.stdout], [], [], t)[0]:
                return "late"
            x = os.read(self.p.stdout.fileno(), 65536)
            if not x:
                return None
            self.buf += x
        a, self.buf = self.buf.split(b"\0", 1)
        return a

    def close(self):
        try:
            out, _ = self.p.communicate(timeout=WAIT)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.communicate()
            return "late", None
        return self.buf + out, self.p.returncode

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.communicate()


class C(Check):
    id = "C19"
    quick_n = 12000
    thorough_n = 400000
    rule = ("a random dictionary and a random history of segments, each ended by a null character, fed one at a time to one running "
            "process in null-flush mode (analysis, compounds, all generation modes, lexical transfer, post-generation, "
            "transliteration, merging); every answer has to arrive before the next segment is sent and to equal the answer of a fresh "
            "process; non-trivial: at least two non-empty segments")
    technique = "stateful property-based testing, metamorphic (fresh process as oracle)"
    assumptions = ["segments are well-formed streams, except that the last unit, tag or blank of a segment may break off (a segment that breaks off may be refused)", "an answer that takes longer than 20 s counts as not arriving"]

    def gen(self, r, size):
        mode = r.choice(r.choice([ANA, ANA, GEN, BIL, MRG]))
        k = gen.ana_knobs(r, weights=r.choice([0, 0.3]), wake=0.3 if mode == "-p" else 0)
        direction = "rl" if mode in GEN else "lr"
        for _ in range(30):
            d = gen.dix(r, k, min(size, 5))
            if mode == "-e" and r.random() < 0.7:
                d["sdefs"] = sorted(set(d["sdefs"]) | {"compound-only-L", "compound-R"})
                for _, _, es in d["sections"]:
                    for e in es:
                        if r.random() < 0.6:
                            e["items"].append(["p", [], ["<%s>" % r.choice(["compound-only-L", "compound-R"])]])
            try:
                rel = dix.Model(d, direction).directed()
            except TooBig:
                continue
            if not any(f & {"", " "} for f in dix.firsts(d, direction).values()) and any(rel.values()):
                break
        ins = sorted({i for x in rel.values() for (i, _) in x}) or [("a",)]
        tags = ["<%s>" % t for t in d["sdefs"]] or ["<n>"]
        words = ["".join(i) for i in ins if all(len(s) == 1 for s in i)] or ["a"]
        segs = []
        for _ in range(r.randint(2, 2 + int(size / 2))):
            x = r.random()
            if x < 0.1:
                seg = []
            elif mode in ANA:
                seg = gen.text_items(r, words, min(size, 3), special=0.03 if mode in ("-a", "-e") else 0)
                if mode not in ("-a", "-e"):
                    seg = [i for i in seg if not (isinstance(i, list) and i[0] == "wb")]
                elif seg and r.random() < 0.3 and isinstance(seg[-1], str):
                    w = r.choice(words)
                    seg.append(w[:r.randint(1, len(w))])
            else:
                seg = []
                for _ in range(r.randint(0, 3)):
                    s = list(r.choice(ins))
                    if r.random() < 0.3:
                        s = streams.recase_syms(r, s)
                    if r.random() < 0.3:
                        s = streams.mutate(r, s, tags)
                    seg += streams.blanks(r)
                    rs = [s]
                    if mode in ("-o", "-O") or mode in MRG or r.random() < 0.1:
                        rs.append(list(r.choice(ins)))
                    seg.append(["lu", r.choice(streams.MARKS) if r.random() < 0.1 else "", rs])
                seg += streams.blanks(r)
                if mode == "merge" and seg and r.random() < 0.8:
                    a, b = sorted((r.randint(0, len(seg)), r.randint(0, len(seg))))
                    seg = seg[:a] + [["q", "["]] + seg[a:b] + [["q", "]"]] + seg[b:]
                if r.random() < 0.12:
                    # a unit that the segment breaks off
                    i = r.choice(ins)
                    seg = seg + [["x", list(i[:r.randint(0, len(i))]), r.choice([0, 0, 1])]]
            if r.random() < 0.12 and not (seg and isinstance(seg[-1], list) and seg[-1][0] == "x"):
                # a blank, tag or unit that the segment breaks off
                seg = seg + [["y", self.broken(r, mode, tags)]]
            segs.append(seg)
        fl = [f for f in ("-c", "-w", "-W") if r.random() < 0.1]
        return {"dix": d, "mode": mode, "segs": segs, "flags": fl}

    def broken(self, r, mode, tags):
        x = r.random()
        if x < 0.45:
            return r.choice(["[", "[a", "[a^b", "[ <x>", "[a\\]", "[a\\]b", "[a\\"])
        if x < 0.8:
            return r.choice(["[[", "[[a", "[[t:b:1", "[[a]", "[[a; b", "[[a\\]", "[[a\\"])
        t = r.choice(tags)
        if mode in ANA:
            return r.choice([t[:-1], "<", "\\"])
        return "^" + r.choice(["", "", "a", "=", "@", "*a"]) + r.choice([t[:-1], "<", "\\", t + "\\", t + "/" + t[:-1], t + "/\\"])

    def valid(self, c):
        return dix.valid(c["dix"]) and c["mode"] in ANA + GEN + BIL + MRG and all(
            streams.ok([i for i in s if not (isinstance(i, list) and i and i[0] in "qxy")]) for s in c["segs"]) and \
            not any(isinstance(i, list) and i and i[0] == "y" and (i is not s[-1] or len(i) != 2 or not isinstance(i[1], str) or i[1][:1] not in "[^<\\") for s in c["segs"] for i in s) and \
            not any(isinstance(i, list) and i and i[0] == "x" and (i is not s[-1] or not streams.ok([["lu", "", [i[1]]]])) for s in c["segs"] for i in s) and \
            not any(isinstance(i, str) and "\0" in i for s in c["segs"] for i in s)

    def seg_text(self, s, mode):
        o = []
        for i in s:
            if isinstance(i, list) and i[0] == "q":
                if mode == "merge":
                    o.append("^\\[/\\[<MERGE_BEG>$" if i[1] == "[" else "^\\]/\\]<MERGE_END>$")
            elif isinstance(i, list) and i[0] == "y":
                o.append(i[1])
            elif isinstance(i, list) and i[0] == "x":
                o.append(streams.item_text(["lu", "", [i[1]]])[:-1] + ("/" if i[2] else ""))
            else:
                o.append(streams.item_text(i))
        return "".join(o).encode("utf-8", "surrogatepass")

    def run(self, c, env):
        d, mode = c["dix"], c["mode"]
        direction = "rl" if mode in GEN else "lr"
        if mode in ("-o", "-O") and any(streams.is_lu(i) and len(i[2]) < 2 for s in c["segs"] for i in s):
            raise Skip()
        if mode in MRG:
            argv = ["lt-merge", "-z"] + (["-u"] if mode == "unmerge" else [])
        else:
            if any(f & {"", " "} for f in dix.firsts(d, direction).values()):
                raise Skip()
            try:
                if not any(dix.Model(d, direction).directed().values()):
                    raise Skip()
            except TooBig:
                raise Skip()
            b, _ = compile_dix(env, d, direction)
            argv = ["lt-proc", "-z"] + mode.split() + c["flags"] + [b]
        segs = [self.seg_text(s, mode) for s in c["segs"]]
        sv = Server(env, argv)
        try:
            for n, s in enumerate(segs):
                got = sv.ask(s + b"\0")
                fresh = env.run(argv[0], *argv[1:], inp=s + b"\0")
                want = fresh.out.split(b"\0")[0]
                if fresh.rc == 1 and b"\0" not in fresh.out and c["segs"][n] and c["segs"][n][-1][0] == "y":
                    # refused: the running process has to refuse it as well
                    if got is not None:
                        raise Fail("%s refuses segment %r, but not after %r" % (" ".join(argv[:-1]), s, segs[:n]))
                    return n >= 2, {mode, "refused"}
                if fresh.rc != 0 or b"\0" not in fresh.out:
                    raise Fail("%s does not answer segment %r: exit status %d, output %r" % (" ".join(argv[:-1]), s, fresh.rc, fresh.out))
                if got == "late":
                    raise Fail("%s: no answer to segment %d, %r, while the input stays open" % (" ".join(argv[:-1]), n + 1, s))
                if got is None:
                    raise Fail("%s ends at segment %d, %r" % (" ".join(argv[:-1]), n + 1, s))
                if got != want:
                    raise Fail("%s: segment %d, %r after %r\nfresh process %r\ngot           %r" % (
                        " ".join(argv[:-1]), n + 1, s, segs[:n], want.decode("utf-8", "replace"), got.decode("utf-8", "replace")))
            rest, rc = sv.close()
            if rest == "late":
                raise Fail("%s does not end when its input ends" % " ".join(argv[:-1]))
            if rc != 0 or rest.strip(b"\0"):
                raise Fail("%s writes %r at the end of the input, exit status %d" % (" ".join(argv[:-1]), rest, rc))
        finally:
            sv.kill()
        nt = sum(1 for s in segs if s) >= 2
        return nt, {mode} | ({"broken"} if any(s and isinstance(s[-1], list) and s[-1][0] == "y" for s in c["segs"]) else set())


CHECK = C()
