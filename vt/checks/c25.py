"""Compiled files are whole or refused: cut files, full disks, pipes."""
import os, resource, signal, subprocess
from .. import binfmt, dix, gen
from ..core import Check, Fail, Skip, TIMEOUT

ACX = '<analysis-chars><char value="a"><equiv-char value="b"/></char></analysis-chars>'
# tool, options and operands; A is the file under test, B a second compiled file, O the output
READERS = {"proc": ["lt-proc", "A"], "proc -g": ["lt-proc", "-g", "A"], "proc -b": ["lt-proc", "-b", "A"], "proc -e": ["lt-proc", "-e", "A"],
           "proc -p": ["lt-proc", "-p", "A"], "tmxproc": ["lt-tmxproc", "A"], "paradigm": ["lt-paradigm", "A"],
           "print": ["lt-print", "A"], "print -a": ["lt-print", "-a", "A"], "invert": ["lt-invert", "A", "O"],
           "trim 1": ["lt-trim", "A", "B", "O"], "trim 2": ["lt-trim", "B", "A", "O"], "append 1": ["lt-append", "A", "B", "O"], "append 2": ["lt-append", "B", "A", "O"],
           "compose 1": ["lt-compose", "A", "B", "O"], "compose 2": ["lt-compose", "B", "A", "O"], "restrict": ["lt-restrict", "lr", "A", "O"],
           "acx": ["lt-apply-acx", "A", "X", "O"]}
WRITERS = {"comp": ["lt-comp", "D", "S", "O"], "invert": ["lt-invert", "A", "O"], "trim": ["lt-trim", "A", "B", "O"], "append": ["lt-append", "A", "B", "O"],
           "compose": ["lt-compose", "A", "B", "O"], "restrict": ["lt-restrict", "lr", "A", "O"], "acx": ["lt-apply-acx", "A", "X", "O"]}
INPUT = b"ab a b.\n^a<n>$ ~a b\n"


class C(Check):
    id = "C25"
    variants = ("plain", "asan")
    quick_n = 4000
    thorough_n = 100000
    rule = ("a random dictionary is compiled, and then (a) the compiled file, with and without the headers of the current format, is cut at random "
            "bytes and given to one of %d reading tools under sanitizers, which has to refuse it and must not crash or hang; (b) one of %d writing tools "
            "writes to a disk that is full after a random number of bytes, and has to report it unless everything fitted; (c) a tool "
            "reads through a pipe and writes to a pipe, and has to give the same bytes as with files; non-trivial: the whole file is accepted" % (len(READERS), len(WRITERS)))
    technique = "property-based testing with injected faults (truncation, full disk) and a file/pipe differential"
    assumptions = ["a cut file of the old format without headers is only required not to be used silently, like one of the new format"]

    def gen(self, r, size):
        k = gen.ana_knobs(r, weights=r.choice([0, 0.3]), regex=r.choice([0, 0.2]))
        d = gen.dix(r, k, min(size, 5))
        kind = r.choice(["cut", "cut", "full", "pipe"])
        c = {"kind": kind, "dix": d, "dir": r.choice(["lr", "rl"]), "header": r.random() < 0.85, "tool": r.choice(sorted(READERS if kind == "cut" else WRITERS if kind == "full" else
                                                                                                        list(READERS) + ["comp"]))}
        c["at"] = [r.random() for _ in range(4)] if kind != "pipe" else []
        return c

    def valid(self, c):
        return dix.valid(c["dix"]) and c["dir"] in ("lr", "rl") and all(0 <= x < 1 for x in c["at"]) and c["kind"] in ("cut", "full", "pipe") and \
            c["tool"] in (READERS if c["kind"] == "cut" else WRITERS if c["kind"] == "full" else list(READERS) + ["comp"])

    def cmd(self, spec, env, c, a, b, o):
        m = {"A": a, "B": b, "O": o, "D": c["dir"], "S": self.src, "X": self.acx}
        return [m.get(x, x) for x in spec]

    def popen(self, env, cmd, inp, variant="plain", fsize=None):
        def pre():
            if fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        p = subprocess.Popen([os.path.join(env.dirs[variant], "bin", cmd[0])] + cmd[1:], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=env.base_env, cwd=env.tmp, preexec_fn=pre, restore_signals=False)
        try:
            out, err = p.communicate(inp, timeout=TIMEOUT * 2)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Fail("%s does not terminate" % " ".join(cmd))
        return p.returncode, out, err

    def run(self, c, env):
        self.src, self.acx = env.write(dix.to_xml(c["dix"]), ".dix"), env.write(ACX, ".acx")
        a, o = env.path(".bin"), env.path(".out")
        if env.run("lt-comp", c["dir"], self.src, a).rc:
            raise Skip()
        if not c["header"]:
            with open(a, "rb") as fh:
                f = binfmt.read(fh.read())
            if any(any(fin.values()) or any(x[2] for l in tr for x in l) for _, fin, tr in f.sections.values()):
                raise Skip()
            with open(a, "wb") as fh:
                fh.write(binfmt.write(f, header=False))
        with open(a, "rb") as fh:
            data = fh.read()
        b = env.write(data, ".bin")
        spec = READERS.get(c["tool"]) or WRITERS[c["tool"]]
        if c["kind"] == "full":
            spec = WRITERS[c["tool"]]
        if os.path.exists(o):
            os.unlink(o)
        rc, whole, err = self.popen(env, self.cmd(spec, env, c, a, b, o), INPUT)
        fine = rc == 0
        out = None
        if "O" in spec and fine:
            with open(o, "rb") as fh:
                out = fh.read()
        if c["kind"] == "cut":
            if not fine:
                raise Skip()
            for x in c["at"]:
                n = int(x * len(data))
                p = env.write(data[:n], ".bin")
                rc, _, err = self.popen(env, self.cmd(spec, env, c, p, b, o), INPUT, "asan")
                e = err.decode("utf-8", "replace")
                if rc == 0:
                    raise Fail("%s accepts the first %d of %d bytes of a compiled file" % (c["tool"], n, len(data)))
                if "runtime error:" in e or "AddressSanitizer" in e or "Assertion" in e or rc in (-11, 98, 99, -8):
                    raise Fail("%s crashes on the first %d of %d bytes of a compiled file (%d): %s" % (c["tool"], n, len(data), rc, e[:800]))
        elif c["kind"] == "full":
            if not fine:
                raise Skip()
            for n in {int(x * (len(out) + 1)) for x in c["at"]} | {len(out), len(out) - 1}:
                os.unlink(o)
                rc, _, err = self.popen(env, self.cmd(spec, env, c, a, b, o), INPUT, fsize=n)
                if n < len(out) and rc == 0:
                    raise Fail("%s reports success, but only %d of %d bytes could be written" % (c["tool"], n, len(out)))
                if n >= len(out) and rc != 0:
                    raise Fail("%s reports failure, though everything fits: %s" % (c["tool"], err[-300:]))
        else:
            # output to a pipe
            if "O" in spec:
                sp = [("-" if x == "O" else x) for x in spec]
                rc, got, err = self.popen(env, self.cmd(sp, env, c, a, b, o), INPUT)
                if (rc == 0) != fine or fine and got != out:
                    raise Fail("%s writes %d bytes (status %d) to a pipe, %s to a file" % (c["tool"], len(got), rc, len(out) if out is not None else "fails"))
            # input from a pipe
            if "A" in spec and spec[0] not in ("lt-proc", "lt-tmxproc", "lt-paradigm"):
                sp = [("-" if x == "A" else x) for x in spec]
                if os.path.exists(o):
                    os.unlink(o)
                rc, got, err = self.popen(env, self.cmd(sp, env, c, a, b, o), data)
                if "O" in spec and rc == 0:
                    with open(o, "rb") as fh:
                        got = fh.read()
                if (rc == 0) != fine or fine and got != (out if "O" in spec else whole):
                    raise Fail("%s gives another result (status %d) when the compiled file comes through a pipe:\n%r\ninstead of\n%r" % (
                        c["tool"], rc, got[:600], (out or whole)[:600]))
        return fine, {c["kind"], c["tool"]} | ({"old format"} if not c["header"] else set())


CHECK = C()
