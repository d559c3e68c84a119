"""Builds lttoolbox's tools and the in-process harness from /repo's working tree.

Nothing is built inside /repo.  Output goes to /verif/.build/<content-hash>-<variant>
(git-ignored); the hash covers every source and header under /repo/lttoolbox, so a
change of the tree always leads to a rebuild and an unchanged tree reuses it.
"""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD_ROOT = os.path.join(HERE, ".build")

VARIANTS = {
    # -D_GLIBCXX_ASSERTIONS: out-of-range element access in the library aborts
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
COMMON = ["-std=c++23", "-w", "-D_POSIX_C_SOURCE=200112", "-D_GNU_SOURCE",
          '-DPACKAGE_VERSION="3.8.4"', "-DHAVE_GETOPT_LONG", "-DHAVE_DECL_GETOPT_LONG",
          "-DHAVE_DECL_FREAD_UNLOCKED", "-DHAVE_DECL_FWRITE_UNLOCKED", "-DHAVE_DECL_FGETC_UNLOCKED",
          "-DHAVE_DECL_FPUTC_UNLOCKED", "-DHAVE_DECL_FPUTS_UNLOCKED", "-DHAVE_DECL_FMEMOPEN",
          "-I/usr/include/libxml2", "-I/usr/include/utf8cpp", "-I/usr/include/utfcpp"]
LIBS = ["-lxml2", "-licui18n", "-licuio", "-licuuc", "-licudata", "-lpthread"]


class BuildError(Exception):
    pass


def _sources(repo):
    d = os.path.join(repo, "lttoolbox")
    return sorted(f for f in os.listdir(d) if f.endswith((".cc", ".h", ".hpp", ".c")))


def tree_hash(repo, extra=()):
    h = hashlib.sha256()
    for f in _sources(repo):
        h.update(f.encode() + b"\0")
        with open(os.path.join(repo, "lttoolbox", f), "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    for p in extra:
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _is_main(path):
    with open(path, encoding="utf-8", errors="replace") as fh:
        t = fh.read()
    return "int main(" in t or "main(int argc" in t


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def build(variant="plain", repo=None):
    """Returns the directory holding bin/<tool>; builds it if needed.  The variants harness
    and harness-asan hold bin/harness, the in-process driver; the others hold the tools."""
    repo = repo or REPO
    is_h = variant.startswith("harness")
    flags = VARIANTS[{"harness": "plain", "harness-asan": "asan"}.get(variant, variant)]
    hsrc = os.path.join(HERE, "harness", "harness.cc")
    extra = [os.path.abspath(__file__)] + ([hsrc] if is_h else [])
    out = os.path.join(BUILD_ROOT, tree_hash(repo, extra) + "-" + variant)
    os.makedirs(BUILD_ROOT, exist_ok=True)
    with open(os.path.join(BUILD_ROOT, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        done = os.path.join(out, "DONE")
        if os.path.exists(done):
            os.utime(done)
            return out
        _prune(variant)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, "bin"))
        os.makedirs(os.path.join(out, "obj"))
        obj = lambda f: os.path.join(out, "obj", os.path.basename(f)[:-3] + ".o")
        cxx = ["g++"] + COMMON + flags + ["-I" + repo, "-I" + os.path.join(repo, "lttoolbox")]
        src = os.path.join(repo, "lttoolbox")
        libo, mains = [], []
        for f in _sources(repo):
            if not f.endswith(".cc") or f == "check-cstdint.cc":
                continue
            f = os.path.join(src, f)
            (mains if _is_main(f) else libo).append(f)
        if is_h:
            mains = [hsrc]
        jobs = sorted(libo + mains, key=lambda f: -os.path.getsize(f))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda f: _run(cxx + ["-c", f, "-o", obj(f)]), jobs))
        lib = os.path.join(out, "obj", "liblt.a")
        _run(["ar", "rcs", lib] + [obj(f) for f in libo])
        lf = [x for x in flags if x.startswith("-f")]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda f: _run(["g++"] + lf + [obj(f), lib, "-o", os.path.join(
                out, "bin", os.path.basename(f)[:-3].replace("_", "-"))] + LIBS), mains))
        shutil.rmtree(os.path.join(out, "obj"))
        open(done, "w").close()
        return out


def _prune(variant, keep=3):
    ds = [os.path.join(BUILD_ROOT, d) for d in os.listdir(BUILD_ROOT) if d.endswith("-" + variant) and not d.startswith("lock")]
    ds = [d for d in ds if os.path.isdir(d)]
    def mt(d):
        p = os.path.join(d, "DONE")
        return os.path.getmtime(p) if os.path.exists(p) else 0
    for d in sorted(ds, key=mt)[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
