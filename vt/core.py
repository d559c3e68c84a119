"""Runner shared by all checks: seeded generation, parallel execution, shrinking, replay,
evidence.  A check is a subclass of Check; a case is a JSON value, so that it can be
shrunk generically, written to a replay file and executed again."""
import hashlib, json, multiprocessing as mp, os, random, resource, shutil, signal, subprocess
import sys, tempfile, time, traceback
from . import build as B

HERE = B.HERE


class Fail(Exception):
    """The property does not hold on this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never an alarm)."""


class ToolResult:
    __slots__ = ("rc", "out", "err")

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def text(self):
        return self.out.decode("utf-8", "replace")


TIMEOUT = 20


class Env:
    """What a case may use: the built tools and a scratch directory."""

    def __init__(self, dirs):
        self.dirs = dirs
        self.tmp = tempfile.mkdtemp(prefix="vt-")
        self.n = 0
        self.base_env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "HOME": self.tmp,
                         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000",
                         "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=0"}

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, suffix=""):
        self.n += 1
        return os.path.join(self.tmp, "f%d%s" % (self.n % 64, suffix))

    def write(self, data, suffix=""):
        p = self.path(suffix)
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogatepass")
        with open(p, "wb") as fh:
            fh.write(data)
        return p

    def run(self, tool, *args, inp=b"", variant="plain", env=None, timeout=TIMEOUT):
        if isinstance(inp, str):
            inp = inp.encode("utf-8", "surrogatepass")
        e = self.base_env if env is None else dict(self.base_env, **env)
        exe = os.path.join(self.dirs[variant], "bin", tool)
        p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=e, cwd=self.tmp, close_fds=False)
        try:
            out, err = p.communicate(inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Fail("%s %s does not terminate (%d s) on an input that takes milliseconds" % (tool, " ".join(args), timeout))
        return ToolResult(p.returncode, out, err)

    def ok(self, tool, *args, **kw):
        """Runs a tool that must succeed."""
        r = self.run(tool, *args, **kw)
        if r.rc != 0:
            raise Fail("%s %s: exit status %d\nstderr: %s" % (tool, " ".join(args), r.rc, r.err[-600:].decode("utf-8", "replace")))
        return r


def run_case(chk, case, env):
    """chk.run, where output that cannot be interpreted counts as a failure of the case"""
    try:
        return chk.run(case, env)
    except (Fail, Skip, MemoryError, OSError):
        raise
    except Exception:
        raise Fail("what the tools wrote cannot be interpreted:\n" + traceback.format_exc())


class Check:
    id = None
    variants = ("plain",)
    quick_n = 1000
    thorough_n = 20000
    rule = ""
    technique = ""
    assumptions = []
    batch = 1

    def gen(self, rng, size):
        raise NotImplementedError

    def run(self, case, env):
        """Raises Fail; otherwise returns (nontrivial: bool, labels: iterable)."""
        raise NotImplementedError

    def valid(self, case):
        """Used while shrinking: is this JSON value still a case of the domain?"""
        return True

    def describe(self, case):
        return case


def case_seed(seed, pid, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, pid, i)).encode()).digest()[:8], "big")


def gen_case(chk, seed, i):
    rng = random.Random(case_seed(seed, chk.id, i))
    # small cases first and often; size grows cyclically so that every prefix of the run is mixed
    size = 1 + (i * 7919) % 100 / 100.0 * 9
    return chk.gen(rng, size)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=False)


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _worker(chk, dirs, seed, wid, nw, n, deadline, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _limits()
    env = Env(dirs)
    stats = {"evaluations": 0, "skipped": 0, "labels": {}, "hashes": set(), "samples": [], "timed_out": False}
    try:
        for i in range(wid, n, nw):
            if stop.is_set():
                break
            if time.time() > deadline:
                stats["timed_out"] = True
                break
            case = gen_case(chk, seed, i)
            try:
                nt, labels = run_case(chk, case, env)
            except Skip:
                stats["skipped"] += 1
                continue
            except Fail as f:
                q.put(("fail", i, case, str(f)))
                stop.set()
                break
            stats["evaluations"] += 1
            for l in labels:
                stats["labels"][l] = stats["labels"].get(l, 0) + 1
            if nt:
                stats["hashes"].add(hashlib.sha1(canon(case).encode("utf-8", "surrogatepass")).digest()[:10])
                if len(stats["samples"]) < 1:
                    stats["samples"].append(case)
    except Exception:
        q.put(("error", wid, None, traceback.format_exc() + "\ncase: " + canon(locals().get("case"))[:2000]))
        stop.set()
    finally:
        env.close()
    q.put(("done", wid, stats, None))


# ---------------------------------------------------------------- shrinking

def _variants(x):
    """Structurally smaller JSON values, biggest cuts first."""
    if isinstance(x, list):
        n = len(x)
        k = n
        while k >= 1:
            for s in range(0, n, k):
                if not (s == 0 and k >= n and n == 0):
                    yield x[:s] + x[s + k:]
            k //= 2
        for i in range(n):
            for v in _variants(x[i]):
                yield x[:i] + [v] + x[i + 1:]
    elif isinstance(x, dict):
        for key in sorted(x):
            if key.startswith("?"):          # optional keys are spelt with '?'
                y = dict(x)
                del y[key]
                yield y
        for key in sorted(x):
            for v in _variants(x[key]):
                y = dict(x)
                y[key] = v
                yield y
    elif isinstance(x, str):
        n = len(x)
        k = n
        while k >= 1:
            for s in range(0, n, k):
                yield x[:s] + x[s + k:]
            k //= 2
        for i, c in enumerate(x):
            if c not in "a" and c.isalpha():
                yield x[:i] + "a" + x[i + 1:]
    elif isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        if x != 0:
            yield 0
            if abs(x) > 1:
                yield x // 2
            yield x - 1 if x > 0 else x + 1
    elif isinstance(x, float):
        if x != 0:
            yield 0.0
            if x != int(x):
                yield float(int(x))


def shrink(chk, case, env, budget_s=60, first=""):
    end = time.time() + budget_s
    best, msg = case, None

    def fails(c):
        try:
            if not chk.valid(c):
                return None
        except Exception:
            return None
        try:
            run_case(chk, c, env)
        except Fail as f:
            if "cannot be interpreted" in str(f) and "cannot be interpreted" not in first:
                return None
            return str(f)
        except Exception:
            return None
        return None

    seen = set()
    improved = True
    while improved and time.time() < end:
        improved = False
        for v in _variants(best):
            if time.time() > end:
                break
            k = canon(v)
            if k in seen:
                continue
            seen.add(k)
            m = fails(v)
            if m is not None:
                best, msg, improved = v, m, True
                break
    return best, msg


# ---------------------------------------------------------------- driver

def load_json(path, default):
    try:
        with open(path, encoding="utf-8") as fh:
            return json.load(fh)
    except FileNotFoundError:
        return default


def confirm(chk, case, env, times=3):
    msg = None
    for _ in range(times):
        t = time.time()
        try:
            run_case(chk, case, env)
        except Fail as f:
            msg = str(f)
            if time.time() - t > 15:
                break                   # a hang: once more is enough
            continue
        except Skip:
            return None
        return None
    return msg


def violation(chk, case, msg, env, do_shrink=True):
    m = confirm(chk, case, env)
    if m is None:
        # not reproducible: keep it visible, but do not call it a violation
        print("NOTE: a failure did not reproduce: %s\n%s" % (msg, canon(case)[:3000]), flush=True)
        return False
    if do_shrink:
        small, _ = shrink(chk, case, env, first=m)
        m2 = confirm(chk, small, env)
        if m2 is not None:
            case, m = small, m2
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (chk.id, hashlib.sha1(canon(case).encode("utf-8", "surrogatepass")).hexdigest()[:12]))
    with open(path, "w", encoding="utf-8", errors="surrogatepass") as fh:
        json.dump({"property": chk.id, "case": case, "message": m}, fh, indent=1, ensure_ascii=True)
    print("counterexample: %s" % json.dumps(case, ensure_ascii=True)[:3000])
    print(m[:4000])
    print("replay with: python3 /verif/check.py %s --replay %s" % (chk.id, path))
    print("VIOLATION property=%s replay=%s" % (chk.id, path), flush=True)
    return True


def main(chk, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    n_override = None
    it = iter(argv)
    for a in it:
        if a == "--replay":
            replay = next(it)
        elif a == "--tier":
            tier = next(it)
        elif a == "--n":
            n_override = int(next(it))
        elif a == "--seed":
            os.environ["VERIF_SEED"] = next(it)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        dirs = {v: B.build(v) for v in chk.variants}
    except B.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    env = Env(dirs)
    try:
        if replay:
            case = load_json(replay, None)["case"]
            m = confirm(chk, case, env, 1)
            if m is None:
                print("the case passes")
                return 0
            print(m)
            print("VIOLATION property=%s replay=%s" % (chk.id, replay))
            return 1
        return _main(chk, env, dirs, tier, seed, n_override, t0)
    finally:
        env.close()


def _main(chk, env, dirs, tier, seed, n_override, t0):
    nviol = 0
    # 1. known findings: each is one specific case that still fails on the pinned tree
    findings = [f for f in load_json(os.path.join(HERE, "known_findings.json"), {"findings": []})["findings"]
                if f["property"] == chk.id and f.get("status") != "fixed"]
    for f in findings:
        m = confirm(chk, f["case"], env, 1)
        if m is not None:
            print("KNOWN-FINDING: property=%s %s" % (chk.id, f["what"]), flush=True)
        else:
            print("NOTE: known finding no longer fails: %s" % f["what"], flush=True)
    # 2. regression corpus: inputs that once exposed a (since repaired) defect or a planted bug
    corpus = []
    cdir = os.path.join(HERE, "corpus", chk.id)
    if os.path.isdir(cdir):
        for fn in sorted(os.listdir(cdir)):
            c = load_json(os.path.join(cdir, fn), None)
            corpus += c if isinstance(c, list) else [c["case"] if "case" in c else c]
    n_corpus = 0
    for case in corpus:
        try:
            run_case(chk, case, env)
            n_corpus += 1
        except Skip:
            pass
        except Fail as f:
            if violation(chk, case, str(f), env, do_shrink=False):
                nviol = 1
                break
    # 3. generated search
    n = n_override or (chk.thorough_n if tier == "thorough" else chk.quick_n)
    limit = 3300 if tier == "thorough" else 500
    tot = {"evaluations": 0, "skipped": 0, "labels": {}, "hashes": set(), "samples": [], "timed_out": False}
    err = None
    if not nviol:
        nw = min(8, os.cpu_count() or 1)
        ctx = mp.get_context("fork")
        q, stop = ctx.Queue(), ctx.Event()
        ps = [ctx.Process(target=_worker, args=(chk, dirs, seed, w, nw, n, t0 + limit, q, stop)) for w in range(nw)]
        for p in ps:
            p.start()
        done, fails = 0, []
        while done < nw:
            kind, a, b, c = q.get()
            if kind == "done":
                done += 1
                for k in ("evaluations", "skipped"):
                    tot[k] += b[k]
                for l, v in b["labels"].items():
                    tot["labels"][l] = tot["labels"].get(l, 0) + v
                tot["hashes"] |= b["hashes"]
                tot["samples"] += b["samples"]
                tot["timed_out"] |= b["timed_out"]
            elif kind == "fail":
                fails.append((a, b, c))
            else:
                err = c
        for p in ps:
            p.join()
        for i, case, msg in sorted(fails, key=lambda f: f[0]):
            if violation(chk, case, msg, env):
                nviol = 1
                break
    wall = time.time() - t0
    ev = {"property": chk.id, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": len(tot["hashes"]),
                       "rule": chk.rule, "samples": [chk.describe(s) for s in tot["samples"][:5]],
                       "requested": n, "skipped_outside_domain": tot["skipped"], "corpus_cases": n_corpus,
                       "labels": dict(sorted(tot["labels"].items())),
                       "stopped_at_deadline": tot["timed_out"], "known_findings_probed": len(findings)},
          "assumptions": list(chk.assumptions), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", chk.id + ".json"), "w", encoding="utf-8", errors="surrogatepass") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True)
    print("%s %s seed=%d: %d cases (%d non-trivial, %d outside the domain, %d corpus) in %.1f s" % (
        chk.id, tier, seed, tot["evaluations"], len(tot["hashes"]), tot["skipped"], n_corpus, wall))
    print("labels: " + ", ".join("%s=%d" % kv for kv in sorted(tot["labels"].items())))
    if nviol:
        return 1
    if err:
        print("INTERNAL ERROR of the check:\n" + err)
        return 2
    if tot["evaluations"] == 0:
        print("no case was evaluated")
        return 2
    return 0
