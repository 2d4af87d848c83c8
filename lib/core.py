"""Shared machinery: building the code under test, running cases under Hypothesis in
several worker processes, shrinking, replaying, evidence and known findings.

A check module (checks/<id>.py) provides

  ID, LEVEL, RULE, ASSUMPTIONS
  BUDGET = {"quick": (cases_per_worker, soft_seconds), "thorough": (...)}
  def prepare(env)            build what the cases need (once, before forking)
  def strategy(env)           hypothesis strategy of JSON-able cases
  def check(env, case)        raise Violation(msg) | return Result(labels, nontrivial, sample)

Cases are plain JSON values, so a failing case is its own replay file and check() can be
called again on it without Hypothesis.
"""
import fcntl, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
CLANG = shutil.which("clang") or "/usr/bin/clang"
CLANGXX = shutil.which("clang++") or "/usr/bin/clang++"
NWORK = int(os.environ.get("VERIF_JOBS", "8"))


class Violation(Exception):
    pass


class Inconclusive(Exception):
    """The case could not be decided (machine trouble); never counts as a violation."""


class InfraError(Exception):
    pass


class Result:
    __slots__ = ("labels", "nontrivial", "sample", "key")

    def __init__(self, labels=(), nontrivial=True, sample=None, key=None):
        self.labels, self.nontrivial, self.sample, self.key = tuple(labels), nontrivial, sample, key


# ---------------------------------------------------------------- running programs
class Proc:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return "rc=%s timeout=%s\n--stdout--\n%s\n--stderr--\n%s" % (
            self.rc, self.timeout, self.out[-4000:].decode("utf-8", "replace"),
            self.err[-4000:].decode("utf-8", "replace"))


BASE_ENV = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
BASE_ENV.setdefault("PATH", "/usr/local/bin:/usr/bin:/bin")
BASE_ENV["LC_ALL"] = "C"


def run(argv, stdin=b"", cwd=None, env=None, timeout=60, **kw):
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    try:
        p = subprocess.run(argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=cwd, env=e, timeout=timeout, **kw)
        return Proc(p.returncode, p.stdout, p.stderr)
    except subprocess.TimeoutExpired as x:
        return Proc(None, x.stdout or b"", x.stderr or b"", True)


# ---------------------------------------------------------------- building gendlopen
def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, SRC).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


VARIANTS = {
    "plain": dict(cxx="g++", cc="gcc", flags=["-O1"], ld=[]),
    "asan": dict(cxx="g++", cc="gcc",
                 flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                        "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
                 ld=["-fsanitize=address,undefined"]),
    # coverage-guided fuzzing: AFL++ instrumentation, main() driven by fuzz/afl_main.cpp (no sanitizer run-time for AFL's compiler here)
    "afl": dict(cxx="afl-clang-fast++", cc="afl-clang-fast",
                flags=["-O1", "-fsanitize=undefined", "-fsanitize-trap=all", "-D_GLIBCXX_ASSERTIONS"],
                ld=[], main=os.path.join(VERIF, "fuzz", "afl_main.cpp")),
    # the same program with sanitizers, for the inputs AFL++ finds
    "aflsan": dict(cxx="g++", cc="gcc",
                   flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                          "-D_GLIBCXX_ASSERTIONS"],
                   ld=["-fsanitize=address,undefined"], main=os.path.join(VERIF, "fuzz", "afl_main.cpp")),
}


def _parallel(cmds):
    """run a list of (argv, what) with NWORK at a time; raise on failure"""
    running, todo = [], list(cmds)
    fails = []
    while todo or running:
        while todo and len(running) < NWORK:
            argv = todo.pop(0)
            running.append((argv, subprocess.Popen(argv, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        argv, p = running.pop(0)
        _, err = p.communicate()
        if p.returncode != 0:
            fails.append((argv, err))
    if fails:
        raise InfraError("build failed: %s\n%s" % (" ".join(fails[0][0]), fails[0][1].decode("utf-8", "replace")[-3000:]))


def sources():
    cpp = sorted(os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith(".cpp"))
    c = sorted(os.path.join(SRC, f) for f in os.listdir(SRC)
               if f.endswith(".c") and f != "gen_templates_data.c")
    return cpp, c


def build_gendlopen(variant="plain"):
    """compile /repo's current sources; returns the path of the binary"""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, "gdo-%s-%s" % (variant, tree_hash()))
    exe = os.path.join(d, "gendlopen")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        # drop binaries of older trees of this variant
        for o in os.listdir(BUILD):
            if o.startswith("gdo-%s-" % variant):
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        r = run(["gcc", "-O1", "-o", tmp + "/gen", SRC + "/gen_templates_data.c"])
        if r.rc != 0:
            raise InfraError("gen_templates_data: %r" % r)
        r = run([tmp + "/gen", SRC + "/templates", tmp + "/templates_data.cpp"])
        if r.rc != 0:
            raise InfraError("gen_templates_data run: %r" % r)
        cpp, c = sources()
        cpp.append(tmp + "/templates_data.cpp")
        if v.get("main"):
            cpp.append(v["main"])
        common = v["flags"] + ["-w", "-DHAVE_PROGRAM_INVOCATION_SHORT_NAME", "-I" + SRC]
        cmds, objs = [], []
        # the slow files first
        for s in sorted(cpp, key=lambda s: -os.path.getsize(s)):
            o = "%s/%s.o" % (tmp, os.path.basename(s))
            objs.append(o)
            ren = ["-Dmain=gendlopen_main"] if v.get("main") and os.path.basename(s) == "main.cpp" else []
            cmds.append([v["cxx"], "-std=c++20"] + common + ren + ["-c", s, "-o", o])
        for s in c:
            o = "%s/%s.o" % (tmp, os.path.basename(s))
            objs.append(o)
            cmds.append([v["cc"]] + common + ["-c", s, "-o", o])
        cmds.sort(key=lambda a: 0 if ("generate.cpp" in a[-3] or "clang_ast" in a[-3] or "gendlopen.cpp" in a[-3]) else 1)
        _parallel(cmds)
        r = run([v["cxx"]] + v["ld"] + objs + ["-o", tmp + "/gendlopen"])
        if r.rc != 0:
            raise InfraError("link: %r" % r)
        if variant == "plain":
            # everything but the built-in templates, for programs with other ones
            r = run(["ld", "-r", "-o", tmp + "/rest.o"] + [o for o in objs if not o.endswith("/templates_data.cpp.o")])
            if r.rc != 0:
                raise InfraError("ld -r: %r" % r)
        for o in objs:
            os.unlink(o)
        os.rename(tmp, d)
        return exe


# ---------------------------------------------------------------- environment of a check
class Env:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.worker = 0
        self.root = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
        self.scratch = self.root
        self.cache = {}
        self.counters = {}

    def fork(self, w):
        self.worker = w
        self.scratch = os.path.join(self.root, "w%d" % w)
        os.makedirs(self.scratch, exist_ok=True)

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    # shared, lazily built things
    @property
    def exe(self):
        return self.cache["exe"]

    def use_gendlopen(self, variant="plain"):
        self.cache["exe" if variant == "plain" else "exe-" + variant] = build_gendlopen(variant)

    def gdo(self, args, stdin=b"", cwd=None, env=None, timeout=60, variant="plain"):
        exe = self.cache["exe" if variant == "plain" else "exe-" + variant]
        r = run([exe] + list(args), stdin=stdin, cwd=cwd or self.scratch, env=env, timeout=timeout)
        if r.timeout:
            raise Violation("gendlopen did not terminate within %d s: %r" % (timeout, args))
        if r.rc < 0:
            raise Violation("gendlopen died from signal %d on %r\n%r" % (-r.rc, args, r))
        return r

    def cleanup(self):
        shutil.rmtree(self.root, ignore_errors=True)


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """lines  'known: property=C01 key=<key> <text>' -> {key: text}"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                assert key.startswith("key=")
                res[key[4:]] = text
    return res


# ---------------------------------------------------------------- the driver
class _Stop(BaseException):
    pass


def case_size(c):
    return len(json.dumps(c))


def case_key(c):
    return hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()


def _worker(mod, env, w, ncases, t_end, q, shrink_s):
    try:
        env.fork(w)
        os.chdir(env.scratch)
        sys.stdout.flush()
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        st = mod.strategy(env)
        stats = dict(evals=0, nontrivial=0, labels={}, samples=[], inconclusive=0, stopped=False, keys=set(), known={})
        fails = []  # (size, case, msg)
        first = [None]
        phase_rng = [0]

        def body(case):
            now = time.time()
            if first[0] is None and now > t_end:
                stats["stopped"] = True
                raise _Stop()
            if first[0] is not None and now > first[0] + shrink_s:
                raise _Stop()
            if first[0] is None:
                stats["evals"] += 1
            try:
                r = mod.check(env, case)
            except Inconclusive as x:
                stats["inconclusive"] += 1
                stats.setdefault("inconclusive_msg", str(x)[:500])
                return
            except Violation as x:
                k = mod.known(env, case, str(x)) if hasattr(mod, "known") else None
                if k is not None:
                    stats["known"][k] = stats["known"].get(k, 0) + 1
                    return
                if first[0] is None:
                    first[0] = time.time()
                fails.append((case_size(case), case, str(x)))
                raise
            if first[0] is None:
                for l in r.labels:
                    stats["labels"][l] = stats["labels"].get(l, 0) + 1
                if r.nontrivial:
                    key = r.key or case_key(case)
                    if key not in stats["keys"]:
                        stats["keys"].add(key)
                        stats["nontrivial"] += 1
                        if len(stats["samples"]) < 2 and stats["evals"] > 3:
                            stats["samples"].append(r.sample if r.sample is not None else case)

        # explicit cases first (regressions, boundary cases), spread over the workers
        try:
            if hasattr(mod, "explicit"):
                for i, case in enumerate(mod.explicit(env)):
                    if i % NWORK == w:
                        body(case)
            rounds = 0
            done = 0
            per_round = max(1, min(ncases, 200))
            while done < ncases:
                seed = (env.seed * 1000003 + w * 7919 + rounds * 104729) & 0x7fffffff
                n = min(per_round, ncases - done)
                t = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                             phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                             suppress_health_check=list(HealthCheck), print_blob=False,
                             verbosity=hypothesis.Verbosity.quiet)(
                    hypothesis.seed(seed)(given(st)(lambda case: body(case))))
                t()
                done += n
                rounds += 1
                if stats["stopped"] or time.time() > t_end:
                    stats["stopped"] = done < ncases
                    break
        except (_Stop, Violation, hypothesis.errors.HypothesisException if hasattr(hypothesis.errors, "HypothesisException") else Violation):
            if not fails and not stats["stopped"]:
                raise
        except BaseException:
            if not fails:
                raise
        best = min(fails, key=lambda f: f[0]) if fails else None
        stats["counters"] = env.counters
        q.put(("ok", w, stats, best, len(fails)))
    except BaseException:
        q.put(("err", w, traceback.format_exc(), None, 0))


def main(mod):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seconds", type=float)
    a = ap.parse_args()
    t0 = time.time()
    env = Env(mod.ID, a.tier, a.seed)
    rc = 2
    try:
        mod.prepare(env)
        if a.replay:
            env.fork(0)
            with open(a.replay) as f:
                case = json.load(f)
            case = case["case"] if isinstance(case, dict) and "case" in case else case
            try:
                r = mod.check(env, case)
                print("REPLAY OK labels=%s" % (r.labels,))
                rc = 0
            except Violation as x:
                print("REPLAY VIOLATION\n%s" % x)
                rc = 1
        else:
            rc = explore(mod, env, a, t0)
    except InfraError as x:
        print("ERROR %s: %s" % (mod.ID, x))
        rc = 2
    finally:
        env.cleanup()
    sys.stdout.flush()
    sys.exit(rc)


def explore(mod, env, a, t0):
    ncases, seconds = mod.BUDGET[a.tier]
    if a.cases:
        ncases = a.cases
    if a.seconds:
        seconds = a.seconds
    t_end = time.time() + seconds
    shrink_s = float(os.environ.get("VERIF_SHRINK", 40 if a.tier == "quick" else 180))
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    procs = []
    for w in range(NWORK):
        p = ctx.Process(target=_worker, args=(mod, env, w, ncases, t_end, q, shrink_s))
        p.start()
        procs.append(p)
    res, errs = [], []
    deadline = t_end + shrink_s + 300
    alive = len(procs)
    got = 0
    import queue as _q
    while got < alive:
        try:
            r = q.get(timeout=5)
            got += 1
            (res if r[0] == "ok" else errs).append(r)
        except _q.Empty:
            if time.time() > deadline:
                errs.append(("err", -1, "worker did not finish in time", None, 0))
                break
            if all(not p.is_alive() for p in procs) and q.empty():
                # a worker vanished (killed by the memory guard?)
                time.sleep(0.5)
                while not q.empty():
                    r = q.get()
                    got += 1
                    (res if r[0] == "ok" else errs).append(r)
                if got < alive:
                    errs.append(("err", -1, "%d worker(s) vanished" % (alive - got), None, 0))
                break
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    agg = dict(evals=0, labels={}, samples=[], inconclusive=0, stopped=0, counters={}, known={})
    keys = set()
    best = None
    for _, w, s, b, n in res:
        agg["evals"] += s["evals"]
        agg["inconclusive"] += s["inconclusive"]
        agg["stopped"] += 1 if s["stopped"] else 0
        keys |= s["keys"]
        agg["samples"] += s["samples"]
        for k, v in s["labels"].items():
            agg["labels"][k] = agg["labels"].get(k, 0) + v
        for k, v in s["counters"].items():
            agg["counters"][k] = agg["counters"].get(k, 0) + v
        for k, v in s["known"].items():
            agg["known"][k] = agg["known"].get(k, 0) + v
        if "inconclusive_msg" in s:
            agg["inconclusive_msg"] = s["inconclusive_msg"]
        if b and (best is None or b[0] < best[0]):
            best = b
    if hasattr(mod, "campaign") and not best:
        # a coverage-guided campaign after the generated cases
        try:
            c = mod.campaign(env, a.tier)
            agg["evals"] += c["evals"]
            keys |= set(c["keys"])
            agg["samples"] = agg["samples"][:4] + c["samples"][:2]
            for k, v in c["counters"].items():
                agg["counters"][k] = agg["counters"].get(k, 0) + v
            for case, msg in c["fails"]:
                if best is None or case_size(case) < best[0]:
                    best = (case_size(case), case, msg)
        except InfraError as x:
            errs.append(("err", -1, "campaign: %s" % x, None, 0))
    rc, viol = 0, 0
    msgs = []
    known = known_findings(mod.ID)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (mod.ID, known[k], agg["known"].get(k, 0)))
    for k in agg["known"]:
        if k not in known:  # the module knows a pattern the file does not list: a real alarm
            errs.append(("err", -1, "unlisted known-finding key " + k, None, 0))
    if best:
        # replay three times outside of Hypothesis
        size, case, msg = best
        env.fork(99)
        reps = 0
        for _ in range(3):
            try:
                mod.check(env, case)
            except Violation as x:
                reps += 1
                msg = str(x)
            except Inconclusive:
                pass
        if reps == 3:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (mod.ID, case_key(case)[:12]))
            with open(path, "w") as f:
                json.dump(dict(property=mod.ID, message=msg, case=case), f, indent=1)
            print("--- shrunk failing case of %s ---" % mod.ID)
            print(json.dumps(case, indent=1)[:4000])
            print(msg[:6000])
            print("VIOLATION property=%s replay=%s" % (mod.ID, os.path.relpath(path, VERIF)))
            rc, viol = 1, 1
        else:
            print("note: a failure was seen but reproduced only %d of 3 times; not reported\n%s\n%s" % (reps, json.dumps(case)[:2000], msg[:2000]))
            agg["counters"]["unreproduced_failures"] = agg["counters"].get("unreproduced_failures", 0) + 1
    cov = dict(evaluations=agg["evals"], distinct_nontrivial=len(keys), rule=mod.RULE,
               samples=[x if case_size(x) < 2500 else json.dumps(x)[:2500] for x in agg["samples"][:6]], labels=dict(sorted(agg["labels"].items())),
               counters=agg["counters"], inconclusive=agg["inconclusive"],
               workers_stopped_by_time=agg["stopped"], known_findings_seen=agg["known"])
    ev = dict(property=mod.ID, tier=a.tier, seed=a.seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(mod.ASSUMPTIONS), wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print("%s: %d cases, %d distinct non-trivial, %.1f s%s" % (mod.ID, agg["evals"], len(keys), time.time() - t0,
          ", %d workers stopped by time" % agg["stopped"] if agg["stopped"] else ""))
    if a.tier == "quick" and os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(cov["labels"], indent=1))
        print(agg["counters"], agg.get("inconclusive_msg"))
    if rc == 0 and errs:
        for e in errs:
            print("ERROR in worker %s: %s" % (e[1], e[2]))
        rc = 2
    if rc == 0 and agg["inconclusive"] > max(5, agg["evals"] // 10):
        print("ERROR: %d of %d cases inconclusive: %s" % (agg["inconclusive"], agg["evals"], agg.get("inconclusive_msg")))
        rc = 2
    if rc == 0 and not keys:
        print("ERROR: no non-trivial case was explored")
        rc = 2
    return rc
