"""C16: output files are never clobbered, half-written or misdirected."""
import os, re, resource, shutil, signal, socket, stat, subprocess
from hypothesis import strategies as st
from core import Violation, Result, BASE_ENV
import decl as D

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with generated file system states and injected write faults; a model predicts which paths may change, compared with snapshots of the scratch tree before and after"
LEVEL_NOTE = "Faults: existing paths of every kind, missing and unwritable directories, over-long names, size limits at every offset, full devices, closed descriptors."
RULE = ("A case is a format (or custom template, or -print-symbols, or -dump-templates), -separate, -force, -no-date, an output path in one of several spellings, a pre-existing object (none, file, hard link, "
        "read-only file, directory with or without content, symlink to a file, to a directory, to itself or dangling, FIFO, socket) at each of the two output locations, and at most one fault (file size limit from 0 "
        "to beyond the output, output directory missing, not a directory or not writable for an unprivileged user, name too long, stdout full, closed or limited). The tree is compared before and after "
        "with the model's prediction, the contents with those of an undisturbed run. Non-trivial: a pre-existing object or a fault is present.")
ASSUMPTIONS = ["status 1 may leave a partly written new file behind", "an empty directory at the output path counts as replaceable with -force", "SIGXFSZ is ignored, so that a size limit is an ordinary write error"]
BUDGET = {"quick": (1500, 28), "thorough": (30000, 1200)}
PRE = ["none", "none", "none", "file", "file", "rofile", "empty", "hardlink", "dir", "fulldir", "link", "linkdir", "loop", "dangling", "danglingdir", "fifo", "sock", "linklink", "input", "template"]
OUTS = ["x.h", "x", "x.hpp", "./x.c", "sub/x.h", "sub/../x.cpp", "ABS/x.h", "a.b.c", ".hid", "sub//x.y", "-x.h", "./-", "sp ace.h", "\u00e9.h", "x."]


def prepare(env):
    env.use_gendlopen()
    # can we become nobody?
    ok = False
    try:
        ok = subprocess.run(["/bin/true"], user=65534, group=65534, extra_groups=[]).returncode == 0
    except Exception:
        pass
    env.cache["nobody"] = ok
    os.chmod(env.root, 0o755)
    if ok:
        # the program must be reachable for nobody
        shutil.copy(env.exe, env.root + "/gendlopen")
        os.chmod(env.root + "/gendlopen", 0o755)


@st.composite
def strategy_(draw):
    kinds = draw(st.sampled_from([("func",), ("func", "obj")]))
    k = draw(st.sampled_from(["gen"] * 8 + ["tpl", "tpl", "sym", "dump"]))
    c = dict(k=k, ds=draw(D.decls(D.text_cfg(), 1, 2, kinds=kinds)), fmt=draw(st.sampled_from(["c", "c", "c++", "c++", "plugin", "minimal", "minimal-c++"])), sep=draw(st.booleans()),
             force=draw(st.booleans()), out=draw(st.sampled_from(OUTS)), pre_h=draw(st.sampled_from(PRE)), pre_b=draw(st.sampled_from(PRE)), line=draw(st.integers(0, 3)) == 0,
             fault=draw(st.sampled_from(["none"] * 6 + ["limit"] * 4 + ["nodir", "notdir", "rodir", "rodir", "long", "stdout-full", "stdout-closed", "stdout-limit", "stdout-pipe", "sep-stdout"])),
             lim=draw(st.integers(-3, 40)), limk=draw(st.sampled_from(["abs", "frac", "size", "size", "size2"])))
    if k == "dump":
        c["fault"] = draw(st.sampled_from(["none", "limit", "limit", "nodir", "notdir", "rodir", "stdout-full"]))
        c["pre_h"] = draw(st.sampled_from(["none", "dir", "file", "dangling", "linkdir", "fulldir", "loop", "fifo"]))
        c["limk"] = draw(st.sampled_from(["abs", "abs", "frac"]))
    elif k == "sym":
        c["fault"] = draw(st.sampled_from(["none", "stdout-full", "stdout-closed", "stdout-limit", "stdout-pipe"]))
    return c


def strategy(env):
    return strategy_()


def replace_ext(p, ext):
    d, f = os.path.split(p)
    i = f.rfind(".")
    if i > 0:
        f = f[:i]
    return os.path.join(d, f + ext) if d else f + ext


def snapshot(root):
    res = {}
    for dp, dns, fns in os.walk(root):
        for n in dns + fns:
            p = os.path.join(dp, n)
            s = os.lstat(p)
            key = os.path.relpath(p, root)
            if stat.S_ISLNK(s.st_mode):
                res[key] = ("link", os.readlink(p))
            elif stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f:
                    res[key] = ("file", s.st_mode & 0o7777, f.read())
            else:
                res[key] = ("other", stat.S_IFMT(s.st_mode))
    return res


def make(d, p, what, tag):
    """put an object at path p"""
    t = d + "/keep/" + tag
    if what == "none":
        return
    if what in ("file", "rofile", "empty"):
        with open(p, "wb") as f:
            f.write(b"" if what == "empty" else b"precious " + tag.encode() * 300)
        if what == "rofile":
            os.chmod(p, 0o444)
    elif what == "hardlink":
        os.link(t + ".txt", p)
    elif what == "dir":
        os.mkdir(p)
    elif what == "fulldir":
        os.mkdir(p)
        with open(p + "/inner", "w") as f:
            f.write("precious")
    elif what == "link":
        os.symlink(t + ".txt", p)
    elif what == "linklink":
        os.symlink(t + ".txt", d + "/keep/l-" + tag)
        os.symlink(d + "/keep/l-" + tag, p)
    elif what == "linkdir":
        os.symlink(d + "/keep", p)
    elif what == "loop":
        os.symlink(os.path.basename(p), p)
    elif what == "dangling":
        os.symlink(d + "/keep/new-" + tag, p)
    elif what == "danglingdir":
        os.symlink(d + "/nowhere/new-" + tag, p)
    elif what == "fifo":
        os.mkfifo(p)
    elif what == "sock":
        s = socket.socket(socket.AF_UNIX)
        cwd = os.getcwd()
        os.chdir(os.path.dirname(p))
        s.bind(os.path.basename(p).encode())
        os.chdir(cwd)
        s.close()


def run_limited(argv, cwd, stdout, limit=None, user=None, closed=False, sigpipe=True):
    def pre():
        if sigpipe:
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        if closed:
            os.close(1)
    kw = dict(user=user, group=user, extra_groups=[]) if user else {}
    try:
        p = subprocess.run(argv, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, cwd=cwd, env=BASE_ENV, timeout=60, preexec_fn=pre, restore_signals=False, **kw)
    except subprocess.TimeoutExpired:
        raise Violation("gendlopen did not terminate: %r" % argv)
    if p.returncode not in (0, 1):
        raise Violation("exit status %s: %r\n%r" % (p.returncode, argv, p.stderr[:2000]))
    if p.returncode == 1 and not p.stderr.strip():
        raise Violation("failed without a message: %r" % argv)
    return p


def fresh(d):
    # directories may be read-only for others, we are root
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/keep")
    os.makedirs(d + "/w/sub")
    for t in ("h", "b"):
        with open(d + "/keep/" + t + ".txt", "w") as f:
            f.write("target " * 500)


def check(env, case):
    k, fmt, fault = case["k"], case["fmt"], case["fault"]
    d = env.path("r")
    exe = env.exe
    fresh(d)
    text = D.render(case["ds"]).encode("latin-1")
    with open(d + "/in.txt", "wb") as f:
        f.write(text)
    with open(d + "/t.tpl", "w") as f:
        f.write("%%symbol%% line\n" + "text\n" * 300)
    out = case["out"].replace("ABS", d + "/w")
    base = [d + "/in.txt", "-no-date", "-format=" + fmt]
    if case["line"]:
        base.append("-line")
    if k == "tpl":
        base.append("-template=" + d + "/t.tpl")
    elif k == "sym":
        base.append("-print-symbols")
    if k == "dump":
        return check_dump(env, case, d, exe)
    if case["sep"]:
        base.append("-separate")
    if case["force"]:
        base.append("-force")
    labels = ["kind=" + k, "fmt=" + fmt, "force=%d" % case["force"], "sep=%d" % case["sep"], "fault=" + fault]
    # ---------------------------------------------------------- output to stdout
    if fault.startswith("stdout") or fault == "sep-stdout" or k == "sym":
        if k == "sym" and case["sep"]:
            base.append("-out=" + out)
        elif fault == "sep-stdout":
            base.append("-out=-")
        before = snapshot(d)
        ref = run_limited([exe] + base, d + "/w", subprocess.PIPE)
        if ref.returncode != 0 or not ref.stdout:
            raise Violation("refused: %r %r" % (base, ref.stderr))
        if snapshot(d) != before:
            raise Violation("output to stdout changed files: %r" % base)
        of = env.path("stdout")
        lim = None
        if fault == "stdout-full":
            with open("/dev/full", "wb") as f:
                r = run_limited([exe] + base, d + "/w", f)
        elif fault == "stdout-closed":
            r = run_limited([exe] + base, d + "/w", subprocess.DEVNULL, closed=True)
        elif fault == "stdout-pipe":
            rd, wr = os.pipe()
            os.close(rd)
            r = run_limited([exe] + base, d + "/w", wr)
            os.close(wr)
        elif fault == "stdout-limit":
            lim = limit(case, [len(ref.stdout)])
            with open(of, "wb") as f:
                r = run_limited([exe] + base, d + "/w", f, limit=lim)
        else:
            with open(of, "wb") as f:
                r = run_limited([exe] + base, d + "/w", f)
        bad = fault in ("stdout-full", "stdout-closed", "stdout-pipe") or lim is not None and lim < len(ref.stdout)
        if bad and r.returncode == 0:
            raise Violation("stdout could not be written (%s, limit %s of %d bytes) but the status is 0: %r" % (fault, lim, len(ref.stdout), base))
        if not bad:
            if r.returncode != 0:
                raise Violation("status 1 although stdout could be written: %r %r" % (base, r.stderr))
            with open(of, "rb") as f:
                if f.read() != ref.stdout:
                    raise Violation("incomplete output on stdout: %r" % base)
        if snapshot(d) != before:
            raise Violation("output to stdout changed files: %r" % base)
        return Result(labels, True, sample=dict(args=base, fault=fault))
    # ---------------------------------------------------------- output to files
    cxx = fmt in ("c++", "minimal-c++")
    sep = case["sep"] and k == "gen" and not fmt.startswith("minimal")
    if fault == "nodir":
        out = "missing/" + os.path.basename(out)
    elif fault == "notdir":
        out = "plain/" + os.path.basename(out)
        with open(d + "/w/plain", "w") as f:
            f.write("x")
    elif fault == "long":
        out = "n" * 300 + ".h"
    elif fault == "rodir" and env.cache["nobody"]:
        out = "ro/" + os.path.basename(out)
        os.mkdir(d + "/w/ro")
    if out == "-":
        out = "./-"
    outs = [replace_ext(out, ".hpp" if cxx else ".h"), replace_ext(out, ".cpp" if cxx else ".c")] if sep else [out]
    paths = [os.path.normpath(os.path.join(d + "/w", o)) for o in outs]
    args = base + ["-out=" + out]
    # reference: an undisturbed run in a tree of its own; the names in the output do not depend on the directory
    rd = env.path("ref")
    shutil.rmtree(rd, ignore_errors=True)
    os.makedirs(rd)
    ro = "n.h" if fault == "long" else os.path.basename(out)
    ref = run_limited([exe] + base + ["-out=" + rd + "/" + ro], rd, subprocess.PIPE)
    if ref.returncode != 0:
        raise Violation("refused: %r %r" % (base, ref.stderr))
    names = [os.path.basename(o) for o in outs] if fault != "long" else sorted(os.listdir(rd))
    have = sorted(os.listdir(rd))
    if have != sorted(names):
        raise Violation("promised files %r, written %r: %r -out=%s" % (names, have, base, ro))
    want = [open(rd + "/" + n, "rb").read() for n in names]
    # prepare the tree
    pres = [case["pre_h"], case["pre_b"]][:len(outs)]
    if fault in ("nodir", "notdir", "long"):
        pres = ["none"] * len(outs)
    for p, w, t in zip(paths, pres, "hb"):
        if w in ("input", "template"):
            # the output path is that of the input (or custom template) itself
            if w == "input" or k == "tpl":
                src = d + ("/in.txt" if w == "input" else "/t.tpl")
                shutil.copy(src, p)
                args = [a.replace(src, p) for a in args]
                # -line names the template
                want = [x.replace(b'#line 1 "' + src.encode() + b'"', b'#line 1 "' + p.encode() + b'"') for x in want]
            else:
                make(d, p, "file", t)
            continue
        make(d, p, w, t)
    user = lim = None
    if fault == "limit":
        lim = limit(case, [len(w) for w in want])
    elif fault == "rodir" and env.cache["nobody"]:
        os.chmod(d + "/w/ro", 0o555)
        user = 65534
        exe = env.root + "/gendlopen"
        for q in (d, d + "/w", d + "/w/sub", d + "/keep"):
            os.chmod(q, 0o755)
        os.chmod(env.scratch, 0o755)
    before = snapshot(d)
    r = run_limited([exe] + args, d + "/w", subprocess.PIPE, limit=lim, user=user)
    after = snapshot(d)
    detail = "\nargs %r, fault %s (limit %s of %r), existing %r\nstatus %d %r" % (args, fault, lim, [len(w) for w in want], pres, r.returncode, r.stderr[:300])
    if r.stdout:
        raise Violation("text on stdout with -out%s" % detail)
    keys = [os.path.relpath(p, d) for p in paths]
    changed = {x for x in set(before) | set(after) if before.get(x) != after.get(x)}
    inner = {x for x in changed if any(x.startswith(q + "/") for q in keys)}
    # nothing but the promised paths may change
    if changed - set(keys):
        raise Violation("other paths changed: %r%s" % (sorted(changed - set(keys)), detail))
    if inner:
        raise Violation("a directory was emptied: %r%s" % (sorted(inner), detail))
    force = case["force"]
    for q, w in zip(keys, pres):
        if w != "none" and not force and q in changed:
            raise Violation("%s (%s) was touched without -force%s" % (q, w, detail))
        if w == "fulldir" and q in changed:
            raise Violation("a directory with content was touched: %s%s" % (q, detail))
        if q in changed and after.get(q, ("",))[0] not in ("file", ""):
            raise Violation("%s is no regular file: %r%s" % (q, after[q], detail))
    blocked = any(w != "none" and not (force and w != "fulldir") for w in pres)
    empty_dir = force and "dir" in pres
    failing = blocked or fault in ("nodir", "notdir", "long") or user is not None or lim is not None and lim < max(len(w) for w in want)
    if failing:
        if r.returncode == 0:
            raise Violation("status 0 although the output could not be written%s" % detail)
        # a header whose location is blocked must prevent the body as well
        if len(keys) > 1 and (pres[0] != "none" and not force or pres[0] == "fulldir") and keys[1] in changed:
            raise Violation("the body was written although the header could not be%s" % detail)
    elif r.returncode != 0:
        if not empty_dir:
            raise Violation("refused although the output could be written%s" % detail)
    if r.returncode == 0:
        for q, w in zip(keys, want):
            if after.get(q, ("",))[0] != "file":
                raise Violation("%s was not written%s" % (q, detail))
            if after[q][2] != w:
                raise Violation("%s is not complete (%d of %d bytes)%s" % (q, len(after[q][2]), len(w), detail))
    labels += ["pre=" + w for w in pres] + ["exit=%d" % r.returncode]
    return Result(labels, fault != "none" or any(w != "none" for w in pres), sample=dict(args=args[1:], fault=fault, existing=pres, exit=r.returncode))


def limit(case, sizes):
    n, big, small = case["lim"], max(sizes), min(sizes)
    if case["limk"] == "abs":
        return max(0, n * 512)
    if case["limk"] == "frac":
        return max(0, big * max(n, 0) // 36)
    if case["limk"] == "size2":
        return max(0, small + n)
    return max(0, big + n)


def check_dump(env, case, d, exe):
    fault = case["fault"]
    rd = env.path("ref")
    shutil.rmtree(rd, ignore_errors=True)
    ref = run_limited([exe, "-dump-templates=" + rd], d, subprocess.PIPE)
    if ref.returncode != 0:
        raise Violation("dump failed: %r" % ref.stderr)
    want = {f: open(rd + "/" + f, "rb").read() for f in os.listdir(rd)}
    out = {"nodir": "a/b/c", "notdir": "plain/x"}.get(fault, "dmp")
    with open(d + "/w/plain", "w") as f:
        f.write("x")
    pre = case["pre_h"] if fault not in ("nodir", "notdir") else "none"
    p = d + "/w/" + out
    make(d, p, pre, "h")
    user = lim = None
    if fault == "limit":
        lim = limit(case, [len(w) for w in want.values()])
    elif fault == "rodir" and env.cache["nobody"]:
        user, exe = 65534, env.root + "/gendlopen"
        for q in (d, d + "/w", env.scratch):
            os.chmod(q, 0o755)
    before = snapshot(d)
    full = open("/dev/full", "wb") if fault == "stdout-full" else None
    r = run_limited([exe, "-dump-templates=" + out], d + "/w", full or subprocess.PIPE, limit=lim, user=user)
    if full:
        full.close()
    after = snapshot(d)
    detail = "\n-dump-templates=%s, existing %s, fault %s (limit %s)\nstatus %d %r" % (out, pre, fault, lim, r.returncode, r.stderr[:300])
    real = os.path.realpath(p)
    bad = pre in ("file", "dangling", "loop", "fifo") or fault == "notdir" or user or lim is not None and lim < max(len(w) for w in want.values())
    if r.returncode == 0:
        if bad:
            raise Violation("status 0 although the templates could not be written%s" % detail)
        for f, w in want.items():
            try:
                x = open(real + "/" + f, "rb").read()
            except OSError:
                x = None
            if x != w:
                raise Violation("%s was not dumped completely%s" % (f, detail))
    elif not bad:
        raise Violation("dump failed%s" % detail)
    keep = os.path.relpath(real, d)
    for x in set(before) | set(after):
        if before.get(x) != after.get(x):
            rel = os.path.relpath(d + "/" + x, real)
            if not (os.path.dirname(rel) == "" and rel in want) and x not in ("w/dmp", "w/a", "w/a/b", "w/a/b/c"):
                raise Violation("other paths changed: %s%s" % (x, detail))
    return Result(["kind=dump", "fault=" + fault, "pre=" + pre, "exit=%d" % r.returncode], True, sample=dict(out=out, fault=fault, existing=pre, exit=r.returncode))
