"""C09: output is a pure function of input and options."""
import hashlib, os, re, shutil
from hypothesis import strategies as st
from core import Violation, Result, run
import decl as D
import c08

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "metamorphic property-based testing: generated inputs and option sets run repeatedly under generated environments, directories, input sources and output sinks"
LEVEL_NOTE = "Compares the tool with itself; covers environment variables, time zone, locale names, directories, descriptors, leftover files, not other machines."
RULE = ("A case is a declaration list (or a custom template run, or -print-symbols), an option set and several generated ways to run it: environment "
        "(TZ, LC_ALL, LANG with real single and multi byte locales, HOME, TMPDIR, SOURCE_DATE_EPOCH, every name found in the program, random variables), working directory, input as file (relative, absolute, through a "
        "symlink, a pipe via /dev/stdin) or stdin, output to stdout or a file of the same name in another directory, over an older longer file "
        "with -force. All outputs must be the same bytes; without -no-date only the one note line may differ, and only by a date that agrees with "
        "the clock. The input file (bytes, mode, time) stays unchanged and no other file appears. Non-trivial: two or more ways that differ in "
        "source, sink or directory.")
ASSUMPTIONS = ["the output file's base name is the same where it shows up in guards, #include and #line lines"]
BUDGET = {"quick": (700, 30), "thorough": (20000, 1200)}
TZS = ["UTC", "Asia/Kathmandu", "America/New_York", "XXX-14", "XXX+12", "", "garbage/zone"]
LOCS = ["C", "C.UTF-8", "de_DE.UTF-8", "tr_TR", "ja_JP.eucJP", "", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1"]
# characters that are letters, digits or spaces in one of the single byte locales only
BYTES = ["caf\udce9", "\udcfdx", "x\udcddy", "i\udca0j", os.fsdecode(b"\xc3\xa9")]


def prepare(env):
    env.use_gendlopen()
    # real locales (the system has only C and C.UTF-8), used through LOCPATH
    loc = os.path.join(env.root, "loc")
    os.makedirs(loc, exist_ok=True)
    for l in LOCS:
        n, _, cs = l.partition(".")
        if cs and n != "C":
            run(["localedef", "-i", n, "-f", cs, os.path.join(loc, l)], timeout=60)
    env.cache["loc"] = loc
    # strings in the program that look like names of environment variables
    with open(env.cache["exe"], "rb") as f:
        names = set(re.findall(rb"(?<=\0)[A-Z][A-Z0-9_]{2,39}(?=\0)", f.read()))
    env.cache["names"] = sorted(n.decode() for n in names if not n.startswith(b"LD_"))


@st.composite
def way(draw):
    return dict(tz=draw(st.sampled_from(TZS)), loc=draw(st.sampled_from(LOCS)), cwd=draw(st.sampled_from(["", "sub", "sub/deep er", "ü"])),
                src=draw(st.sampled_from(["stdin", "stdin", "rel", "abs", "symlink", "devstdin", "dotted"])),
                sink=draw(st.sampled_from(["stdout", "stdout", "file", "abs", "over", "dash"])),
                extra=draw(st.lists(st.sampled_from(["GDO", "GDO_PREFIX", "POSIXLY_CORRECT", "LINES", "SOURCE_DATE_EPOCH", "CC", "LANGUAGE", "NO_COLOR", "FORCE_COLOR",
                                                     "CLICOLOR_FORCE", "HOME", "TMPDIR", "PWD", "SHELL", "USER", "TERM"]), max_size=4)), bin=draw(st.lists(st.integers(0, 400), max_size=4)),
                val=draw(st.sampled_from(["", "0", "1", "/nonexistent", "x" * 300])))


@st.composite
def strategy_(draw):
    ds = draw(D.decls(D.text_cfg(), 1, 5))
    opts = [o for o in draw(st.lists(c08.atom(), max_size=4)) if o[0] != "prefix" or re.fullmatch(r"\w+", o[1])]
    if draw(st.integers(0, 5)) == 0:
        opts = [o for o in opts if o[0] != "prefix"] + [["prefix", draw(st.sampled_from(BYTES))]]
    return dict(ds=ds, opts=opts, kind=draw(st.sampled_from(["gen"] * 5 + ["tpl", "print"])), sep=draw(st.integers(0, 3)) == 0,
                ways=draw(st.lists(way(), min_size=2, max_size=4)), nodate=draw(st.integers(0, 3)) > 0,
                fopt=draw(st.integers(0, 5)) == 0)


def strategy(env):
    return strategy_()


NOTE = re.compile(rb"It was automatically generated by gendlopen( on ([A-Z][a-z]{2} \d{4}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d{4}))?\.\n")


def snapshot(root):
    res = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                res[os.path.relpath(p, root)] = ("link", os.readlink(p))
            else:
                s = os.stat(p)
                with open(p, "rb") as fh:
                    res[os.path.relpath(p, root)] = (hashlib.sha1(fh.read()).hexdigest(), s.st_mode, s.st_mtime_ns)
        for x in ds:
            res[os.path.relpath(os.path.join(d, x), root) + "/"] = "dir"
    return res


def check(env, case):
    opts = [o for o in case["opts"] if o[0] != "no-date"]
    if case["nodate"]:
        opts = opts + [["no-date", None]]
    kind, sep = case["kind"], case["sep"] and case["kind"] == "gen"
    args = c08.canonical(opts)
    text = D.render(case["ds"])
    if case["fopt"]:
        text = "%option D=FROM_FILE\n" + text
    text = text.encode("latin-1")
    pfx, cxx, fmt = "gdo", False, "c"
    for n, v in opts:
        if n == "prefix":
            pfx = os.fsdecode(os.fsencode(v))
        if n == "format":
            fmt = v.lower()
    cxx = fmt in ("c++", "cxx", "cpp", "minimal-c++", "minimal-cxx", "minimal-cpp")
    sep = sep and not fmt.startswith("minimal")
    # the name that -out must have so that the text is the one written to stdout
    name = pfx + (".hpp" if cxx else ".h")
    if sep:
        args.append("-separate")
    if kind == "tpl":
        args = args + ["-template=" + env.path("t.tpl")]
        with open(env.path("t.tpl"), "w") as f:
            f.write("x\n" + D.OBS_TEMPLATE)
    elif kind == "print":
        args = args + ["-print-symbols"]
    results = []
    labels = {"kind=" + kind}
    import time
    for w in case["ways"]:
        root = env.path("root")
        shutil.rmtree(root, ignore_errors=True)
        cwd = os.path.join(root, w["cwd"]) if w["cwd"] else root
        os.makedirs(cwd)
        os.makedirs(root + "/in")
        os.makedirs(root + "/out")
        inp = root + "/in/input.txt"
        with open(inp, "wb") as f:
            f.write(text)
        os.utime(inp, (1000000000, 1000000000))
        os.symlink("input.txt", root + "/in/link")
        stdin, a = b"", None
        if w["src"] == "stdin":
            a, stdin = "-", text
        elif w["src"] == "devstdin":
            a, stdin = "/dev/stdin", text
        elif w["src"] == "rel":
            a = os.path.relpath(inp, cwd)
        elif w["src"] == "dotted":
            a = root + "/out/../in/./input.txt"
        elif w["src"] == "symlink":
            a = root + "/in/link"
        else:
            a = inp
        sink = w["sink"]
        if kind == "print" or (sep and sink in ("stdout", "dash")):
            sink = "stdout" if kind == "print" else "file"
        xs = list(args)
        od, outs = None, []
        if sink == "dash":
            xs.append("-out=-")
        elif sink != "stdout":
            od = root + "/out"
            op = os.path.join(od, name)
            xs.append("-out=" + (op if sink != "file" else os.path.relpath(op, cwd)))
            outs = [name]
            if sep:
                # both names are made from the one given
                outs = [pfx + (".hpp" if cxx else ".h"), pfx + (".cpp" if cxx else ".c")]
            if sink == "over":
                xs.append("-force")
                for o in outs:
                    with open(os.path.join(od, o), "wb") as f:
                        f.write(b"old contents\n" * 40000)
        envv = dict(TZ=w["tz"], LC_ALL=w["loc"], LANG=w["loc"])
        for k in w["extra"]:
            envv[k] = w["val"]
        envv["LOCPATH"] = env.cache["loc"]
        for k in w.get("bin", []):
            if env.cache["names"]:
                envv[env.cache["names"][k % len(env.cache["names"])]] = w["val"]
        before = snapshot(root)
        t0 = int(time.time())
        r = env.gdo(xs + [a], stdin=stdin, cwd=cwd, env=envv)
        t1 = int(time.time()) + 1
        after = snapshot(root)
        if r.rc != 0:
            raise Violation("refused: %r %s\n%r" % (xs + [a], text, r))
        for k in before:
            if k not in after or (before[k] != after[k] and not (k.startswith("out/") and k[4:] in outs)):
                raise Violation("%s was changed or removed by %r" % (k, xs + [a]))
        new = sorted(set(after) - set(before) - {"out/" + o for o in outs})
        if new:
            raise Violation("unexpected files %s from %r" % (new, xs + [a]))
        if outs:
            if r.out:
                raise Violation("output on stdout although -out was given: %r" % r)
            data = []
            for o in outs:
                if "out/" + o not in after:
                    raise Violation("%s was not written by %r" % (o, xs + [a]))
                with open(os.path.join(root, "out", o), "rb") as f:
                    data.append(f.read())
        else:
            data = [r.out]
        # dates
        if kind == "gen":
            norm = []
            for dta in data:
                ms = NOTE.findall(dta)
                if len(ms) != 1:
                    raise Violation("note line found %d times: %r" % (len(ms), dta[:200]))
                if bool(ms[0][1]) == case["nodate"]:
                    raise Violation("date shown: %r, -no-date %s" % (ms[0][1], case["nodate"]))
                if ms[0][1]:
                    stamp = ms[0][1].decode()
                    t = time.strptime(stamp[4:23], "%Y-%m-%d %H:%M:%S")
                    off = int(stamp[24:25] + "1") * (int(stamp[25:27]) * 3600 + int(stamp[27:29]) * 60)
                    import calendar
                    ts = calendar.timegm(t) - off
                    if not (t0 - 1 <= ts <= t1 + 1):
                        raise Violation("date %r is not now (%d..%d)" % (stamp, t0, t1))
                norm.append(NOTE.sub(b"NOTE\n", dta))
            data = norm
        results.append((data, r.err, w, xs))
        labels.add("src=" + w["src"])
        labels.add("sink=" + sink)
    d0 = results[0]
    for d in results[1:]:
        if d[0] != d0[0]:
            for x, y in zip(d0[0], d[0]):
                la, lb = x.split(b"\n"), y.split(b"\n")
                dl = [(i + 1, p, q) for i, (p, q) in enumerate(zip(la, lb)) if p != q][:3]
                if dl or len(la) != len(lb):
                    raise Violation("different output: %s, %d/%d lines\n%s %s\n%s %s\n%s" % (dl, len(la), len(lb), d0[2], d0[3], d[2], d[3], text))
            raise Violation("different output files\n%s\n%s" % (d0[2:], d[2:]))
    ws = {(w["src"], w["sink"], w["cwd"]) for w in case["ways"]}
    if not case["nodate"]:
        labels.add("dated")
    if sep:
        labels.add("separate")
    return Result(sorted(labels), len(ws) > 1, sample=dict(opts=args, ways=[[w["src"], w["sink"], w["cwd"], w["tz"]] for w in case["ways"]]))
