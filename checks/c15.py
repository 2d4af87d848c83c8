"""C15: dumped templates reproduce the built-in output; edits take effect at the right place."""
import os, re, shutil
from hypothesis import strategies as st
from core import Violation, Result, run, InfraError
import core
import decl as D
import tpl as T

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "differential and metamorphic property-based testing: built-in against dumped templates, generated edits of marked templates against the unedited output, generated template directories through the template compiler against a reader model"
LEVEL_NOTE = "Edits are whole lines (inserted, changed, removed) with or without placeholders; edits of several files at once are combined."
RULE = ("A case is one of: (same) an option list, format and declaration list run with the built-in and with the dumped templates, whose outputs must be identical but for "
        "file names in #line; (edit) marked copies of the templates in which up to three generated lines were inserted, changed or removed: lines of files the format does "
        "not use change nothing, the others appear as often as their placeholders demand between the neighbouring lines, with everything else unchanged; (missing) a template "
        "file deleted or replaced by a directory: status 1 and a message if the format needs it, else no change; (data) random template files compiled by "
        "gen_templates_data and linked into the program, whose dump must be those files and whose output that of the files with -templates-path, in every format; (dump) the dump of /repo's templates must equal the files. Non-trivial: same/edit with output over 2000 bytes, "
        "or data with at least three lines.")
ASSUMPTIONS = ["a dump writes LF line endings", "template files have no NUL bytes"]
BUDGET = {"quick": (1000, 28), "thorough": (20000, 1200)}
SKIP = [b"%PARAM_SKIP_REMOVE_BEGIN%", b"%PARAM_SKIP_USE_BEGIN%", b"%PARAM_SKIP_END%"]


def prepare(env):
    env.use_gendlopen()
    d = os.path.join(env.root, "dump")
    r = env.gdo(["-dump-templates=" + d], cwd=env.root)
    if r.rc != 0:
        env.cache["dump_error"] = "%r" % r
        os.makedirs(d, exist_ok=True)
    env.cache["dump"] = d
    r = run(["gcc", "-O1", "-w", "-fsanitize=address,undefined", "-o", env.root + "/gen", core.SRC + "/gen_templates_data.c"])
    if r.rc != 0:
        raise InfraError("gen_templates_data: %r" % r)


FMTS = sorted(T.FORMATS)


@st.composite
def opts(draw):
    o = []
    for x in (["-line"], ["-no-pragma-once"], ["-prefix=Foo"], ["-DX=1"], ["-include=<a.h>"], ["-library=api:1:x"], ["-library=x.so"], ["-separate"]):
        if draw(st.integers(0, 6 if x[0].startswith("-prefix") else 3)) == 0:
            o += x
    return o


LINES = ["EDIT", "EDIT gdo_x GDO_Y gdo", "EDIT %%func_symbol%%;", "EDIT %%symbol%%", "EDIT %%obj_symbol%%", "EDIT 100% @ x", "EDIT \\\\ \" ??/ $1 \\1", "EDIT \u00e9\u00e4a", "EDIT\t%%return%% %%type%% %%func_symbol_pad%%(%%args%%)",
         "EDIT%%unknown%%"]


@st.composite
def strategy_(draw):
    k = draw(st.sampled_from(["same", "same", "edit", "edit", "edit", "edit", "missing", "data"]))
    if k == "data":
        # short files of nasty pieces
        piece = st.sampled_from(["a", "\"", "\\", "@", "@", "%", "%%", "\n", "\n", "\n", "\r\n", "\r", "\t", "\u00e9", "0", "f", "?", "??/", "gdo", "@\n", "@\r\n", "\x01", "\x7f", "'", "{", " ", "#line 1 \"x\"\n", "\\n", "%PARAM_SKIP_END%", "\n%PARAM_SKIP_REMOVE_BEGIN%\n", "%%func_symbol%%", "%%symbol%%@\n"])
        return dict(k=k, rot=draw(st.integers(0, 11)), opts=draw(st.sampled_from([[], ["-line"], ["-line"], ["-line", "-prefix=Foo"], ["-prefix=Foo"]])),
                    files=draw(st.lists(st.lists(piece, max_size=14).map("".join), min_size=1, max_size=6)))
    kinds = draw(st.sampled_from([("func",), ("obj", "arr", "fptr"), ("func", "func", "obj", "arr", "fptr")]))
    c = dict(k=k, ds=draw(D.decls(D.text_cfg(), 1, 4, kinds=kinds)), fmt=draw(st.sampled_from(FMTS)), mode=draw(st.sampled_from(["read", "read", "skip", "create"])), opts=draw(opts()),
             tofile=draw(st.booleans()))
    if k == "edit":
        c["edits"] = draw(st.lists(st.tuples(st.sampled_from(["ins", "ins", "app", "del"]), st.integers(0, 11), st.integers(0, 3000), st.sampled_from(LINES)), min_size=1, max_size=3))
        c["crlf"] = draw(st.integers(0, 4)) == 0
    elif k == "missing":
        c["file"] = draw(st.integers(0, 11))
        c["how"] = draw(st.sampled_from(["gone", "dir", "link"]))
    return c


def strategy(env):
    return strategy_()


def explicit(env):
    yield dict(k="dump", twice=False)
    yield dict(k="dump", twice=True)
    ds = [dict(k="func", n="foo", t=["int"], p=[], fp=[]), dict(k="obj", n="bar", t=["int"])]
    for f in FMTS:
        for i in range(12):
            yield dict(k="missing", ds=None, fmt=f, mode="read", opts=[], tofile=False, file=i, how="gone")
        for m in ("read", "skip", "create"):
            for o in ([], ["-line"], ["-prefix=Foo", "-no-pragma-once"], ["-separate"]):
                yield dict(k="same", ds=None, fmt=f, mode=m, opts=o, tofile=True)


def text_of(case):
    if case["ds"] is None:
        return b"int foo(int%s); void bar(void); extern char *baz;" % (b"" if case["mode"] == "create" else b" a")
    return D.render(case["ds"], named=case["mode"] != "create").encode("latin-1")


def generate(env, d, case, extra, tag):
    """-> [(name, data)] or the failed Proc"""
    a = ["in.txt", "-format=" + case["fmt"], "-param=" + case["mode"], "-no-date"] + case["opts"] + extra
    o = os.path.join(d, "o")
    shutil.rmtree(o, ignore_errors=True)
    os.mkdir(o)
    if case["tofile"]:
        a.append("-out=o/x.h")
    r = env.gdo(a, cwd=d)
    if r.rc != 0:
        return r, a
    if not case["tofile"]:
        return [("stdout", r.out)], a
    return [(f, open(o + "/" + f, "rb").read()) for f in sorted(os.listdir(o))], a


def first_diff(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
    return "line %d: %r / %r (of %d / %d lines)" % (i + 1, la[i:i + 1], lb[i:i + 1], len(la), len(lb))


def as_dumped(data):
    """a template file as a dump writes it"""
    data = data.replace(b"\r\n", b"\n")
    return data if data.endswith(b"\n") or not data else data + b"\n"


def check_data(env, case):
    d = env.path("data")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/t")
    names = T.files()
    datas = {}
    for i, n in enumerate(names):
        x = case["files"][(i + case["rot"]) % len(names)].encode() if (i + case["rot"]) % len(names) < len(case["files"]) else b"x\n"
        if n == "license.h" and x.startswith(b"#line"):
            x = b"x" + x
        datas[n] = x
        with open(d + "/t/" + n, "wb") as f:
            f.write(datas[n])
    r = run([env.root + "/gen", d + "/t", d + "/out.cpp"])
    if r.rc != 0:
        raise Violation("gen_templates_data failed: %r\n%r" % (r, case))
    r = run(["g++", "-std=c++20", "-O0", "-w", "-I" + core.SRC, "-c", d + "/out.cpp", "-o", d + "/out.o"])
    if r.rc != 0:
        raise Violation("the code written by gen_templates_data does not compile: %r\n%r" % (r.err[:1500], case))
    exe = d + "/gendlopen"
    r = run(["g++", d + "/out.o", os.path.dirname(env.cache["exe"]) + "/rest.o", "-o", exe])
    if r.rc != 0:
        raise InfraError("link: %r" % r)
    # what was built in is what the files hold
    r = run([exe, "-dump-templates=" + d + "/dmp"])
    if r.rc != 0:
        raise Violation("dump failed: %r\n%r" % (r, case))
    open_end = False
    for n in names:
        got, want = open(d + "/dmp/" + n, "rb").read(), as_dumped(datas[n])
        if want.rstrip(b"\n").endswith(b"@") and not datas[n].endswith(b"\n\n"):
            # joined to nothing at the end of the file: the '@' may be kept or not
            open_end = True
            got, want = got.rstrip(b"@\n"), want.rstrip(b"@\n")
        if got != want:
            raise Violation("%s: dumped after being built in, it differs from the file: %r / %r" % (n, got, want))
    # and works the same
    with open(d + "/in.txt", "w") as f:
        f.write("int foo(int a, ...); void bar(void); extern char *baz; int qux[2];")
    n = 0
    for fmt in FMTS:
        for mode in ("read", "skip"):
            a = ["in.txt", "-format=" + fmt, "-param=" + mode, "-no-date"] + case["opts"]
            x, y = run([exe] + a, cwd=d), env.gdo(a + ["-templates-path=t"], cwd=d)
            # carriage returns in front of a line break are line ending style
            xo, yo = (re.sub(rb"\r+\n", b"\n", o) for o in (x.out.replace(b'"<built-in>/', b'"'), y.out))
            if x.rc != y.rc or x.rc == 0 and not open_end and xo != yo:
                raise Violation("built-in templates %r give another output than the same files with -templates-path\n%s\n%r\n%r\n%s" % (datas, a, x, y, first_diff(xo, yo)))
            n += x.rc == 0
    return Result(["kind=data", "data ok=%d" % min(n, 1)], sum(x.count("\n") for x in case["files"]) >= 3, sample=dict(files=case["files"]))


def check_dump(env, case):
    d = env.path("dmp")
    shutil.rmtree(d, ignore_errors=True)
    sub = d + "/a/b"
    for _ in range(2 if case["twice"] else 1):
        r = env.gdo(["-dump-templates=" + sub])
        if r.rc != 0:
            raise Violation("dump failed: %r" % r)
    have = sorted(os.listdir(sub))
    want = sorted(T.files())
    if have != want:
        raise Violation("dumped files %r, templates %r" % (have, want))
    for f in want:
        a, b = open(sub + "/" + f, "rb").read(), open(core.SRC + "/templates/" + f, "rb").read()
        if a != b:
            raise Violation("dumped %s is not the template: %s" % (f, first_diff(a, b)))
    return Result(["kind=dump"], True, sample=case)


def check(env, case):
    if case["k"] == "data":
        return check_data(env, case)
    if case["k"] == "dump":
        return check_dump(env, case)
    if "dump_error" in env.cache:
        raise Violation("-dump-templates failed: " + env.cache["dump_error"])
    d = env.path("r")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + "/in.txt", "wb") as f:
        f.write(text_of(case))
    fmt = case["fmt"]
    used = T.used(fmt)
    labels = ["kind=" + case["k"], "fmt=" + fmt, "mode=" + case["mode"]]
    if case["k"] == "same":
        a, args = generate(env, d, case, [], "a")
        b, args2 = generate(env, d, case, ["-templates-path=" + env.cache["dump"]], "b")
        if not isinstance(a, list) or not isinstance(b, list):
            raise Violation("refused: %r\n%r\n%r" % (args2, a, b))
        if [x[0] for x in a] != [x[0] for x in b]:
            raise Violation("different files: %r / %r\n%r" % ([x[0] for x in a], [x[0] for x in b], args2))
        for (f, x), (_, y) in zip(a, b):
            if "-line" in case["opts"]:
                x = x.replace(b'#line 1 "<built-in>/', b'#line 1 "')
            if x != y:
                raise Violation("%s: output of the built-in and the dumped templates differs, %s\n%r" % (f, first_diff(x, y), args2))
        return Result(labels + (["-line"] if "-line" in case["opts"] else []), sum(len(x[1]) for x in a) > 2000, sample=dict(args=args))
    names = T.files()
    if case["k"] == "missing":
        td = d + "/t"
        shutil.copytree(env.cache["dump"], td)
        f = names[case["file"] % len(names)]
        base, _ = generate(env, d, case, ["-templates-path=t"], "b")
        os.unlink(td + "/" + f)
        if case["how"] == "dir":
            os.mkdir(td + "/" + f)
        elif case["how"] == "link":
            os.symlink("nowhere", td + "/" + f)
        r, args = generate(env, d, case, ["-templates-path=t"], "m")
        if f in used:
            if isinstance(r, list) or r.rc != 1 or not r.err.strip():
                raise Violation("template %s is missing (%s) but not refused: %r\n%r" % (f, case["how"], args, r if not isinstance(r, list) else [x[0] for x in r]))
        else:
            if not isinstance(r, list) or r != base:
                raise Violation("template %s, which %s does not use, is missing (%s): %r\n%r" % (f, fmt, case["how"], args, r))
        return Result(labels + ["needed=%d" % (f in used)], True, sample=dict(args=args, missing=f))
    # ---- edits of marked templates
    base_d = env.path("base%d" % case["crlf"])
    if not os.path.isdir(base_d):
        T.marked_dir(base_d)
        if case["crlf"]:
            for f in names:
                p = base_d + "/" + f
                x = open(p, "rb").read().replace(b"\n", b"\r\n")
                open(p, "wb").write(x)
    base, args = generate(env, d, case, ["-templates-path=" + base_d], "base")
    if not isinstance(base, list):
        raise Violation("refused: %r\n%r" % (args, base))
    td = d + "/t"
    os.mkdir(td)
    for f in names:
        os.symlink(base_d + "/" + f, td + "/" + f)
    eol = b"\r\n" if case["crlf"] else b"\n"
    if case["ds"] is None:
        nf, no = 2, 1
    else:
        nf = sum(1 for x in case["ds"] if x["k"] == "func")
        no = len(case["ds"]) - nf
    plan = []   # (what, file, line, text, id, expected copies or None)
    busy = set()
    for i, (what, fi, pos, text) in enumerate(case["edits"]):
        # mostly used files
        f = names[fi % len(names)] if pos % 5 == 0 else used[fi % len(used)]
        lines = open(base_d + "/" + f, "rb").read().split(eol)[:-1]
        if not lines:
            continue
        n = pos % len(lines)          # 0-based: the line that is edited, or in front of which one is inserted
        # not inside a joined entry
        while n > 0 and lines[n - 1].endswith(b"@"):
            n -= 1
        if (f, n) in busy or what != "ins" and (T.SKIPLINE.match(lines[n].strip(b"\r")) and f not in T.LITERAL or lines[n].endswith(b"@")):
            continue
        busy.add((f, n))
        plan.append([what, f, n, text.replace("EDIT", "EDIT%d=" % i) + " ~~", i])
    # state of skipping in front of each line
    edited = set()
    for f in {p[1] for p in plan}:
        lines = open(base_d + "/" + f, "rb").read().split(eol)
        tail = lines.pop()
        skip, new = False, []
        for n, l in enumerate(lines):
            kw = T.SKIPLINE.match(l) and f not in T.LITERAL
            here = [p for p in plan if p[1] == f and p[2] == n]
            for p in here:
                p.append(skip)
                if p[0] == "ins":
                    new.append(p[3].encode())
            if not any(p[0] == "del" for p in here):
                ap = b"".join(b" " + p[3].encode() for p in here if p[0] == "app" and "%%" not in p[3])
                if ap and l.endswith(b"\\"):
                    ap += b" \\"
                new.append(l + ap)
            if kw:
                skip = {SKIP[0]: case["mode"] == "skip", SKIP[1]: case["mode"] != "skip", SKIP[2]: False}[l]
        os.unlink(td + "/" + f)
        with open(td + "/" + f, "wb") as h:
            h.write(eol.join(new) + eol + tail)
    r, args = generate(env, d, case, ["-templates-path=t"], "edit")
    detail = "\nargs %r\nedits %r\ncase %r" % (args, plan, {k: v for k, v in case.items() if k != "ds"})
    if not isinstance(r, list):
        raise Violation("edited templates refused: %r%s" % (r, detail))
    if [x[0] for x in r] != [x[0] for x in base]:
        raise Violation("different files: %r / %r%s" % ([x[0] for x in base], [x[0] for x in r], detail))
    lined = "-line" in case["opts"]
    pfx = ([o[8:] for o in case["opts"] if o.startswith("-prefix=")] or ["gdo"])[-1]
    for fname, data in r:
        want = dict(base)[fname]
        got = T.strip(data) if lined else data
        want = T.strip(want) if lined else want
        part = "s" if len(base) == 1 else ("b" if fname.endswith((".c", ".cpp")) else "h")
        seq = T.order(fmt, part)
        # take the inserted lines out of the output, remembering where they stood
        rest, seen = [], {}
        for l in got.split(b"\n"):
            m = re.match(rb"EDIT(\d+)=", l)
            if m:
                seen.setdefault(int(m.group(1)), []).append((len(rest), l))
            else:
                rest.append(l)
        wl = want.split(b"\n")
        for p in plan:
            if p[0] == "del" and p[1] in seq:
                m = b"~%s:%d~" % (p[1].encode(), p[2] + 1)
                gone = [x for x in wl if m in x]
                if any(m in x for x in rest):
                    raise Violation("%s: the removed line %d of %s is still there%s" % (fname, p[2] + 1, p[1], detail))
                wl = [x for x in wl if m not in x]
            elif p[0] == "app" and p[1] in seq and "%%" not in p[3]:
                m = b"~%s:%d~" % (p[1].encode(), p[2] + 1)
                txt = b" " + T_prefix(p[3], pfx)
                for j, x in enumerate(wl):
                    if m in x:
                        y = x.rstrip(b"\r")
                        cr = x[len(y):]
                        e = b" \\" if y.endswith(b"\\") else b""
                        wl[j] = y + txt + e + cr
        if rest != wl:
            raise Violation("%s: lines other than the edited ones changed (got / expected): %s%s" % (fname, first_diff(b"\n".join(rest), b"\n".join(wl)), detail))
        for p in plan:
            if p[0] != "ins":
                continue
            got_l = seen.pop(p[4], [])
            lit = p[1] in T.LITERAL
            if p[1] not in seq:
                cnt = 0
            elif p[5] and not lit:
                cnt = 0
            elif lit or "%%" not in p[3] or "unknown" in p[3]:
                cnt = 1
            elif "obj_" in p[3]:
                cnt = no
            elif "%%symbol" in p[3]:
                cnt = nf + no
            else:
                cnt = nf
            if len(got_l) != cnt:
                raise Violation("%s: the line inserted into %s in front of line %d appears %d times instead of %d%s" % (fname, p[1], p[2] + 1, len(got_l), cnt, detail))
            if cnt == 0:
                continue
            if len({x[0] for x in got_l}) != 1:
                raise Violation("%s: the copies of an inserted line are not together%s" % (fname, detail))
            if lit or "%%" not in p[3] or "unknown" in p[3]:
                w = T_prefix(p[3], pfx)
                if got_l[0][1].rstrip(b"\r") != w:
                    raise Violation("%s: inserted line is %r instead of %r%s" % (fname, got_l[0][1], w, detail))
            at = got_l[0][0]
            key = lambda l: max([(seq.index(a.decode()), int(b)) for a, b in T.MARK.findall(l)] or [None])
            me = (seq.index(p[1]), p[2] + 1)
            before = next((key(x) for x in reversed(rest[:at]) if T.MARK.search(x)), None)
            after = next((key(x) for x in rest[at:] if T.MARK.search(x)), None)
            if before and before >= me or after and after < me:
                raise Violation("%s: the line inserted into %s in front of line %d stands between %r and %r%s" % (fname, p[1], p[2] + 1, before, after, detail))
        if seen:
            raise Violation("%s: unexpected lines %r%s" % (fname, seen, detail))
    for p in plan:
        labels.append("edit=%s" % p[0])
        labels.append("used=%d" % (p[1] in used))
        if p[5]:
            labels.append("in skipped region")
    return Result(labels + ["crlf=%d" % case["crlf"]], bool(plan), sample=dict(args=args, edits=[p[:4] for p in plan]))


def T_prefix(text, pfx):
    """the documented prefix replacement, for the texts used here"""
    b = text.encode()
    if pfx == "gdo":
        return b
    p = re.sub(r"[^A-Za-z0-9]", "_", pfx)
    return b.replace(b"gdo_x", p.lower().encode() + b"_x").replace(b"GDO_Y", p.upper().encode() + b"_Y").replace(b" gdo ", b" " + p.lower().encode() + b" ")
