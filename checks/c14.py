"""C14: #line directives point at the true origin of each line."""
import os, re, shutil
from hypothesis import strategies as st
from core import Violation, Result, Inconclusive, run
import core
import decl as D
import tpl as T

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with marked templates: every template line carries its own file name and number, which an interpreter of the #line directives (and the compiler's preprocessor) must agree with"
LEVEL_NOTE = "The interpretation of #line is cross-checked against gcc's preprocessor on the generated templates."
RULE = ("A case is a declaration list (functions only, objects only, both), a format, parameter mode, prefix, guard kind and output name, and a template source: the shipped templates with "
        "a marker on every line, random template files (placeholders, '@' joins, %PARAM_SKIP_*% regions nested or unclosed, blank lines, CRLF, no final line break, empty files), a "
        "random custom template from a file with any name or from stdin, or the built-in templates. With -line every marked line must be attributed to its file and number, "
        "every other line to the output file and its own number; the text without the directives must equal the output without -line; the built-in output must equal that "
        "of the template files but for the file names. Non-trivial: the output has at least three directives.")
ASSUMPTIONS = ["the license text in front of the header part carries no directive", "an entry is not split by a backslash-continued line in front of a placeholder line",
               "file names have no line breaks"]
BUDGET = {"quick": (1200, 28), "thorough": (30000, 1200)}
FUNC = ["%%type%%", "%%func_symbol%%", "%%func_symbol_pad%%", "%%args%%", "%%param_names%%", "%%return%%"]
OBJ = ["%%obj_type%%", "%%obj_symbol%%", "%%obj_symbol_pad%%"]
SYM = ["%%sym_type%%", "%%symbol%%"]
SKIP = ["%PARAM_SKIP_REMOVE_BEGIN%", "%PARAM_SKIP_USE_BEGIN%", "%PARAM_SKIP_END%"]
TEXT = [" ", "foo", "*", ";", "(", ")", "gdo_a", "GDO_B", "gdo", "_GDO_C", "%%x%%", "%", "@ x", "=", "1", "\t", "+"]


def prepare(env):
    env.use_gendlopen()


@st.composite
def entry(draw):
    k = draw(st.integers(0, 11))
    if k < 2:
        return draw(st.sampled_from(SKIP))
    if k == 2:
        return ""
    pool = {3: FUNC, 4: FUNC, 5: OBJ, 6: OBJ, 7: SYM, 8: SYM}.get(k, [])
    s = "z"
    if draw(st.integers(0, 7)) == 0:
        # many joined lines
        s += "@\nz" * draw(st.sampled_from([3, 9, 20, 60]))
    for _ in range(draw(st.integers(1, 5))):
        j = draw(st.integers(0, 5))
        if j == 0:
            s += "@\n" + draw(st.sampled_from(["", "z"]))
        elif j < 3 or not pool:
            s += " " + draw(st.sampled_from(TEXT))
        else:
            s += " " + draw(st.sampled_from(pool))
    return s


@st.composite
def template(draw):
    l = draw(st.lists(entry(), max_size=8))
    if draw(st.integers(0, 3)) == 0:
        # a region with entries of several lines, and something to substitute behind it
        pool = draw(st.sampled_from([FUNC, OBJ, SYM]))
        l.append(draw(st.sampled_from(SKIP[:2])))
        l += ["z" + "@\nz %s" % draw(st.sampled_from(pool + TEXT)) * draw(st.integers(0, 5)) for _ in range(draw(st.integers(1, 3)))]
        l += [SKIP[2], "z " + draw(st.sampled_from(pool)), "z"]
    crlf, final = draw(st.integers(0, 5)) == 0, draw(st.integers(0, 4)) > 0
    t = "\n".join(l) + ("\n" if final and l else "")
    return t.replace("\n", "\r\n") if crlf else t


NAMES = ["t.tpl", "t.tpl", "we\\nird.c", "q\"uote.h", "sp ace.h", "sub/t.h", "\u00e9.h", "a\\\\b", "%s.h", "?.c"]


@st.composite
def strategy_(draw):
    kinds = draw(st.sampled_from([("func",), ("obj", "arr", "fptr"), ("func", "func", "obj", "arr", "fptr")]))
    src = draw(st.sampled_from(["shipped", "shipped", "random", "random", "custom", "builtin"]))
    c = dict(ds=draw(D.decls(D.text_cfg(), 1, 5, kinds=kinds)), src=src, fmt=draw(st.sampled_from(sorted(T.FORMATS))), mode=draw(st.sampled_from(["read", "read", "skip", "create"])),
             pfx=draw(st.sampled_from(["gdo"] * 8 + ["Foo", "x1"])), guard=draw(st.booleans()), sep=draw(st.booleans()), cpp=False,
             out=draw(st.sampled_from(["-", "o.h", "o.x.hh", "noext", "sub/o.c", "b\\n.h", "q\"q.h", "sp ace.h"])),
             lib=draw(st.sampled_from([None, "x.so", "api:1:x"])), defs=draw(st.integers(0, 2)))
    if src == "random":
        c["files"] = {f: draw(template()) for f in T.used(c["fmt"])}
        c["cpp"] = draw(st.integers(0, 3)) == 0
    elif src == "custom":
        c["tpl"] = draw(template())
        # not the output file: the runs compare with each other
        c["name"] = draw(st.sampled_from([x for x in NAMES if x != c["out"]] + ["-", "-"]))
        c["cpp"] = draw(st.integers(0, 3)) == 0
    elif src == "shipped":
        c["blanks"] = draw(st.booleans())
    return c


def strategy(env):
    return strategy_()


def gcc_lines(env, path, cxx):
    """what the compiler makes of the marked lines: [(file, number, reported line, reported file)]"""
    r = run(["gcc", "-E", "-P", "-x", "c++" if cxx else "c", "-w", "-I.", "-Isub", "gcc.in"], cwd=os.path.dirname(path))
    if r.rc != 0:
        raise Inconclusive("gcc -E: %r" % r)
    res = []
    for m in re.finditer(rb'~([A-Za-z_.+]+):(\d+)~ (\d+) "((?:[^"\\]|\\.)*)"', r.out):
        # non-ASCII bytes come as octal or as they are
        f = re.sub(rb"\\([0-7]{3})", lambda x: bytes([int(x.group(1), 8)]), m.group(4))
        res.append((m.group(1).decode(), int(m.group(2)), int(m.group(3)), T.unescape(f)))
    return res


def judge(what, data, natural, names, end_name):
    """names: marker file -> name expected in the directives. Returns the numbers of directives and marked lines"""
    nd = sum(1 for l in data.split(b"\n") if T.LINE.match(l))
    nm = 0
    for phys, text, name, no in T.attribute(data):
        ms = T.MARK.findall(text)
        if ms:
            f, n = ms[0]
            n = int(n)
            nm += 1
            if f == b"license.h":
                # in front of the header part: the lines of the output file itself
                want = (None, phys)
            else:
                want = (names[f.decode()], n)
            if (name, no) != want:
                raise Violation("%s: line %d %r stems from %s:%d but is attributed to %s:%d" % (what, phys, text[:120], f.decode(), n, name, no))
        elif text.strip() and natural:
            if (name, no) not in ((None, phys), (end_name, phys)):
                raise Violation("%s: line %d %r was added by gendlopen but is attributed to %s:%d" % (what, phys, text[:120], name, no))
    return nd, nm


def check(env, case):
    ds, fmt, src = case["ds"], case["fmt"], case["src"]
    d = env.path("r")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/sub")
    with open(d + "/in.txt", "wb") as f:
        f.write(D.render(ds, named=case["mode"] != "create").encode("latin-1"))
    a = ["in.txt", "-format=" + fmt, "-param=" + case["mode"], "-no-date"]
    if case["pfx"] != "gdo":
        a.append("-prefix=" + case["pfx"])
    if case["guard"]:
        a.append("-no-pragma-once")
    if case["lib"]:
        a.append("-library=" + case["lib"])
    a += ["-DX%d=1" % i for i in range(case["defs"])]
    out = case["out"]
    cxx = fmt in ("c++", "minimal-c++")
    sep = case["sep"] and out != "-" and not fmt.startswith("minimal")
    fm = "~%s:%d~" + (" __LINE__ __FILE__" if case["cpp"] else "")
    names = {f: f.encode() for f in T.files()}
    stdin, custom = b"", False
    if src == "shipped":
        td = env.path("marked-%d" % case["blanks"])
        if not os.path.isdir(td):
            T.marked_dir(td, case["blanks"])
        a.append("-templates-path=" + td)
    elif src == "random":
        os.makedirs(d + "/t")
        for f, t in case["files"].items():
            with open(d + "/t/" + f, "wb") as h:
                h.write(T.mark(t.encode(), f, fmt=fm))
        a.append("-templates-path=t")
    elif src == "custom":
        custom = True
        n = case["name"]
        data = T.mark(case["tpl"].encode(), "T", fmt=fm)
        if n == "-":
            stdin = data
            names = {"T": b"<STDIN>"}
        else:
            with open(d + "/" + n, "wb") as h:
                h.write(data)
            names = {"T": n.encode()}
        a.append("-template=" + n)

    def go(extra, tag):
        b = list(a) + extra
        if out != "-":
            b += ["-out=" + out] + (["-separate"] if case["sep"] else []) + ["-force"]
        r = env.gdo(b, stdin=stdin, cwd=d)
        if r.rc != 0:
            raise Violation("refused: %r\n%r" % (b, r))
        if out == "-":
            return [("stdout", r.out)]
        if custom:
            fs = [out]
        elif sep:
            fs = [re.sub(r"(?<=[^/])\.[^./]*$", "", out) + e for e in ((".hpp", ".cpp") if cxx else (".h", ".c"))]
        else:
            fs = [out]
        res = []
        for f in fs:
            try:
                with open(d + "/" + f, "rb") as h:
                    res.append((f, h.read()))
            except OSError:
                raise Violation("%s was not written: %r" % (f, b))
        return res
    plain = go([], "plain")
    lined = go(["-line"], "line")
    detail = "\n%s\ncase %s" % (a, {k: v for k, v in case.items() if k != "ds"})
    nd = nm = 0
    hdr = lined[0][0]
    if out == "-":
        end = (case["pfx"] + (".hpp" if cxx else ".h")).encode()
    else:
        end = os.path.basename(hdr).encode()
    for (f, p), (_, l) in zip(plain, lined):
        if T.strip(l) != p:
            la, lb = T.strip(l).split(b"\n"), p.split(b"\n")
            i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            raise Violation("%s: the output with -line is not the same text but for the directives, first at line %d: %r / %r%s" % (f, i + 1, la[i:i + 1], lb[i:i + 1], detail))
        if any(T.LINE.match(x) for x in p.split(b"\n")):
            raise Violation("%s: #line directives without -line%s" % (f, detail))
        if src == "builtin":
            nd += sum(1 for x in l.split(b"\n") if T.LINE.match(x))
            continue
        try:
            x, y = judge(f, l, not custom, names, end if f == hdr else None)
        except Violation as v:
            raise Violation(str(v) + detail)
        nd += x
        nm += y
        if case["cpp"] and not (sep and '"' in out):
            gp = d + "/gcc.in"
            with open(gp, "wb") as h:
                h.write(l)
            for fn, n, no, name in gcc_lines(env, gp, cxx):
                if fn != "license.h" and (no, name) != (n, names[fn]):
                    raise Violation("%s: for the compiler line %s:%d is line %d of %s%s" % (f, fn, n, no, name, detail))
    if src == "builtin":
        dd = env.path("dump")
        if not os.path.isdir(dd):
            shutil.copytree(core.SRC + "/templates", dd)
        a.append("-templates-path=" + dd)
        for (f, l), (_, m) in zip(lined, go(["-line"], "dump")):
            if l.replace(b'"<built-in>/', b'"') != m:
                raise Violation("%s: -line output of the built-in templates differs from that of the template files%s" % (f, detail))
            if b'#line 1 "<built-in>/' not in l:
                raise Violation("%s: no built-in template is named%s" % (f, detail))
    return Result(["src=" + src, "fmt=" + fmt, "sep=%d" % sep, "gcc=%d" % case["cpp"], "out=" + out, "mode=" + case["mode"], "pfx=" + case["pfx"]], nd >= 3,
                  sample=dict(args=a, directives=nd, marked=nm, files=str(case.get("files") or case.get("tpl"))[:300]))
