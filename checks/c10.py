"""C10: custom templates are substituted exactly as documented."""
import re
from hypothesis import strategies as st
from core import Violation, Result
import decl as D

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "differential property-based testing: generated templates run through the tool and through a reference implementation of the documented substitution, compared byte for byte"
LEVEL_NOTE = "The reference takes types and argument texts from the tool's own per-symbol report, which C01/C06 compare with the declaration model."
RULE = ("A case is a declaration list (functions only, objects only or both), a parameter mode, and a generated template: lines of text fragments "
        "and placeholders of one kind in any combination and position, '@' joins over several lines (also at the end of the file), %PARAM_SKIP_*% "
        "regions (nested, unclosed, inside-out), empty lines, unknown %%words%%, CRLF and LF endings, with or without a final line break, from a "
        "file or stdin, to stdout or a file; some templates mix placeholder kinds in one line and must be refused unless that line is skipped. "
        "The output must equal the reference. Non-trivial: the template has a placeholder line that is kept and at least two symbols.")
ASSUMPTIONS = ["no overlapping placeholder spellings such as %%args%%type%%", "output always ends with a line break", "no NUL bytes in skip lines"]
BUDGET = {"quick": (1500, 30), "thorough": (30000, 1200)}
FUNC = ["%%type%%", "%%func_symbol%%", "%%func_symbol_pad%%", "%%args%%", "%%param_names%%", "%%return%%"]
OBJ = ["%%obj_type%%", "%%obj_symbol%%", "%%obj_symbol_pad%%"]
SYM = ["%%sym_type%%", "%%symbol%%"]
TEXT = [" ", " ", "  ", "(", ")", ";", "foo", "*", ",", "\t", "@x", "@ ", "%", "100% ", "\u00e9", "return ", "# define X", "\"", "\\", "//", "a", "{", "}", "0",
        "%PARAM_SKIP_END%", "%%unknown%%", "%%", "@", "%s", "<", "$1", "$&", "\\1", "\f", "%%func_symbol ", "%% type%%", "long text " * 12, "w" * 700]
SKIP = ["%PARAM_SKIP_REMOVE_BEGIN%", "%PARAM_SKIP_USE_BEGIN%", "%PARAM_SKIP_END%"]
ODD = ["%PARAM_SKIP_END% ", " %PARAM_SKIP_END%", "%PARAM_SKIP_%", "%PARAM_SKIP_BEGIN%", "%PARAM_SKIP_REMOVE_BEGIN", "%PARAM_SKIP_remove_begin%", "%PARAM_SKIP_USE_BEGIN%x"]


def prepare(env):
    env.use_gendlopen()


@st.composite
def entry(draw):
    """one template entry: list of pieces; '\\n' stands for an '@' join"""
    kind = draw(st.integers(0, 12))
    if kind == 0:
        return [""]
    if kind in (1, 2):
        return [draw(st.sampled_from(SKIP))]
    if kind == 3:
        return [draw(st.sampled_from(ODD))]
    pool = {4: FUNC, 5: FUNC, 6: FUNC, 7: OBJ, 8: OBJ, 9: SYM, 10: SYM, 11: []}.get(kind)
    if pool is None:
        pool = FUNC + OBJ + SYM
    n = draw(st.integers(1, 7))
    out = []
    if draw(st.integers(0, 9)) == 0:
        # many joined lines, with text or blank
        out = draw(st.sampled_from([["\n"], ["q", "\n"], ["\n", " "], ["\n", "%"]])) * draw(st.sampled_from([3, 9, 25, 70]))
    elif draw(st.integers(0, 9)) == 0:
        n = 24
    for _ in range(n):
        k = draw(st.integers(0, 9))
        if k == 0:
            out.append("\n")
        elif k < 5 or not pool:
            out.append(draw(st.sampled_from(TEXT)))
        else:
            out.append(draw(st.sampled_from(pool)))
    return out


@st.composite
def strategy_(draw):
    kinds = draw(st.sampled_from([("func",), ("obj", "arr", "fptr"), ("func", "func", "obj", "arr", "fptr")]))
    ds = draw(D.decls(D.text_cfg(), 1, 6, kinds=kinds))
    return dict(ds=ds, tpl=draw(st.lists(entry(), min_size=1, max_size=10)), mode=draw(st.sampled_from(["read", "skip", "create", None])),
                crlf=draw(st.integers(0, 3)), final=draw(st.integers(0, 3)), stdin=draw(st.booleans()), out=draw(st.sampled_from(["", "-", "f", "force"])),
                extra=draw(st.lists(st.sampled_from(["-format=c++", "-separate", "-templates-path=/nonexistent", "-no-date", "-library=foo", "-DX=1", "-include=a.h",
                                                     "-no-pragma-once", "-format=minimal", "-prefix=gdo", "-prefix=GDO"]), max_size=2)))


def strategy(env):
    return strategy_()


def clean(pieces):
    """join the pieces so that no '%%' appears except those of the pieces, and no '@' stands at the end of a line"""
    s = ""
    for p in pieces:
        if p == "\n":
            if s.endswith("@") or s.endswith("@\r"):
                s += "."
            s += "\n"
            continue
        if s.endswith("%") and p.startswith("%"):
            s += "|"
        if s.endswith("%%") and (p[:1].isalnum() or p[:1] == "_"):
            s += "|"
        s += p
    if s.endswith("@"):
        s += "."
    return s


def reference(entries, fs, os_, skip):
    """entries: strings where '\\n' is a join; returns the text or None when it must be refused"""
    out = []
    skipping = False
    refused = None
    lf = max([len(f[1]) for f in fs] or [0])
    lo = max([len(o[1]) for o in os_] or [0])
    for e in entries:
        kw = e[:-1] if e.endswith("\r") else e
        if kw in SKIP:
            skipping = {SKIP[0]: skip, SKIP[1]: not skip, SKIP[2]: False}[kw]
            continue
        if skipping:
            continue
        kinds = [any(k in e for k in l) for l in (FUNC, OBJ, SYM)]
        if sum(kinds) > 1:
            return None
        if kinds[0]:
            for ty, n, args, names in fs:
                c = e
                if ty.lower() == "void":
                    c = c.replace("%%return%% ", "").replace("%%return%%", "")
                else:
                    c = c.replace("%%return%%", "return")
                if ty.endswith("*"):
                    c = c.replace("%%type%% ", ty)
                c = c.replace("%%type%%", ty).replace("%%func_symbol_pad%%", n.ljust(lf)).replace("%%func_symbol%%", n)
                c = c.replace("%%args%%", args).replace("%%param_names%%", names)
                out.append(c)
        elif kinds[1]:
            for ty, n in os_:
                c = e
                if ty.endswith("*"):
                    c = c.replace("%%obj_type%% ", ty)
                out.append(c.replace("%%obj_type%%", ty).replace("%%obj_symbol_pad%%", n.ljust(lo)).replace("%%obj_symbol%%", n))
        elif kinds[2]:
            for ty, n, args, names in fs:
                out.append(e.replace("%%sym_type%%", ty + ("" if ty.endswith("*") else " ") + "(*)(" + args + ")").replace("%%symbol%%", n))
            for ty, n in os_:
                out.append(e.replace("%%sym_type%%", ty + ("" if ty.endswith("*") else " ") + "*").replace("%%symbol%%", n))
        else:
            out.append(e)
    return "".join(x + "\n" for x in out)


def check(env, case):
    import os
    ds, mode = case["ds"], case["mode"] or "read"
    text = D.render(ds, named=mode != "create").encode("latin-1")
    margs = ["-param=" + mode] if case["mode"] else []
    inp = env.path("in.txt")
    with open(inp, "wb") as f:
        f.write(text)
    # texts per symbol, validated against the model
    got = D.observe(env, text, margs)
    if not isinstance(got, tuple) or D.diff_meaning(got, D.meaning(ds, mode, named=mode != "create")):
        raise Violation("input misread: %r\n%s" % (got, text))
    r = env.gdo([inp, "-template=" + env.path("obs.tpl")] + margs)
    fs, os_ = [], []
    for line in r.out.decode("latin-1").split("\n"):
        m = re.match(r"^([FO])<<(.*)>>$", line)
        if m and m.group(1) == "F":
            fs.append(tuple(m.group(2).split("|")[:4]))
        elif m:
            os_.append(tuple(m.group(2).split("|")))
    # one space directly behind a type ending with '*' is dropped; the observation lines have none
    entries = [clean(p) for p in case["tpl"]]
    ends = []
    raw, ents = "", []
    for i, e in enumerate(entries):
        cr = case["crlf"] == 1 or (case["crlf"] == 2 and i % 2)
        nl = "\r\n" if cr else "\n"
        raw += e.replace("\n", "@" + nl) + nl
        ents.append(e.replace("\n", nl) + ("\r" if cr else ""))
    last_join = False
    if case["final"] == 1 and entries[-1] != "":
        # no line break at the end
        raw = raw[:-1]
        if raw.endswith("\r"):
            raw = raw[:-1]
            ents[-1] = ents[-1][:-1]
    elif case["final"] == 2 and entries[-1] != "" and entries[-1] not in SKIP:
        # the file ends on '@'
        cr = raw.endswith("\r\n")
        raw = raw[:-2] if cr else raw[:-1]
        ents[-1] = ents[-1][:-1] if cr else ents[-1]
        if entries[-1].endswith("\n"):
            raw += "x"
            ents[-1] += "x"
        raw += "@"
    want = reference(ents, fs, os_, mode == "skip")
    tp = env.path("t.tpl")
    data = raw.encode("utf-8")
    with open(tp, "wb") as f:
        f.write(data)
    args = [inp] + margs + case["extra"]
    of = env.path("out.txt")
    if os.path.lexists(of):
        os.unlink(of)
    if case["out"] == "-":
        args.append("-out=-")
    elif case["out"]:
        args.append("-out=" + of)
        if case["out"] == "force":
            args.append("-force")
            with open(of, "w") as f:
                f.write("old" * 5000)
    if case["stdin"]:
        r = env.gdo(args + ["-template=-"], stdin=data)
    else:
        r = env.gdo(args + ["-template=" + tp])
    detail = "template:\n%r\ninput:\n%s\nargs %s" % (raw, text.decode("latin-1"), args)
    labels = {"mode=%s" % case["mode"], "crlf=%d" % case["crlf"], "final=%d" % case["final"], "out=" + case["out"]}
    if want is None:
        if r.rc != 1 or not r.err:
            raise Violation("mixed placeholders were not refused: %r\n%s" % (r, detail))
        return Result(sorted(labels | {"refused"}), True, sample=dict(template=raw[:300]))
    if r.rc != 0:
        raise Violation("refused: %r\n%s" % (r, detail))
    if case["out"] in ("f", "force"):
        if r.out:
            raise Violation("text on stdout with -out: %r\n%s" % (r, detail))
        with open(of, "rb") as f:
            out = f.read()
    else:
        out = r.out
    w = want.encode("utf-8")
    if out != w:
        la, lb = out.split(b"\n"), w.split(b"\n")
        dl = [(i + 1, a, b) for i, (a, b) in enumerate(zip(la, lb)) if a != b][:2]
        raise Violation("output differs from the documented substitution (line, got, want): %s, %d/%d lines\n%s" % (dl, len(la), len(lb), detail))
    for k in FUNC + OBJ + SYM:
        if k in raw:
            labels.add(k)
    if "@\n" in raw or "@\r\n" in raw:
        labels.add("joined lines")
    if any(k in raw for k in SKIP):
        labels.add("skip regions")
    return Result(sorted(labels), "%%" in raw and len(fs) + len(os_) > 1, sample=dict(template=raw[:300]))
