"""C17: -D, -include, -library and header guards land exactly as requested."""
import os, re, shutil
from hypothesis import strategies as st
from core import Violation, Result, Inconclusive, run, CLANG
import decl as D

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: a model of the documented option semantics against what the compilers' preprocessors see in the generated code (probe headers, probe lines, simulated platforms)"
LEVEL_NOTE = "Platforms are simulated through their predefined macros with empty system headers; gcc and clang preprocess."
RULE = ("A case is a format, prefix, list of -D (any order, repetitions, values with any spacing, no value, names already defined by the includer or by an earlier -D), list of -include (plain, quoted, "
        "angled, nq: with macro or literal, repeated), up to two -library in every mode and letter case, guard kind, -separate, -line, output name, a set of macros the includer defines before, and a platform (ELF, Android, "
        "macOS, AIX 32/64, MSVC, MinGW, narrow or wide). Probe headers report in which order they are reached and the value of every name there; probe lines behind the header (included twice) "
        "and behind the body report values, default library names and naming macros. All must equal the model; the text with a classic guard must equal that with #pragma once but for the guard. "
        "Non-trivial: at least one -D, -include or -library.")
ASSUMPTIONS = ["-D names are identifiers and values hold no comments, line breaks or trailing backslash", "library names are given as C string text", "library names of the api mode are single tokens of letters, digits, '_' or '-'"]
BUDGET = {"quick": (1500, 28), "thorough": (30000, 1200)}

NAMES = ["XA", "XB", "_x1", "GDO_FOO", "gdo_bar", "unix_like", "NULLX", "Y" * 40, "Z" * 600, "__X"]
TOK = ["1", "a", "\"s t\"", "+", "(x)", "=", "==", "0x1F", "'c'", "XA", "[1]", "{", "}", ",", "-", "L\"w\"", "<a>", "%", "?", ":", "\"\\\\n\"", "#", "7" * 1500, "\"" + "long " * 500 + "\""]
INCS = ["a.h", "\"a.h\"", "<a.h>", "sub/b.h", "<sub/b.h>", "\"sub/b.h\"", "nq:\"a.h\"", "nq:<a.h>", "nq:INC_A", "NQ:INC_B", "c d.h", "nq.h", "Nq:\"sub/b.h\"", "a.h", "<sys/only.h>", "<\"q\">"]
LIBS = ["foo", "libfoo.so.1", "\"foo\"", "nq:\"a\" \".so\"", "nq:MYLIB", "NQ:\"z\"", "ext:foo", "ext:\"foo\"", "EXT:a.b", "Ext:lib x", "api:1:foo", "api:1.2:foo-x", "API:0:F_9", "api:2:linux", "api:10:unix",
        "Api:1:iconv", "nq", "ext", "api", "apifoo", "next", "extra.so", "nq:", "ext:", "api:foo", "a:1:b", "/abs/lib x.so", "@rpath/x.dylib", "lib(x).a(y.o)", "n", "e", "a", "\"", "ext:x", "%s", "api:2:a", "api::x"]
PLATFORMS = {
    "elf": [], "android": ["-D__ANDROID__"], "macos": ["-D__APPLE__"], "aix32": ["-D_AIX", "-U__LP64__"], "aix64gcc": ["-D_AIX", "-D__LP64__"], "aix64xl": ["-D_AIX", "-U__LP64__", "-D__64BIT__"],
    "msvc": ["-D_WIN32"], "msvcw": ["-D_WIN32", "-D_UNICODE", "-DUNICODE"], "mingw": ["-D_WIN32", "-D__MINGW32__"], "mingww": ["-D_WIN32", "-D__MINGW32__", "-D_UNICODE", "-DUNICODE"]}


def prepare(env):
    env.use_gendlopen()


@st.composite
def value(draw):
    if draw(st.integers(0, 4)) == 0:
        return None
    t = draw(st.lists(st.sampled_from(TOK), max_size=4))
    sp = draw(st.sampled_from(["", " ", "  ", "\t"]))
    return [t, sp]


@st.composite
def strategy_(draw):
    return dict(fmt=draw(st.sampled_from(["c", "c", "c++", "c++", "plugin", "minimal", "minimal-c++"])), pfx=draw(st.sampled_from(["gdo"] * 7 + ["Foo", "x_1"])),
                defs=draw(st.lists(st.tuples(st.sampled_from(NAMES), value(), st.sampled_from(["", "", " ", "  "])), max_size=5)),
                incs=draw(st.lists(st.sampled_from(INCS), max_size=5)), libs=draw(st.one_of(st.just([]), st.lists(st.sampled_from(LIBS), min_size=1, max_size=2))), guard=draw(st.booleans()), sep=draw(st.booleans()),
                line=draw(st.integers(0, 3)) == 0, out=draw(st.sampled_from(["gen.h", "gen.h", "a-b c.h", "9x.hh", "noext", "\u00e9.h", "sub/d.h", "a.b.h", "L" * 45 + ".h", "a-very-long-name_of-a-header-" * 4 + ".h", "n" * 130 + ".hpp"])),
                pre=draw(st.lists(st.sampled_from(NAMES), max_size=2, unique=True)), over=draw(st.sampled_from([None, None, None, "A", "W", "", "D"])),
                plat=draw(st.sampled_from(sorted(PLATFORMS))), clang=draw(st.booleans()), order=draw(st.integers(0, 5)), kind=draw(st.sampled_from(["f", "o", "b"])))


def strategy(env):
    return strategy_()


def explicit(env):
    """every way to name a library, on two platforms and in one of the formats each"""
    plats = sorted(PLATFORMS)
    base = dict(pfx="gdo", defs=[], incs=[], guard=False, line=False, out="gen.h", pre=[], over=None, order=0, kind="f")
    for i, lib in enumerate(LIBS):
        for k in (0, 1):
            yield dict(base, fmt=["c", "c++", "plugin"][(i + k) % 3], libs=[lib], sep=bool((i + k) % 2), plat=plats[(i * 3 + k * 5) % len(plats)], clang=bool(k))


def def_args(n, v, pad):
    if v is None:
        return pad + n + pad
    return pad + n + pad + "=" + v[1] + (v[1] or " ").join(v[0]) + v[1]


def literal(text):
    """the value of adjacent string literals: (wide, value) or None"""
    toks = re.findall(r'L?"(?:[^"\\]|\\.)*"|\S+', text)
    wide, val = False, ""
    for t in toks:
        m = re.match(r'^(L?)"((?:[^"\\]|\\.)*)"$', t)
        if not m:
            return None
        wide = wide or bool(m.group(1))
        val += m.group(2)
    return (wide, val) if toks else None


def lib_model(lib, plat):
    """-> (mode, text): ('lit', value) or ('raw', text)"""
    ext = ".dll" if plat.startswith(("msvc", "mingw")) else ".dylib" if plat == "macos" else ".a" if plat.startswith("aix") else ".so"
    low = lib.lower()

    def unquote(s):
        return s[1:-1] if len(s) >= 2 and s[0] == '"' and s[-1] == '"' else s
    if low.startswith("nq:") and len(lib) > 3:
        return "raw", lib[3:]
    if low.startswith("ext:") and len(lib) > 4:
        return "lit", unquote(lib[4:]) + ext
    if low.startswith("api:") and ":" in lib[4:]:
        api, name = lib[4:].split(":", 1)
        if plat.startswith("msvc"):
            return "lit", "%s-%s.dll" % (name, api)
        if plat.startswith("mingw"):
            return "lit", "lib%s-%s.dll" % (name, api)
        if plat == "macos":
            return "lit", "lib%s.%s.dylib" % (name, api)
        if plat.startswith("aix"):
            return "lit", "lib%s.a(%s)" % (name, "shr.o" if plat == "aix32" else "shr_64.o")
        if plat == "android":
            return "lit", "lib%s.so" % name
        return "lit", "lib%s.so.%s" % (name, api)
    return "lit", unquote(lib)


def cpp(env, d, src, cxx, case, stubs):
    argv = [CLANG if case["clang"] else "gcc", "-E", "-P", "-x", "c++" if cxx else "c", "-std=gnu++17" if cxx else "-std=gnu11", "-w", "-nostdinc", "-nostdinc++"] + PLATFORMS[case["plat"]]
    argv += ["-Iang", "-Istub", src]
    r = run(argv, cwd=d)
    if r.rc != 0:
        raise Violation("the output cannot be preprocessed (%s): %r\n%r" % (case["plat"], r.err[:1500], case))
    return r.out.decode("utf-8", "replace")


def norm(s):
    return re.sub(r"\s+", "", s)


def check(env, case):
    fmt, pfx, plat = case["fmt"], case["pfx"], case["plat"]
    up = pfx.upper()
    cxx = fmt in ("c++", "minimal-c++")
    main_fmt = not fmt.startswith("minimal")
    d = env.path("r")
    shutil.rmtree(d, ignore_errors=True)
    for s in ("sub", "ang/sub", "ang/sys", "stub", "o/sub"):
        os.makedirs(d + "/" + s)
    names = sorted({n for n, _, _ in case["defs"]} | set(case["pre"]))
    probe = ""
    for i, n in enumerate(names):
        probe += "#ifdef %s\n@P %d 1 PSTR(%s)\n#else\n@P %d 0\n#endif\n" % (n, i, n, i)
    out = case["out"]
    sep = case["sep"] and main_fmt
    hdr = out
    if sep:
        hdr = re.sub(r"(?<=[^/])\.[^./]*$", "", out) + (".hpp" if cxx else ".h")
        body = re.sub(r"(?<=[^/])\.[^./]*$", "", out) + (".cpp" if cxx else ".c")
    odir = "o/" + os.path.dirname(out) if os.path.dirname(out) else "o"
    # quoted includes are found next to the header, angled ones only in the include path
    for base, what in (("%s/%s" % (d, odir), "q"), (d + "/ang", "a")):
        os.makedirs(base + "/sub", exist_ok=True)
        for f in ("a.h", "sub/b.h", "c d.h", "nq.h", "sys/only.h", "\"q\"", "api"):
            if what == "q" and f in ("sys/only.h", "\"q\""):
                continue
            os.makedirs(os.path.dirname(base + "/" + f), exist_ok=True)
            with open(base + "/" + f, "w") as h:
                h.write("@I %s %s\n%s" % (what, f.replace(" ", "_"), probe))
    text = {"f": "int zqf(int a); void zqg(const char *f, ...);", "o": "extern int zqo;", "b": "int zqf(int a); extern char *zqo; void zqh(void);"}[case["kind"]]
    opts = []
    for n, v, pad in case["defs"]:
        opts.append(("D", ["-D" + def_args(n, v, pad)] if pad == "" else ["-D", def_args(n, v, pad)]))
    incs = list(case["incs"])
    for x in incs:
        opts.append(("I", ["-include=" + x]))
    for x in case["libs"]:
        opts.append(("L", ["-library=" + x]))
    # the relative order of different options does not matter
    if case["order"]:
        opts.sort(key=lambda o: "DILDILI"[(case["order"] + "DIL".index(o[0])) % 7])
    args = ["-no-date", "-format=" + fmt] + [a for _, o in opts for a in o]
    if pfx != "gdo":
        args.append("-prefix=" + pfx)
    if case["line"]:
        args.append("-line")
    if case["sep"]:
        args.append("-separate")
    with open(d + "/in.txt", "w") as f:
        f.write(text)

    def gen(extra):
        r = env.gdo(["../in.txt", "-out=" + out, "-force"] + args + extra, cwd=d + "/o")
        if r.rc != 0:
            raise Violation("refused: %r\n%r" % (args, r))
        try:
            return open(d + "/o/" + hdr, "rb").read(), open(d + "/o/" + body, "rb").read() if sep else b""
        except OSError as x:
            raise Violation("not written: %s %r" % (x, args))
    other, other_b = gen([] if case["guard"] else ["-no-pragma-once"])
    mine, mine_b = gen(["-no-pragma-once"] if case["guard"] else [])
    detail = "\n%s\ncase %s" % (args, case)
    # ---- the guard is the only difference
    g, o = (mine, other) if case["guard"] else (other, mine)
    if mine_b != other_b:
        raise Violation("-no-pragma-once changes the body%s" % detail)
    unl = (lambda b: [l for l in b.split(b"\n") if not l.startswith(b"#line ")]) if case["line"] else (lambda b: b.split(b"\n"))
    gl, ol = unl(g), unl(o)
    try:
        k = ol.index(b"#pragma once")
    except ValueError:
        raise Violation("no #pragma once%s" % detail)
    m = re.match(rb"^#ifndef (\w+)$", gl[k]) if k < len(gl) else None
    if not m or gl[k + 1] != b"#define " + m.group(1):
        raise Violation("no include guard where #pragma once was: %r%s" % (gl[k:k + 2], detail))
    if b"#pragma once" in gl:
        raise Violation("#pragma once with -no-pragma-once%s" % detail)
    rest = gl[:k] + [b"#pragma once"] + gl[k + 2:]
    while rest and rest[-1] == b"":
        rest.pop()
    if not rest or not re.match(rb"^#\s*endif", rest[-1]):
        raise Violation("the include guard is not closed at the end%s" % detail)
    rest.pop()
    ol2 = list(ol)
    while rest and rest[-1] == b"":
        rest.pop()
    while ol2 and ol2[-1] == b"":
        ol2.pop()
    if rest != ol2:
        i = next((i for i, (a, b) in enumerate(zip(rest, ol2)) if a != b), min(len(rest), len(ol2)))
        raise Violation("-no-pragma-once changes more than the guard: %r / %r%s" % (rest[i:i + 2], ol2[i:i + 2], detail))
    # ---- two headers whose names differ do not shut each other out
    if case["guard"] and mine:
        stem, ext = re.match(r"(.*?)((?:\.[^./]*)?)$", out).groups()
        sib = stem + case.get("sib", "2") + ext
        r = env.gdo(["../in.txt", "-out=" + sib, "-force", "-no-pragma-once"] + args, cwd=d + "/o")
        if r.rc != 0:
            raise Violation("refused: %r\n%r" % (args, r))
        sh = re.sub(r"(?<=[^/])\.[^./]*$", "", sib) + (".hpp" if cxx else ".h") if sep else sib
        sg = re.search(rb"^#ifndef (\w+)\n#define \1$", open(d + "/o/" + sh, "rb").read(), re.M)
        if sg and sg.group(1) == m.group(1):
            raise Violation("%r and %r have the same include guard %r%s" % (hdr, sh, m.group(1), detail))
    # ---- empty system headers
    for inc in set(re.findall(rb"^\s*#\s*include\s*<([^>]+)>", mine + mine_b, re.M)):
        p = inc.decode("utf-8", "replace")
        if not os.path.exists(d + "/ang/" + p):
            os.makedirs(os.path.dirname(d + "/stub/" + p) or d, exist_ok=True)
            open(d + "/stub/" + p, "w").close()
    # ---- the program that includes it
    first = "#define PSTR_(...) #__VA_ARGS__\n#define PSTR(...) PSTR_(__VA_ARGS__)\n#define INC_A \"a.h\"\n#define INC_B <a.h>\n#define MYLIB \"my\" \"lib\"\n#define iconv libiconv\n"
    for n in case["pre"]:
        first += "#define %s pre_%s\n" % (n, n.strip("_"))
    over = case["over"] if case["libs"] and main_fmt else None
    if over is not None and over != "D":
        first += "#define %s_DEFAULT_LIB%s %s\"over\"\n" % (up, over, "L" if over == "W" else "")
    post = "@AFTER\n" + probe
    wide = plat in ("msvcw", "mingww")
    mac = ["%s_DEFAULT_LIBA" % up, "%s_DEFAULT_LIBW" % up, "%s_DEFAULT_LIB" % up, "%s_LIBEXT" % up, "%s_LIBEXTA" % up, "%s_LIBEXTW" % up, "%s_LIBNAME(zz,7)" % up, "%s_LIBNAMEA(zz,7)" % up, "%s_LIBNAMEW(zz,7)" % up]
    for i, x in enumerate(mac):
        post += "#ifdef %s\n@M %d %s\n#endif\n" % (x.split("(")[0], i, x)
    with open(d + "/main.c", "w") as f:
        f.write(first + '#include "o/%s"\n@TWICE\n#include "o/%s"\n@ENDTWICE\n' % (hdr, hdr) + post)
    sources = ["main.c"]
    if sep:
        with open(d + "/body.c", "w") as f:
            f.write(first + '#include "o/%s"\n' % body + post)
        sources.append("body.c")
    # ---- the model
    cur = {n: "pre_" + n.strip("_") for n in case["pre"]}
    seen_inc = []
    for n, v, _ in case["defs"]:
        if n not in cur:
            cur[n] = "" if v is None else " ".join(v[0])
    want_incs = []
    for x in incs:
        low = x.lower()
        if low.startswith("nq:") and len(x) > 3:
            y = x[3:]
            y = {"INC_A": '"a.h"', "INC_B": "<a.h>"}.get(y, y)
        elif len(x) >= 2 and x[0] + x[-1] in ('""', "<>"):
            y = x
        else:
            y = '"%s"' % x
        want_incs.append(("a" if y[0] == "<" or y == '"sys/only.h"' else "q", y[1:-1].replace(" ", "_")))

    def value_of(n):
        """full expansion, as the values may name each other"""
        def exp(s, busy):
            def f(m):
                w = m.group(0)
                if w[0] in "\"'L" and w[-1] in "\"'":
                    return w
                if w in cur and w not in busy:
                    return exp(cur[w], busy | {w})
                return w
            return re.sub(r'L?"(?:[^"\\]|\\.)*"|\'[^\']*\'|[A-Za-z_]\w*|0x\w+', f, s)
        return exp(n, frozenset())
    want_p = {}
    for i, n in enumerate(names):
        want_p[i] = value_of(n) if n in cur else None

    def probes(seg, where):
        got = {}
        for m in re.finditer(r'@P (\d+) ([01])(?: *("(?:[^"\\]|\\.)*"))?', seg):
            got[int(m.group(1))] = None if m.group(2) == "0" else re.sub(r"\\(.)", r"\1", m.group(3)[1:-1])
        for i, n in enumerate(names):
            if i not in got:
                raise Violation("%s: nothing about %s%s" % (where, n, detail))
            g, w = got[i], want_p[i]
            if (g is None) != (w is None) or g is not None and norm(g) != norm(w):
                raise Violation("%s: %s is %r instead of %r%s" % (where, n, g, w, detail))
    for src in sources:
        t = cpp(env, d, src, cxx, case, None)
        head, _, after = t.partition("@AFTER")
        if src == "main.c":
            a, _, b = head.partition("@TWICE")
            if b.partition("@ENDTWICE")[0].strip():
                raise Violation("the second #include is not empty: %r%s" % (b[:300], detail))
            head = a
        segs = re.split(r"@I ", head)
        got_incs = [tuple(s.split("\n")[0].strip().split(" ", 1)) for s in segs[1:]]
        if got_incs != want_incs:
            raise Violation("%s: headers included: %r instead of %r%s" % (src, got_incs, want_incs, detail))
        for s, w in zip(segs[1:], want_incs):
            probes(s, "%s, in %s" % (src, w))
        probes(after, src)
        got_m = {int(m.group(1)): m.group(2).strip() for m in re.finditer(r"@M (\d+) *(.*)", after)}

        def expect(i, wide_, val, raw=False):
            if i not in got_m:
                raise Violation("%s: %s is not defined (%s)%s" % (src, mac[i], plat, detail))
            if raw:
                if norm(got_m[i]) != norm(val):
                    raise Violation("%s: %s is %s instead of %s (%s)%s" % (src, mac[i], got_m[i], val, plat, detail))
            elif literal(got_m[i]) != (wide_, val):
                raise Violation("%s: %s is %s instead of %s\"%s\" (%s)%s" % (src, mac[i], got_m[i], "L" if wide_ else "", val, plat, detail))
        ext = lib_model("ext:x", plat)[1][1:]
        zz = lib_model("api:7:zz", plat)[1]
        for i, (w, v) in enumerate([(wide, ext), (False, ext), (True, ext), (wide, zz), (False, zz), (True, zz)]):
            expect(3 + i, w, v)
        if not main_fmt:
            continue
        if not case["libs"]:
            for i in range(3):
                if i in got_m:
                    raise Violation("%s: %s is defined without -library%s" % (src, mac[i], detail))
            continue
        mode, val = lib_model(case["libs"][-1], plat)
        if val == '"' and mode == "lit":
            continue  # a lone quote is no library name
        if mode == "raw":
            val = val.replace("MYLIB", '"my" "lib"')
        for i, w in ((0, False), (1, True)):
            if over == "AW"[i]:
                expect(i, w, "over")
            else:
                expect(i, w, val, mode == "raw")
        if over == "" or over == ("W" if wide else "A"):
            expect(2, wide and over != "", "over")
        elif over in ("D",):
            expect(2, wide, val, mode == "raw")
        else:
            expect(2, wide, val, mode == "raw")
    labels = ["fmt=" + fmt, "plat=" + plat, "guard=%d" % case["guard"], "sep=%d" % sep, "defs=%d" % len(case["defs"]), "incs=%d" % len(incs), "over=%s" % over, "clang=%d" % case["clang"]]
    if case["libs"]:
        labels.append("lib=" + case["libs"][-1])
    return Result(labels, bool(case["defs"] or incs or case["libs"]), sample=dict(args=args, platform=plat, pre=case["pre"], over=over))
