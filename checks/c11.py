"""C11: -prefix renames every generated name and nothing else."""
import json, os, random, re, shutil
from hypothesis import strategies as st
from core import Violation, Inconclusive, Result, InfraError, SRC, CLANG, CLANGXX, run
import decl as D

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "metamorphic property-based testing: output under -prefix=X against an identifier-level renaming of the default output; compile and link tests of generated header pairs"
LEVEL_NOTE = "The renaming is independent of the tool's: user texts are kept apart by running the reference on neutral stand-ins of the same length."
RULE = ("A case is a prefix (any characters, also digits in front, blanks, dollar signs, names close to gdo) and an input whose symbols, types, parameter "
        "names, -D, -include and -library texts often contain gdo/GDO themselves. The reference is the default output for the same input with those user "
        "texts replaced by neutral words of the same length; every identifier of it that begins with gdo_/GDO_ (one '_' may precede) or is 'gdo' is "
        "renamed, the user texts are put back, and the result must be the real output byte by byte, for every format, with and without -separate and "
        "-line. A part of the cases instead generates two to three headers with disjoint symbols and different prefixes (any formats) and compiles them in one "
        "translation unit (both orders) and links separate units into one program; errors and macro redefinitions are violations. "
        "Non-trivial: a prefix other than gdo.")
ASSUMPTIONS = ["for the compile cases the prefixes are valid identifier beginnings and symbol and parameter names of one header are not used by another"]
BUDGET = {"quick": (330, 32), "thorough": (9000, 1200)}

PFX_CHARS = "abzAZ019_-+. $&\\/'`@%(,~x"
USER_GDO = ["gdo", "GDO", "gdo_x", "GDO_X", "gdo_t", "_gdo_a", "_GDO_B", "x_gdo", "xgdo_y", "gdo_ptr_a", "GDO_LOAD_z", "gdo_dl", "gdoo", "GDO_gdo_gdo", "gdo2", "foo_GDO_bar"]


@st.composite
def text_case(draw):
    cfg = D.text_cfg()
    more = [[x] for x in USER_GDO]
    cfg = dict(cfg)
    for k in ("bases", "pbases", "obases", "pobases"):
        cfg[k] = cfg[k] + more
    names = D.unique(draw(st.lists(st.one_of(st.sampled_from(USER_GDO), D.ident(("", "gdo", "GDO_", "gdo_", "foo_"))), min_size=1, max_size=6)))
    ds = [draw(D.decl(cfg, n)) for n in names]
    k = draw(st.integers(0, 9))
    if k < 6:
        pfx = draw(st.text(PFX_CHARS, min_size=1, max_size=7))
    elif k == 6:
        pfx = draw(st.sampled_from(["gdo", "GDO", "Gdo", "gdo_", "gdogdo", "x-gdo", "gdo2", "gd", "-gdo", "gdo-gdo_gdo"]))
    elif k == 7:
        pfx = draw(st.integers(0, 99)).__str__() + draw(st.sampled_from(["", "zip", "_"]))
    else:
        pfx = draw(D.ident())
    u = st.one_of(st.sampled_from(USER_GDO), st.sampled_from(USER_GDO), st.text("abcXY_", min_size=1, max_size=5))
    opts = []
    for _ in range(draw(st.integers(0, 3))):
        o = draw(st.integers(0, 3))
        a, b = draw(u), draw(u)
        if o == 0:
            opts.append("-D" + a + draw(st.sampled_from(["", "=" + b, "=x " + b + "(" + a + ")", "=\"" + b + "\""])))
        elif o == 1:
            opts.append("-include=" + draw(st.sampled_from(["", "nq:", "<", '"'])) + a + ".h")
        elif o == 2 and not any(x.startswith("-library") for x in opts):
            opts.append("-library=" + draw(st.sampled_from(["", "nq:", "ext:", "api:7:", '"', "lib"])) + a)
        elif o == 3:
            opts.append(draw(st.sampled_from(["-line", "-no-pragma-once"])))
    return dict(kind="text", ds=ds, pfx=pfx, opts=opts, fmt=draw(st.sampled_from(["c", "c", "c++", "c++", "minimal", "minimal-c++", "plugin"])),
                sep=draw(st.booleans()), param=draw(st.sampled_from(["read", "read", "skip", "create"])), fopt=draw(st.integers(0, 6)) == 0)


CFG_MACROS = ["STATIC", "WRAP_FUNCTIONS", "ENABLE_AUTOLOAD", "ENABLE_AUTOLOAD_LAZY", "DISABLE_ALIASING", "DISABLE_WARNINGS"]


@st.composite
def compile_case(draw):
    cxx = draw(st.booleans())
    cfg = dict(D.c_cfg(cxx), many=False)
    if cxx:
        cfg["bases"] = [b for b in cfg["bases"] if b != ["wchar_t"]] + [["wchar_t"]]
    hs = []
    pf = D.unique(draw(st.lists(st.sampled_from(["aa", "Bb", "gdo", "gdo2", "x1", "GDO_X", "gd", "o", "aa_b", "_z"]), min_size=2, max_size=3)))
    seen = set()
    for i, p in enumerate(pf):
        while p.lower() in seen:
            p += "x"
        seen.add(p.lower())
        names = D.unique(draw(st.lists(st.text("abcxyz_019", min_size=1, max_size=6).map(lambda s: "s%d_%s" % (i, s)), min_size=1, max_size=4)))
        ds = [draw(D.decl(cfg, n)) for n in names]
        f = ["c", "minimal", "plugin"] + (["c++", "c++", "minimal-c++"] if cxx else ["c"])
        hs.append(dict(pfx=p, ds=ds, fmt=draw(st.sampled_from(f)), sep=draw(st.integers(0, 2)) == 0,
                       macros=draw(st.lists(st.sampled_from(CFG_MACROS), max_size=2, unique=True)), guard=draw(st.booleans()),
                       param="create" if draw(st.booleans()) else "read"))
    return dict(kind="cc", cxx=cxx, hs=hs, clang=draw(st.booleans()), std=draw(st.sampled_from(["11", "17", "20"] if cxx else ["99", "11", "17"])))


def strategy(env):
    k = st.integers(0, 14)
    return k.flatmap(lambda i: compile_case() if i == 0 else text_case())


TEMPL = [None]


def prepare(env):
    env.use_gendlopen()
    t = ""
    d = os.path.join(SRC, "templates")
    for f in os.listdir(d):
        with open(os.path.join(d, f), errors="replace") as fh:
            t += fh.read()
    TEMPL[0] = t


HAS = re.compile(r"gdo", re.I)
IDENT = re.compile(r"[A-Za-z0-9_]+")


def neutral_map(case):
    """identifiers of the user that contain gdo -> neutral words of the same length"""
    words = set()

    def walk(x):
        if isinstance(x, str):
            for w in IDENT.findall(x):
                if HAS.search(w):
                    words.add(w)
        elif isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    walk(case["ds"])
    for o in case["opts"]:
        if "=" in o or o.startswith("-D"):
            walk(o[2:] if o.startswith("-D") else o.split("=", 1)[1])
    every = TEMPL[0] + json.dumps(case)
    m = {}
    al = "QZXJWKVqzxjwkv"
    rnd = random.Random(len(every))
    used = set()
    for w in sorted(words, key=lambda s: (len(s), s)):
        for tries in range(100000):
            s = "".join(rnd.choice(al) for _ in w)
            if s not in every and not any(s in x or x in s for x in used):
                break
        else:
            raise Inconclusive("no neutral word for %r" % w)
        used.add(s)
        m[w] = s
    return m


def apply_map(x, m):
    if isinstance(x, str):
        return IDENT.sub(lambda g: m.get(g.group(0), g.group(0)), x)
    if isinstance(x, list):
        return [apply_map(y, m) for y in x]
    if isinstance(x, dict):
        return {k: (apply_map(v, m) if k in ("n", "t", "p", "d") else v) for k, v in x.items()}
    return x


def map_opt(o, m):
    if o.startswith("-D"):
        return "-D" + apply_map(o[2:], m)
    if "=" in o:
        a, b = o.split("=", 1)
        # a mode keyword is not the user's text
        return a + "=" + apply_map(b, m)
    return o


def xform(pfx):
    up = "".join(c.upper() if c.isalnum() and ord(c) < 128 else "_" for c in pfx)
    lo = "".join(c.lower() if c.isalnum() and ord(c) < 128 else "_" for c in pfx)
    return up, lo


RID = re.compile(r"(?<![A-Za-z0-9_])(_?)(GDO_|gdo_|gdo(?![A-Za-z0-9_]))")


def check_text(env, case):
    pfx = case["pfx"]
    up, lo = xform(pfx)
    m = neutral_map(case)
    mini = case["fmt"].startswith("minimal")
    cxx = case["fmt"] in ("c++", "minimal-c++")
    names = [d["n"] for d in case["ds"]]
    sep = case["sep"]
    outs = []
    for which in (0, 1):
        ds = case["ds"] if which else apply_map(case["ds"], m)
        opts = case["opts"] if which else [map_opt(o, m) for o in case["opts"]]
        d = env.path("o%d" % which)
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        text = D.render(ds)
        a = ["-no-date", "-format=" + case["fmt"], "-param=" + case["param"], "-out=" + ("hdr.hpp" if cxx else "hdr.h")] + opts
        if sep:
            a.append("-separate")
        if which:
            if case["fopt"] and IDENT.fullmatch(pfx):
                text = "%option prefix=" + pfx + "\n" + text
            else:
                a.append("-prefix=" + pfx)
        r = env.gdo(a + ["-"], stdin=text.encode(), cwd=d)
        if r.rc != 0:
            raise Violation("refused: %r %s\n%r" % (a, text, r))
        res = {}
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f), encoding="latin-1") as fh:
                res[f] = fh.read()
        outs.append((res, a, text))
    (ref, a0, t0), (got, a1, t1) = outs
    if sorted(ref) != sorted(got) or len(ref) != (2 if sep and not mini else 1):
        raise Violation("files differ: %s %s" % (sorted(ref), sorted(got)))
    common = os.path.commonprefix(names) if len(names) > 1 else ""
    inv = {v: k for k, v in m.items()}
    # standalone -> longer words first; the words do not contain one another
    back = re.compile("|".join(sorted(map(re.escape, inv), key=len, reverse=True))) if inv else None

    def ren(g):
        t = g.group(2)
        if t == "GDO_":
            return g.group(1) + up + "_"
        if t == "gdo_":
            return g.group(1) + lo + "_"
        if g.group(1):
            return g.group(0)
        return lo
    for f in ref:
        want = RID.sub(ren, ref[f])
        if back:
            want = back.sub(lambda g: inv[g.group(0)], want)
        want, n = re.subn(r'(?m)^#define %s_COMMON_PREFIX ".*"$' % re.escape(up), lambda g: '#define %s_COMMON_PREFIX "%s"' % (up, common), want)
        if want != got[f]:
            la, lb = want.split("\n"), got[f].split("\n")
            dl = [(i + 1, x, y) for i, (x, y) in enumerate(zip(la, lb)) if x != y][:4]
            raise Violation("%s: (line, expected, found) %s\n%d lines expected, %d found\nprefix %r args %s\n%s" % (f, dl, len(la), len(lb), pfx, a1, t1))
        if not HAS.search(pfx + t1 + "".join(case["opts"])):
            w = re.search(r"(?i)gdo(?!c)\w*", got[f])
            if w:
                raise Violation("%r left in %s with prefix %r" % (w.group(0), f, pfx))
    labels = ["fmt=" + case["fmt"]]
    if sep and not mini:
        labels.append("separate")
    if m:
        labels.append("gdo-in-user-text")
    if not re.fullmatch(r"\w+", pfx):
        labels.append("odd-characters")
    if pfx[0].isdigit():
        labels.append("digit")
    return Result(labels, up != "GDO", sample=dict(prefix=pfx, fmt=case["fmt"], opts=case["opts"], symbols=names))


def check_cc(env, case):
    d = env.path("cc")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    cxx = case["cxx"]
    with open(d + "/types.h", "w") as f:
        f.write(D.TYPES_H)
    ext = "cpp" if cxx else "c"
    comp = ([CLANGXX if case["clang"] else "g++", "-std=gnu++" + case["std"]] if cxx else [CLANG if case["clang"] else "gcc", "-std=gnu" + case["std"]])
    comp += ["-O0", "-Wno-deprecated", "-I."]
    units, incs, bodies = [], [], []
    for i, h in enumerate(case["hs"]):
        hx = h["fmt"] in ("c++", "minimal-c++")
        # a C body is built as C++ as well, as long as it is the file of this format
        sep = h["sep"] and h["fmt"] in ("c", "c++", "plugin")
        name = "h%d.%s" % (i, "hpp" if hx else "h")
        mac = h["macros"] if h["fmt"] in ("c", "c++") else []
        if "STATIC" in mac and (sep or cxx and h["fmt"] == "c"):  # GDO_STATIC: "C only"
            mac = [x for x in mac if x != "STATIC"]
        a = ["-no-date", "-format=" + h["fmt"], "-prefix=" + h["pfx"], "-param=" + h["param"], "-out=" + name, "-include=types.h", "-library=libx.so"]
        if h["guard"]:
            a.append("-no-pragma-once")
        if sep:
            a.append("-separate")
        up = xform(h["pfx"])[0]
        a += ["-D%s_%s" % (up, x) for x in mac]
        text = D.render(h["ds"], named=h["param"] == "read", spell=False)
        r = env.gdo(a + ["-"], stdin=text.encode(), cwd=d)
        if r.rc != 0:
            raise Violation("refused: %r %s\n%r" % (a, text, r))
        incs.append(name)
        if sep:
            bodies.append("h%d.%s" % (i, "cpp" if hx else "c"))
        else:
            units.append(i)
    # one unit with all headers, in both orders, each twice
    files = []
    for k, order in enumerate((incs, incs[::-1])):
        with open(d + "/all%d.%s" % (k, ext), "w") as f:
            f.write("".join('#include "%s"\n' % x for x in order + order) + "int all%d;\n" % k)
    # one program: each single-file header in its own unit together with the separate ones
    for i in units:
        with open(d + "/u%d.%s" % (i, ext), "w") as f:
            f.write("".join('#include "%s"\n' % incs[j] for j in range(len(incs)) if j == i or j not in units) + "int u%d;\n" % i)
        files.append("u%d.%s" % (i, ext))
    with open(d + "/main." + ext, "w") as f:
        f.write("".join('#include "%s"\n' % incs[j] for j in range(len(incs)) if j not in units) + "int main(void) { return 0; }\n")
    shown = lambda: "\n".join("%s: %s" % (h["pfx"], D.render(h["ds"], spell=False)) for h in case["hs"])
    for k in (0, 1):
        r = run(comp + ["-fsyntax-only", "all%d.%s" % (k, ext)], cwd=d)
        bad = r.rc != 0 or re.search(rb"redefin", r.err)
        if bad:
            raise Violation("headers %s in one unit: %r\n%s\n%s" % (incs, comp, shown(), r))
    r = run(comp + ["-o", "prog"] + files + bodies + ["main." + ext, "-ldl"], cwd=d)
    if r.rc != 0:
        raise Violation("one program from %s: %r\n%s\n%s" % (files + bodies, comp, shown(), r))
    r = run(["./prog"], cwd=d, timeout=20)
    if r.rc != 0:
        raise Violation("program fails: %r" % r)
    return Result(["compile", "cc-" + "+".join(sorted(h["fmt"] for h in case["hs"]))], True,
                  sample=dict(headers=[(h["pfx"], h["fmt"], h["macros"]) for h in case["hs"]]))


def check(env, case):
    return check_text(env, case) if case["kind"] == "text" else check_cc(env, case)
