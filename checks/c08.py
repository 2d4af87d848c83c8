"""C08: %option lines and command-line options mean the same."""
import re
from hypothesis import strategies as st
from core import Violation, Result
import decl as D

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "metamorphic property-based testing: generated option sets written as canonical arguments, as respelled arguments and as %option lines must give byte-identical results"
LEVEL_NOTE = "The reference is the tool itself with canonical arguments; that those arguments do the right thing is decided by the other checks."
RULE = ("A case is a declaration list and a list of options with generated values (letter case of format and mode names varied, repeated options, "
        "values with quotes, backslashes and bytes above 127). The result with canonical arguments (-name=value) is compared with: respelled and "
        "reordered arguments; the same options moved completely or partly to %option lines at arbitrary line starts (between tokens, inside "
        "blocks), several per line or split with backslashes; decoy %option lines in comments and preprocessor lines; and -ignore-options, which "
        "must equal the run without those options. In part of the cases one option is damaged (unknown name, missing or empty argument) and "
        "both forms must be refused with status 1. Non-trivial: at least two options, one of them in a %option line.")
ASSUMPTIONS = ["an option is given either on the command line or in the file, not in both (which one wins is not documented)",
               "order is kept among occurrences of the same option"]
BUDGET = {"quick": (700, 30), "thorough": (20000, 1200)}
FORMATS = ["c", "C", "c++", "C++", "cxx", "CPP", "cpp", "minimal", "Minimal-C", "minimal-c++", "minimal-CXX", "plugin", "PLUGIN-C"]


def prepare(env):
    env.use_gendlopen()


VCH = "abcXYZ019_-+./:=<>\"'()%#@!,;{}*&|~^?$"
FILE_OPTS = ("line", "no-date", "no-pragma-once", "D", "format", "include", "library", "param", "prefix")
BAD_FILE = ["Line", "no-dat", "format", "format=", "D", "D=", "include=", "library", "library=", "param=", "prefix=", "prefix", "force", "out=x", "separate",
            "\\ no-date", "-line", "--line", "no-date=1", "line=", "P=foo", "S=foo", "template=x", "xformat=c", "FORMAT=c", "=", "help",
            "format=d", "format=c+", "param=rea", "param=readx", "ignore-options", "format=cxx-", "no-pragma-once,", "print-symbols", "foo"]
BAD_CMD = [["-Line"], ["-no-dat"], ["-format="], ["-no-date=1"], ["--D", "X"], ["--P", "f"], ["--S", "f"], ["--DX"], ["-format=d"], ["-param=rea"],
           ["--line="], ["-library="], ["-prefix="], ["-include="], ["-formatc"], ["-linex"], ["-x"], ["---line"], ["-FORMAT=c"], ["-out="],
           ["-template="], ["-D", ""], ["-prefix", ""], ["-param:read"], ["-format=cxx-"]]


@st.composite
def value(draw):
    s = draw(st.text(VCH, min_size=1, max_size=10))
    k = draw(st.integers(0, 7))
    if k == 0:
        s += draw(st.sampled_from(["\\\"", "\\n", "\\\\x", "a\\.b"])) + draw(st.text(VCH, max_size=3))
    elif k == 1:
        s = draw(st.sampled_from(["\u00e4", "\u20ac", "\u00ff"])) + s
    return s


@st.composite
def atom(draw):
    n = draw(st.sampled_from(FILE_OPTS + ("D", "include", "D", "library", "format", "prefix")))
    if n in ("line", "no-date", "no-pragma-once"):
        return [n, None]
    if n == "D":
        v = draw(D.ident(("", "FOO_"), 6)) + draw(st.sampled_from(["", "", "="]))
        return [n, v + (draw(value()) if v.endswith("=") else "")]
    if n == "format":
        return [n, draw(st.sampled_from(FORMATS))]
    if n == "param":
        m = draw(st.sampled_from(["read", "skip", "create"]))
        return [n, draw(st.sampled_from([m, m.upper(), m.capitalize()]))]
    if n == "include":
        return [n, draw(st.sampled_from(["", "nq:", "<", "\"", "NQ:", "nq"])) + draw(value())]
    if n == "library":
        return [n, draw(st.sampled_from(["", "nq:", "ext:", "api:2:", "API:0:", "api:", "EXT:", "lib"])) + draw(value())]
    return [n, draw(st.sampled_from(["", "my", "MyPrefix", "a_b", "X", "foo.bar", "1x"])) + draw(st.one_of(st.just("z"), st.text(D.ALNUM + "-. ".strip(), min_size=1, max_size=5)))]


@st.composite
def strategy_(draw):
    cfg = D.text_cfg()
    ds = draw(D.decls(cfg, 1, 4))
    opts = draw(st.lists(atom(), min_size=1, max_size=6))
    cmd = []
    if draw(st.integers(0, 3)) == 0:
        names = [d["n"] for d in ds]
        for _ in range(draw(st.integers(1, 2))):
            n = draw(st.sampled_from(names))
            cmd.append(draw(st.sampled_from([["P", n[:2]], ["S", n]])))
    if draw(st.integers(0, 3)) == 0:
        cmd.append(draw(st.sampled_from([["out", "-"], ["ast-all-symbols", None], ["print-symbols", None], ["separate", None], ["force", None]])))
    n = len(opts) + len(cmd)
    return dict(ds=ds, opts=opts, cmd=cmd, spell=draw(st.lists(st.integers(0, 5), min_size=n, max_size=n)),
                order=draw(st.lists(st.integers(0, 99), min_size=n, max_size=n)),
                infile=draw(st.lists(st.integers(0, 3), min_size=len(FILE_OPTS), max_size=len(FILE_OPTS))),
                pos=draw(st.lists(st.integers(0, 200), min_size=1, max_size=4)), lay=draw(st.lists(st.integers(0, 9), min_size=4, max_size=12)),
                decoy=draw(st.integers(0, 6)), bad=draw(st.integers(0, 3)) == 0, badi=draw(st.integers(0, 999)), block=draw(st.booleans()),
                bom=draw(st.integers(0, 5)) == 0, crlf=draw(st.integers(0, 3)) == 0)


def strategy(env):
    return strategy_()


def explicit(env):
    ds = [dict(k="func", n="foo_f", ext=False, par=0, t=["int"], p=[dict(k="obj", t=["int"], n="a")], pp=0, whole=0)]
    base = dict(ds=ds, opts=[["no-date", None]], cmd=[], spell=[0], order=[0], infile=[1] * len(FILE_OPTS), pos=[0], lay=[0, 0, 0, 0], decoy=0,
                bad=True, badi=0, block=False, bom=False, crlf=False)
    for i in range(max(len(BAD_FILE), len(BAD_CMD))):
        yield dict(base, badi=i)
    for f in FORMATS:
        yield dict(base, opts=[["format", f], ["no-date", None]], spell=[1, 1], order=[1, 0], bad=False)
    for n in FILE_OPTS:
        for v in ([None] if n in ("line", "no-date", "no-pragma-once") else ["c"] if n == "format" else ["skip"] if n == "param" else ["xx"]):
            for sp in range(4):
                yield dict(base, opts=[[n, v]], spell=[sp], order=[0], bad=False)


def spell(name, val, k):
    if val is None:
        return [("-", "--")[k % 2] + name]
    if len(name) == 1:
        return ["-" + name + val] if k % 2 == 0 or val.startswith("=") else ["-" + name, val]
    d = ("-", "--")[k % 2]
    return [d + name + "=" + val] if k % 4 < 2 else [d + name, val]


def canonical(atoms):
    out = []
    for n, v in atoms:
        out += spell(n, v, 0)
    return out


def respelled(atoms, order, spells):
    """shuffled, but in order among equal names"""
    idx = sorted(range(len(atoms)), key=lambda i: order[i % len(order)])
    slots = {}
    for i in range(len(atoms)):
        slots.setdefault(atoms[i][0], []).append(i)
    out = []
    for i in idx:
        j = slots[atoms[i][0]].pop(0)
        out += spell(atoms[j][0], atoms[j][1], spells[j % len(spells)])
    return out


def option_lines(tokens, lay):
    """%option lines holding the tokens in order"""
    out, i = [], 0
    line = "%option"
    for t in tokens:
        k = lay[i % len(lay)]
        i += 1
        if k < 3 and line != "%option":
            out.append(line + (" \t" if k == 0 else ""))
            line = "%option"
        sep = [" ", "\t", " \\\n ", "  ", "\\\n", "\\ \t\n\t", " ", " \f ", " ", " "][k]
        if line == "%option" and sep.startswith("\\"):
            sep = " " + sep
        line += sep + t
    out.append(line)
    return out


DECOYS = ["", "/*\n%option no-date format=plugin\n*/\n", "// x \\\n%option D=DECOY\n", "#define X \\\n%option prefix=decoy\n", "  // %option line\n", "/* a */ /*\n%option foo */\n", ""]


def compose(ds, lines_at, decoy, block, nl, bom):
    """text with the lines put at line starts between tokens"""
    toks = []
    for d in ds:
        toks += D.decl_tokens(d) + [";"]
    if block:
        toks = ["struct", "qq", "{", "int", "a", ";", "}", ";"] + toks
    out = []
    for i in range(len(toks) + 1):
        for t in lines_at.get(i, []):
            if out and not out[-1].endswith("\n"):
                out.append("\n")
            out.append(t + "\n")
        if decoy and i == len(toks) // 2:
            if out and not out[-1].endswith("\n"):
                out.append("\n")
            out.append(decoy)
        if i < len(toks):
            out.append(toks[i] + " ")
    s = "".join(out)
    return (b"\xef\xbb\xbf" if bom else b"") + s.replace("\n", nl).encode("utf-8")


def strip_date(b):
    return re.sub(rb"(generated by gendlopen) on [^\n]*", rb"\1.", b)


def check(env, case):
    ds, opts, cmd = case["ds"], case["opts"], case["cmd"]
    labels = set()
    nl = "\r\n" if case["crlf"] else "\n"
    plain = compose(ds, {}, "", case["block"], nl, case["bom"])

    def same(a, b, what, detail):
        if a.rc != b.rc or strip_date(a.out) != strip_date(b.out):
            la, lb = a.out.decode("latin-1").split("\n"), b.out.decode("latin-1").split("\n")
            dl = [(x, y) for x, y in zip(la, lb) if x != y][:3]
            raise Violation("%s: status %s/%s, first differences %s, lengths %d/%d\n%s\nstderr %s | %s" % (
                what, a.rc, b.rc, dl, len(la), len(lb), detail, a.err[-300:], b.err[-300:]))
    args0 = canonical(opts + cmd)
    ref = env.gdo(["-"] + args0, stdin=plain)
    if ref.rc not in (0, 1):
        raise Violation("status %s" % ref)
    if ref.rc and (ref.out or not ref.err):
        raise Violation("failure with output or without message: %r" % ref)
    labels.add("status=%d" % ref.rc)
    # 1. other spellings and order
    v = respelled(opts + cmd, case["order"], case["spell"])
    k = case["order"][0] % (len(v) + 1) if all(not x.startswith("-") or len(x) > 1 for x in v) else 0
    # the input file name may stand anywhere between options
    pos = [0]
    i = 0
    while i < len(v):
        nm = v[i].lstrip("-")
        takes = (nm in ("D", "P", "S") or nm in ("format", "include", "library", "param", "prefix", "out", "template")) and "=" not in v[i]
        i += 2 if takes else 1
        pos.append(i)
    p = pos[k % len(pos)]
    same(ref, env.gdo(v[:p] + ["-"] + v[p:], stdin=plain), "respelled arguments", "%s\nvs %s" % (args0, v[:p] + ["-"] + v[p:]))
    # 2. options in the file
    infile = {n: case["infile"][i] > 0 for i, n in enumerate(FILE_OPTS)}
    f_opts = [o for o in opts if infile[o[0]]]
    c_opts = [o for o in opts if not infile[o[0]]]
    tokens = [n if v is None else n + "=" + v for n, v in f_opts]
    ok_tokens = all(re.fullmatch(r"([^\s\\]|\\+[^\s\\])+", t) for t in tokens)
    n_toks = sum(len(D.decl_tokens(d)) + 1 for d in ds) + (8 if case["block"] else 0)
    lines_at = {}
    decoy = DECOYS[case["decoy"]]

    def place(tokens):
        at = {}
        lines = option_lines(tokens, case["lay"])
        where = sorted(case["pos"][i % len(case["pos"])] % (n_toks + 1) for i in range(len(lines)))
        for w, l in zip(where, lines):
            at.setdefault(w, []).append(l)
        return at
    if tokens and ok_tokens:
        lines_at = place(tokens)
        text = compose(ds, lines_at, decoy, case["block"], nl, case["bom"])
        same(ref, env.gdo(["-"] + canonical(c_opts + cmd), stdin=text), "%option lines", "%s\nvs %s\n%s" % (args0, canonical(c_opts + cmd), text.decode("utf-8", "replace")))
        # 3. -ignore-options
        a = env.gdo(["-"] + canonical(c_opts + cmd), stdin=plain)
        b = env.gdo(["-ignore-options", "-"] + canonical(c_opts + cmd), stdin=text)
        same(a, b, "-ignore-options", "%s\n%s" % (canonical(c_opts + cmd), text.decode("utf-8", "replace")))
        labels.add("in file=%d" % len(tokens))
        if len(lines_at) > 1 or any(len(x) > 1 for x in lines_at.values()):
            labels.add("several lines")
        if decoy:
            labels.add("decoy")
    # 4. damaged options
    if case["bad"]:
        bt = BAD_FILE[case["badi"] % len(BAD_FILE)]
        ts = tokens if ok_tokens else []
        at = case["badi"] % (len(ts) + 1)
        bad = ts[:at] + [bt] + ts[at:]
        text = compose(ds, place(bad), "", case["block"], nl, case["bom"])
        r = env.gdo(["-"] + canonical(c_opts + cmd), stdin=text)
        if r.rc != 1 or r.out or not r.err:
            raise Violation("%%option string %r not refused: %r\n%s" % (bt, r, text.decode("utf-8", "replace")))
        r2 = env.gdo(["-", "-ignore-options"] + canonical(c_opts + cmd), stdin=text)
        same(env.gdo(["-"] + canonical(c_opts + cmd), stdin=plain), r2, "-ignore-options with unknown strings", text.decode("utf-8", "replace"))
        bc = BAD_CMD[case["badi"] % len(BAD_CMD)]
        r = env.gdo(["-"] + bc + canonical(cmd), stdin=plain)
        if r.rc != 1 or r.out or not r.err:
            raise Violation("arguments %r not refused: %r" % (bc, r))
        for last in [("-format", "--prefix", "-D", "-library", "-P", "--out", "-S", "-include", "--param", "-template")[case["badi"] % 10]]:
            r = env.gdo(["-"] + canonical(cmd) + [last], stdin=plain)
            if r.rc != 1 or r.out or not r.err:
                raise Violation("%r without argument not refused: %r" % (last, r))
        labels.add("damaged option")
    for n, _ in opts:
        labels.add("opt=" + n)
    return Result(sorted(labels), len(opts) + len(cmd) > 1 and bool(tokens) and ok_tokens,
                  sample=dict(args=args0, lines=sum(lines_at.values(), [])[:4]))
