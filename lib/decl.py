"""Reference model of the supported input language: generators for declarations, a renderer
that writes them down in every equivalent spelling, and the meaning (type / symbol / argument
list / parameter names, token by token) the tool has to report."""
import copy, re
from hypothesis import strategies as st

TOK = re.compile(r"[A-Za-z0-9_]+|\.\.\.|\S")


def toks(s):
    return TOK.findall(s)


KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if inline int
long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while
_Bool _Complex alignas alignof and and_eq asm bitand bitor bool catch char8_t char16_t char32_t class compl concept
consteval constexpr constinit const_cast co_await co_return co_yield decltype delete dynamic_cast explicit export
false friend mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public
reinterpret_cast requires static_assert static_cast template this thread_local throw true try typeid typename
using virtual wchar_t xor xor_eq linux unix i386 errno stdin stdout stderr NULL EOF main asm typeof""".split())

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
ALNUM = LETTERS + "0123456789"


# ------------------------------------------------------------------ identifiers
@st.composite
def ident(draw, prefixes=("",), max_size=12):
    p = draw(st.sampled_from(prefixes))
    kind = draw(st.integers(0, 19))
    if kind == 0:
        n = draw(st.sampled_from([1, 2, 31, 32, 63, 64, 127, 128, 255, 256, 300]))
        body = draw(st.text(ALNUM, min_size=1, max_size=4))
        s = (body * (n // len(body) + 1))[:n]
    else:
        s = draw(st.text(ALNUM, min_size=1, max_size=max_size))
    s = p + s
    if not (s[0].isalpha() or s[0] == "_"):
        s = "n" + s
    if s in KEYWORDS or s.startswith("__") or (s[0] == "_" and s[1:2].isupper()):
        s = "k" + s
    return s


PREFIX_POOL = ("", "", "", "foo_", "foo_bar_", "lib", "x", "helloworld_", "Az_", "a", "a1", "const", "int", "void",
               "extern", "struct", "enum", "typedef", "GDO_", "gdo_", "gdo", "t_")


def unique(names):
    seen, res = set(), []
    for n in names:
        base, i = n, 0
        while n in seen:
            i += 1
            n = "%s_%d" % (base, i)
        seen.add(n)
        res.append(n)
    return res


# ------------------------------------------------------------------ types
BASE_TEXT = [["int"], ["char"], ["void"], ["unsigned"], ["unsigned", "int"], ["long", "long", "int"],
             ["unsigned", "char"], ["signed", "char"], ["short"], ["float"], ["double"], ["long", "double"],
             ["size_t"], ["FILE"], ["foo_t"], ["GtkWidget"], ["gdo_t"], ["uint64_t"],
             ["const", "struct", "foo"], ["const", "union", "u_1"], ["volatile", "enum", "e2"], ["const", "enum", "E3"],
             ["volatile", "struct", "s9"], ["const", "volatile", "union", "foo_u"], ["_Bool"],
             ["VOID"], ["Void"], ["voidp"], ["t" * 257], ["WINAPI", "HWND"]]

# types declared by TYPES_H, usable for compilation in C and C++
BASE_C = [["int"], ["char"], ["unsigned"], ["unsigned", "int"], ["long", "long", "int"], ["unsigned", "long"],
          ["unsigned", "char"], ["signed", "char"], ["short"], ["float"], ["double"], ["long", "double"],
          ["size_t"], ["my_int"], ["my_struct"], ["my_union"], ["my_enum"], ["my_fn_t", "*"], ["my_voidp"],
          ["gdo_like_t"], ["long", "unsigned", "int", "long"], ["wchar_t"]]
BASE_C_PARAM = [["struct", "my_s"], ["union", "my_u"], ["enum", "my_e"]]

TYPES_H = """
#ifndef MY_TYPES_H
#define MY_TYPES_H
#include <stddef.h>
struct my_s { int a; double b; char c[3]; };
union my_u { int i; float f; long l; };
enum my_e { MY_A = 1, MY_B = 70000 };
typedef int my_int;
typedef struct my_s my_struct;
typedef union my_u my_union;
typedef enum my_e my_enum;
typedef int my_fn_t(int, const char *);
typedef void *my_voidp;
typedef unsigned short gdo_like_t;
#endif
"""


@st.composite
def type_tokens(draw, bases, allow_void=True, allow_ptr=True, in_param=False, restrict=None, quals=True,
                toplevel_const=True):
    """token list of a type as it stands in front of a name"""
    b = list(draw(st.sampled_from(bases)))
    nptr = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3])) if allow_ptr else 0
    isvoid = (b == ["void"])
    if isvoid and nptr == 0 and not allow_void:
        nptr = 1
    if quals and b[-1] != "*":
        q = draw(st.integers(0, 9))
        bare_void = isvoid and nptr == 0
        if bare_void or (nptr == 0 and not toplevel_const):
            pass
        elif b[0] in ("const", "volatile"):
            pass
        elif q == 0:
            b = ["const"] + b
        elif q == 1:
            b = b + ["const"]
        elif q == 2:
            b = ["volatile"] + b
        elif q == 3 and toplevel_const:
            b = ["const", "volatile"] + b
        elif q == 4 and len(b) > 1 and b[0] not in ("struct", "union", "enum", "const", "volatile"):
            b = b[:1] + ["const"] + b[1:]
    t = list(b)
    for i in range(nptr):
        t.append("*")
        if quals:
            q = draw(st.integers(0, 11))
            last = (i == nptr - 1)
            if last and not toplevel_const:
                continue
            if q == 0:
                t.append("const")
            elif q == 1:
                t.append("volatile")
            elif q == 2 and restrict:
                t.append(restrict)
            elif q == 3:
                t += ["const", "volatile"]
    return t


DIMS_TEXT = [["4"], ["1"], ["N"], ["256"], ["0x10"], ["MAX_LEN"], ["16"]]
DIMS_C = [["4"], ["1"], ["3"], ["16"], ["MY_A"], ["2"]]


@st.composite
def nested_params(draw, cfg, depth):
    """parameter list of a function pointer: token lists with or without names"""
    n = draw(st.integers(0, 3))
    if n == 0:
        return draw(st.sampled_from([[], [["void"]]])) if cfg["lang"] != "cxx" else draw(st.sampled_from([[], [["void"]]]))
    res = []
    for i in range(n):
        k = draw(st.integers(0, 9))
        named = draw(st.booleans())
        nm = ["p%d" % i] if named else []
        if k == 0 and depth < 3:
            r = draw(type_tokens(cfg["bases"], restrict=None, toplevel_const=False))
            inner = draw(nested_params(cfg, depth + 1))
            res.append(r + ["(", "*"] + nm + [")", "("] + join_params(inner) + [")"])
        elif k == 1:
            r = draw(type_tokens(cfg["obases"], allow_void=False, toplevel_const=False))
            res.append(r + nm + ["["] + draw(st.sampled_from([[]] + cfg["dims"])) + ["]"])
        else:
            res.append(draw(type_tokens(cfg["pbases"], allow_void=False, in_param=True, restrict=None)) + nm)
    if draw(st.integers(0, 7)) == 0:
        res.append(["..."])
    return res


def join_params(ps):
    out = []
    for i, p in enumerate(ps):
        if i:
            out.append(",")
        out += p
    return out


@st.composite
def param(draw, cfg, name):
    k = draw(st.integers(0, 9))
    if k == 0:
        r = draw(type_tokens(cfg["bases"], toplevel_const=False))
        return dict(k="fp", t=r, n=name, p=draw(nested_params(cfg, 0)))
    if k in (1, 2):
        nd = draw(st.sampled_from([1, 1, 2, 3]))
        d = [draw(st.sampled_from([[]] + cfg["dims"]))] + [draw(st.sampled_from(cfg["dims"])) for _ in range(nd - 1)]
        if cfg.get("static_dim") and draw(st.integers(0, 9)) == 0:
            d[0] = ["static", "4"]
        return dict(k="arr", t=draw(type_tokens(cfg["pobases"], allow_void=False, toplevel_const=False)), n=name, d=d)
    return dict(k="obj", t=draw(type_tokens(cfg["pbases"], allow_void=False, in_param=True, restrict=cfg["restrict"])), n=name)


def text_cfg():
    nv = [b for b in BASE_TEXT if b not in (["VOID"], ["Void"])]  # a sole VOID parameter means (void)
    return dict(lang="text", bases=BASE_TEXT, pbases=nv + [["struct", "foo"], ["union", "u"], ["enum", "e"]],
                obases=[b for b in BASE_TEXT if b not in (["void"], ["VOID"], ["Void"])],
                pobases=nv + [["struct", "foo"]], dims=DIMS_TEXT, restrict="restrict", static_dim=True)


def c_cfg(cxx=False):
    """types that compile in C (and, cxx=True, in C++ too)"""
    b = [["void"], ["void"]] + BASE_C
    return dict(lang="cxx" if cxx else "c", bases=b, pbases=b + BASE_C_PARAM, obases=BASE_C, pobases=BASE_C + BASE_C_PARAM,
                dims=DIMS_C, restrict="__restrict" if cxx else "restrict", static_dim=not cxx)


@st.composite
def decl(draw, cfg, name, kinds=("func", "func", "func", "obj", "arr", "fptr")):
    k = draw(st.sampled_from(kinds))
    d = dict(k=k, n=name, ext=draw(st.booleans()), par=draw(st.sampled_from([0, 0, 0, 1, 2, 3])))
    if k == "func":
        d["t"] = draw(type_tokens(cfg["bases"], toplevel_const=cfg["lang"] == "text"))
        np = draw(st.sampled_from([-1, 0, 1, 1, 2, 2, 3, 5] + ([9, 20] if cfg.get("many", True) else [])))
        if np == -1:
            d["p"] = draw(st.sampled_from(["void", "void", "VOID", "Void"])) if cfg["lang"] == "text" else "void"
        else:
            nk = draw(st.integers(0, 3))
            ps = []
            pn = draw(st.lists(ident(("", "a", "p_", "gdo_"), 6), min_size=np, max_size=np)) if nk else ["a%d" % (i + 1) for i in range(np)]
            pn = unique([x for x in pn])
            for i in range(np):
                ps.append(draw(param(cfg, pn[i])))
            if np and draw(st.integers(0, 5)) == 0:
                ps.append(dict(k="va"))
            d["p"] = ps
        # where one or two pointers stand inside the parentheses: (*name(..))
        d["pp"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
        d["whole"] = draw(st.sampled_from([0, 0, 0, 1]))
    elif k == "fptr":
        d["t"] = draw(type_tokens(cfg["bases"], toplevel_const=False))
        d["p"] = draw(nested_params(cfg, 0))
    elif k == "arr":
        d["t"] = draw(type_tokens(cfg["obases"], allow_void=False))
        nd = draw(st.sampled_from([1, 1, 2, 3]))
        d["d"] = [draw(st.sampled_from(([[]] if cfg["lang"] == "text" else []) + cfg["dims"]))] + \
                 [draw(st.sampled_from(cfg["dims"])) for _ in range(nd - 1)]
    else:
        d["t"] = draw(type_tokens(cfg["bases"], allow_void=False))
    return d


@st.composite
def decls(draw, cfg, min_size=1, max_size=8, kinds=("func", "func", "func", "obj", "arr", "fptr"), prefixes=None, names=None):
    if names is None:
        pool = prefixes or PREFIX_POOL
        k = draw(st.integers(0, 2))
        pf = (draw(st.sampled_from(pool)),) if k else tuple(pool)
        names = draw(st.lists(ident(pf), min_size=min_size, max_size=max_size))
        names = unique(names)
        ds = [draw(decl(cfg, n, kinds)) for n in names]
        if draw(st.integers(0, 29)) == 17:
            # a header of many declarations
            st0 = draw(st.sampled_from(["m", "zm_", names[0] + "_"]))
            ds += [dict(copy.deepcopy(ds[i % len(ds)]), n="%s%d" % (st0, i)) for i in range(draw(st.sampled_from([17, 40, 70, 300])))]
            used = set()
            ds = [d for d in ds if not (d["n"] in used or used.add(d["n"]))]
        return ds
    return [draw(decl(cfg, n, kinds)) for n in names]


# ------------------------------------------------------------------ rendering
def param_tokens(p, named=True):
    if p["k"] == "va":
        return ["..."]
    if p["k"] == "raw":
        return p["toks"]
    n = [p["n"]] if named else []
    if p["k"] == "obj":
        return p["t"] + n
    if p["k"] == "arr":
        return p["t"] + n + sum((["["] + d + ["]"] for d in p["d"]), [])
    return p["t"] + ["(", "*"] + n + [")", "("] + join_params(p["p"]) + [")"]


def func_param_tokens(d, named=True):
    if isinstance(d["p"], str):
        return [d["p"]]
    return join_params([param_tokens(p, named) for p in d["p"]])


def decl_tokens(d, named=True, spell=True):
    """tokens of one declaration without the final ';'"""
    out = ["extern"] if d.get("ext") and spell else []
    par = d.get("par", 0) if spell else 0
    if d["k"] == "func":
        t = list(d["t"])
        args = ["("] + func_param_tokens(d, named) + [")"]
        pp = d.get("pp", 0) if spell else 0
        stars = 0
        while stars < pp and len(t) > 1 and t[-1] == "*":
            t.pop()
            stars += 1
        if stars:
            n = max(1, par)
            return out + t + ["("] * n + ["*"] * stars + [d["n"]] + args + [")"] * n
        if par and d.get("whole"):
            # ((name)(args))
            return out + t + ["(", "("] + [d["n"]] + [")"] + args + [")"]
        return out + t + ["("] * par + [d["n"]] + [")"] * par + args
    if d["k"] == "obj":
        return out + d["t"] + [d["n"]]
    if d["k"] == "arr":
        return out + d["t"] + [d["n"]] + sum((["["] + x + ["]"] for x in d["d"]), [])
    n = max(1, par)
    return out + d["t"] + ["("] * n + ["*", d["n"]] + [")"] * n + ["("] + join_params(d["p"]) + [")"]


IDC = re.compile(r"[A-Za-z0-9_]")


def needs_space(a, b):
    return bool(IDC.match(a[-1]) and IDC.match(b[0]))


SEPS = [" ", "", "\n", "  ", "\t", " \n ", "\n\n", "\f", "\v"]


def render_tokens(tl, ws, state):
    """join tokens with separators picked cyclically from the list ws of small ints"""
    out = []
    prev = None
    for t in tl:
        if prev is not None:
            s = " "
            if ws:
                s = SEPS[ws[state[0] % len(ws)] % len(SEPS)]
                state[0] += 1
            if s == "" and (needs_space(prev, t)):
                s = " "
            out.append(s)
        out.append(t)
        prev = t
    return "".join(out)


def render(ds, ws=(), named=True, spell=True, last_semi=True):
    state = [0]
    out = []
    for i, d in enumerate(ds):
        out.append(render_tokens(decl_tokens(d, named, spell), ws, state))
        if last_semi or i + 1 < len(ds):
            out.append(";")
        s = "\n"
        if ws:
            s = SEPS[ws[state[0] % len(ws)] % len(SEPS)]
            state[0] += 1
        out.append(s)
    return "".join(out)


# ------------------------------------------------------------------ meaning
def meaning(ds, mode="read", named=True):
    """expected (functions, objects); token lists.
    functions: (type, symbol, args, names); objects: (type with typedef expanded, symbol)"""
    fs, os_ = [], []
    for d in ds:
        if d["k"] == "func":
            if mode == "create":
                args, names = [], []
                if isinstance(d["p"], str):
                    args = [d["p"]]
                else:
                    c, l = 0, []
                    for p in d["p"]:
                        if p["k"] == "va":
                            l.append(["..."])
                            continue
                        c += 1
                        q = dict(p)
                        q["n"] = "a%d" % c
                        names.append(q["n"])
                        l.append(param_tokens(q))
                    args = join_params(l)
            else:
                args = func_param_tokens(d, named)
                names = [] if mode == "skip" or isinstance(d["p"], str) else [p["n"] for p in d["p"] if p["k"] != "va"]
            fs.append((tuple(d["t"]), d["n"], tuple(args), tuple(names)))
        elif d["k"] == "obj":
            os_.append((tuple(d["t"]), d["n"]))
        elif d["k"] == "arr":
            os_.append((tuple(d["t"] + ["@"] + sum((["["] + x + ["]"] for x in d["d"]), [])), d["n"]))
        else:
            os_.append((tuple(d["t"] + ["(", "*", "@", ")", "("] + join_params(d["p"]) + [")"]), d["n"]))
    return fs, os_


# ------------------------------------------------------------------ observation
OBS_TEMPLATE = ("F<<%%type%%|%%func_symbol%%|%%args%%|%%param_names%%|%%return%%>>\n"
                "O<<%%obj_type%%|%%obj_symbol%%>>\n"
                "S<<%%sym_type%%|%%symbol%%>>\n")


class ObsError(Exception):
    pass


def parse_observation(text, typedef_text):
    """text: output of OBS_TEMPLATE; typedef_text: output of -print-symbols"""
    tds = {}
    for line in typedef_text.split("\n"):
        if line.startswith("typedef "):
            tl = toks(line[8:])
            if not tl or tl[-1] != ";":
                raise ObsError("odd typedef line: %r" % line)
            tl = tl[:-1]
            idx = [i for i, t in enumerate(tl) if t.endswith("__t")]
            if not idx:
                raise ObsError("typedef without name: %r" % line)
            # the declarator: first candidate followed by '[' or preceded by '( *'
            pick = idx[0] if len(idx) == 1 else None
            for i in idx if pick is None else ():
                if (i + 1 < len(tl) and tl[i + 1] == "[") or (i >= 2 and tl[i - 1] == "*" and tl[i - 2] == "("):
                    pick = i
                    break
            if pick is None:
                raise ObsError("typedef of unknown form: %r" % line)
            name = tl[pick]
            if name in tds:
                raise ObsError("typedef %s twice" % name)
            tds[name] = tl[:pick] + ["@"] + tl[pick + 1:]
    fs, os_, ss = [], [], []
    for line in text.split("\n"):
        if not line:
            continue
        m = re.match(r"^([FOS])<<(.*)>>$", line)
        if not m:
            raise ObsError("odd line in template output: %r" % line)
        parts = m.group(2).split("|")
        if m.group(1) == "F":
            ty, sym, args, names, ret = parts
            nl = toks(names)
            if any(x == "," for x in nl[::2]) or any(x != "," for x in nl[1::2]):
                raise ObsError("odd parameter name list: %r" % names)
            fs.append((tuple(toks(ty)), sym, tuple(toks(args)), tuple(nl[::2]), ret))
        elif m.group(1) == "O":
            os_.append((tuple(toks(parts[0])), parts[1]))
        else:
            ss.append((tuple(toks(parts[0])), parts[1]))
    return fs, os_, ss, tds


def expand(os_, tds, pfx="gdo"):
    """put the typedefs back into object types; every typedef must be used by exactly one object"""
    used = set()
    res = []
    for t, s in os_:
        if len(t) == 1 and t[0] in tds:
            if t[0] != "%s_%s__t" % (pfx, s):
                raise ObsError("object %s has the typedef of another: %s" % (s, t[0]))
            used.add(t[0])
            res.append((tuple(tds[t[0]]), s))
        else:
            res.append((t, s))
    if used != set(tds):
        raise ObsError("unused typedefs %s" % (set(tds) - used))
    return res


def observe(env, data, opts=(), variant="plain", pfx="gdo", infile=None):
    """run gendlopen on the bytes `data`; returns (functions, objects) with names as in meaning(),
    or the failing Proc. Inconsistencies between the two outputs are violations."""
    from core import Violation
    tpl = env.path("obs.tpl")
    import os
    if not os.path.exists(tpl):
        with open(tpl, "w") as f:
            f.write(OBS_TEMPLATE)
    src = infile or "-"
    stdin = b"" if infile else data
    a = env.gdo([src, "-template=" + tpl] + list(opts), stdin=stdin, variant=variant)
    b = env.gdo([src, "-print-symbols"] + list(opts), stdin=stdin, variant=variant)
    if a.rc != b.rc:
        raise Violation("-template and -print-symbols disagree on the status: %d %d\n%r\n%r" % (a.rc, b.rc, a, b))
    if a.rc != 0:
        if a.out or b.out:
            raise Violation("output on stdout although the run failed\n%r\n%r" % (a, b))
        if not a.err or a.err != b.err:
            raise Violation("missing or differing error messages\n%r\n%r" % (a, b))
        return a
    try:
        at, bt = a.out.decode("latin-1"), b.out.decode("latin-1")
        fs, os_, ss, tds = parse_observation(at, bt)
        raw_os = list(os_)
        os_ = expand(os_, tds, pfx)
    except (ObsError, ValueError) as x:
        raise Violation("unreadable output: %s\n%r\n%r" % (x, a, b))
    # %%return%% is empty exactly for void functions
    for t, n, ar, pn, ret in fs:
        want = "" if len(t) == 1 and t[0].lower() == "void" else "return"
        if ret != want:
            raise Violation("%%%%return%%%% of %s is %r, type %s" % (n, ret, t))
    # symbol lines: functions first, then objects, with pointer types
    want = [(f[0] + ("(", "*", ")", "(") + f[2] + (")",), f[1]) for f in fs] + [(o[0] + ("*",), o[1]) for o in raw_os]
    if want != ss:
        raise Violation("%%%%sym_type%%%%/%%%%symbol%%%% lines disagree:\n%s\n%s" % (want, ss))
    # -print-symbols lists the same
    lines = [toks(l) for l in bt.split("\n") if l and not l.startswith("/*") and not l.startswith("typedef ") and not l.startswith("/***")]
    wantl = [list(o[0]) + [o[1], ";"] for o in raw_os] + [list(f[0]) + [f[1], "("] + list(f[2]) + [")", ";"] for f in fs]
    if lines != wantl:
        raise Violation("-print-symbols disagrees with the template output:\n%s\n%s" % (lines, wantl))
    m = re.findall(r"/\*\*\*  (\d+) matches  \*\*\*/", bt)
    if m != [str(len(wantl))]:
        raise Violation("-print-symbols counts %s matches, listed %d" % (m, len(wantl)))
    return [f[:4] for f in fs], os_


def diff_meaning(got, want):
    """human readable difference or None"""
    (gf, go), (wf, wo) = got, want
    out = []
    for what, g, w in (("functions", gf, wf), ("objects", go, wo)):
        if list(g) != list(w):
            for x, y in zip(list(g) + [None] * len(w), list(w) + [None] * len(g)):
                if x != y:
                    out.append("%s: reported %r\n   declared %r" % (what, x, y))
                    break
    return "\n".join(out) or None
