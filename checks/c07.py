"""C07: a Clang AST dump gives the same result as the header it came from."""
import copy, os
from hypothesis import strategies as st
from core import Violation, Inconclusive, Result, run, CLANG
import decl as D

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = ("differential property-based testing: generated C headers dumped by the real clang; types read from the dump are compared with the "
             "header's by the compiler, symbols and names with the declaration model")
LEVEL_NOTE = ("Trusts clang 18's dumper and its type compatibility (applied to pointers to the symbols, so qualifiers count). Other clang "
              "versions' dump formats are not covered.")
RULE = ("A case is a C header: declarations with types, arrays, function pointers, qualifiers and attributes from a type pool, interleaved with "
        "redeclarations, function definitions with bodies (locals, nested prototypes), struct/enum/typedef blocks and doc comments; dumped with "
        "or without colours, LF or CRLF, with or without byte order mark; read with -ast-all-symbols or generated -P/-S filters. Symbols and "
        "order must be those of the model, parameters are named a1.., variadic and (void) lists kept, each type must be compatible with the "
        "header's, and a text run on the same declarations must select the same symbols. Non-trivial: at least two symbols and a pointer, "
        "array, function pointer or variadic function among them.")
ASSUMPTIONS = ["the dump is that of clang 18 for C", "generated headers are accepted by clang (others are skipped and counted)"]
BUDGET = {"quick": (1500, 30), "thorough": (30000, 1200)}


def prepare(env):
    env.use_gendlopen()


ABSTRACT = [  # declarations whose types text input does not support: (declaration of NAME, kind, parameter count)
    ("extern int (*const NAME)(int)", "obj", 0), ("extern int (**NAME)(int, char *)", "obj", 0), ("extern int (*NAME[3])(int (*)(char))", "obj", 0),
    ("extern int (*NAME)[3]", "obj", 0), ("extern int (*(*NAME)(int))(char)", "obj", 0), ("extern int (*(*NAME)[2])(int[3])", "obj", 0),
    ("extern int (*(*NAME[2][3])(int))(char, ...)", "obj", 0), ("extern void (*volatile const NAME)(void)", "obj", 0),
    ("extern my_fn_t *const *NAME", "obj", 0), ("extern const char *const NAME[2][4]", "obj", 0), ("extern int (*const *NAME)[2][3]", "obj", 0),
    ("int NAME(int (*const p)(int))", "func", 1), ("int NAME(int (**p)(int), char)", "func", 2), ("void NAME(int (*const p[3])(int))", "func", 1),
    ("my_struct *NAME(int (*p)[3], int q[][4])", "func", 2), ("int NAME(int (*(*g)(int (*)[4]))(char))", "func", 1),
    ("void NAME(my_fn_t f, my_fn_t *g)", "func", 2), ("int NAME(const int *const *restrict p)", "func", 1), ("int NAME(int a[restrict 3])", "func", 1),
    ("int *const *NAME(void)", "func", 0), ("const char *const *(NAME)(int x)", "func", 1), ("int (*NAME)(int) , *NAME_second", "multi", 0),
]


@st.composite
def strategy_(draw):
    cfg = D.c_cfg()
    names = D.unique(draw(st.lists(D.ident(("", "foo_", "foo_b", "lib", "x")), min_size=1, max_size=8)))
    items = []
    for n in names:
        k = draw(st.integers(0, 4))
        if k == 0:
            items.append(dict(t="abs", n=n, i=draw(st.integers(0, len(ABSTRACT) - 2))))
        else:
            items.append(dict(t="decl", d=draw(D.decl(cfg, n)), attr=draw(st.integers(0, 5)), redecl=draw(st.integers(0, 7)) == 0,
                              doc=draw(st.integers(0, 5)) == 0, named=draw(st.integers(0, 3)) > 0))
        if draw(st.integers(0, 3)) == 0:
            items.append(dict(t="noise", i=draw(st.integers(0, 7)), n=draw(st.sampled_from(names))))
    more = [x for x in items if x["t"] == "decl"]
    if more and draw(st.integers(0, 24)) == 7:
        n = draw(st.sampled_from([20, 50, 120]))
        new = [dict(copy.deepcopy(more[i % len(more)]), redecl=i % 9 == 5) for i in range(n)]
        for i, x in enumerate(new):
            x["d"]["n"] = "zz_m%d" % i
        names = names + [x["d"]["n"] for x in new[::3]]
        items += new
    sel = draw(st.integers(0, 2))
    P, S = [], []
    if sel:
        P = draw(st.lists(st.sampled_from(names).map(lambda s: s[:3]), max_size=2))
        S = draw(st.lists(st.sampled_from(names), min_size=0 if P else 1, max_size=3 if len(names) < 12 else 30))
    return dict(items=items, P=P, S=S, color=draw(st.booleans()), crlf=draw(st.booleans()), bom=draw(st.integers(0, 3)) == 0,
                incl=draw(st.booleans()))


def strategy(env):
    return strategy_()


ATTR = ["", "", "", "__attribute__((visibility(\"default\"))) ", "__attribute__((deprecated(\"a 'quoted' text\"))) ", "__attribute__((unused)) "]
NOISE = [
    "struct {n}_tag { int {n}; int (*fp)(int {n}p); };",
    "enum {n}_e { {n}_one, {n}_two = 5 };",
    "typedef int (*{n}_cb)(int, char *);",
    "static inline int zzhelper{c}(int a, char *b) { int {n} = a; { extern int zzlocal(int q, float r); } return {n} + (int)*b; }",
    "static const int zzconst{c} = 3;",
    "_Static_assert(sizeof(int) == 4, \"it's int x\");",
    "int zzdef{c}(int x) { for (int {n} = 0; {n} < x; {n}++) { if ({n} == 3) return {n}; } return 0; }",
    "struct {n}_fwd;",
]


def build(case):
    """header text, [(name, kind, wanted args check)] in order"""
    out, syms, seen = [], [], set()
    cnt = 0

    def add(n, kind, np, va, void):
        if n not in seen:
            seen.add(n)
            syms.append((n, kind, np, va, void))
    late = []
    for it in case["items"]:
        cnt += 1
        if it["t"] == "noise":
            t = NOISE[it["i"]].replace("{n}", it["n"]).replace("{c}", str(cnt))
            if it["i"] in (0, 1, 2, 7):
                t = t.replace(it["n"] + "_", it["n"] + "_%d" % cnt)
            if it["i"] in (3, 4, 6):
                w = {3: "zzhelper", 4: "zzconst", 6: "zzdef"}[it["i"]] + str(cnt)
                add(w, "obj" if it["i"] == 4 else "func", {3: 2, 4: 0, 6: 1}[it["i"]], False, False)
            out.append(t)
        elif it["t"] == "abs":
            txt, kind, np = ABSTRACT[it["i"]]
            out.append(txt.replace("NAME", it["n"]) + ";")
            add(it["n"], kind, np, "..." in txt and kind == "func", "(void)" in txt)
        else:
            d = it["d"]
            tk = " ".join(D.decl_tokens(d, named=it["named"]))
            if d["k"] != "func" and not tk.startswith("extern"):
                tk = "extern " + tk
            if it["doc"]:
                out.append("/** doc of %s: 'int' \\param x it's\n * @brief FunctionDecl 0x1 foo 'int (int)'\n */" % d["n"])
            out.append(ATTR[it["attr"]] + tk + ";")
            if it["redecl"]:
                r = dict(d, ext=not d["ext"])
                late.append(" ".join(["extern"] * (d["k"] != "func") + D.decl_tokens(dict(r, ext=False), named=not it["named"])) + ";")
            if d["k"] == "func":
                v = isinstance(d["p"], str)
                ps = [] if v else d["p"]
                add(d["n"], "func", len([p for p in ps if p["k"] != "va"]), any(p["k"] == "va" for p in ps), v)
            else:
                add(d["n"], "obj", 0, False, False)
    return "\n".join(out + late) + "\n", syms


def check(env, case):
    head, syms = build(case)
    labels = set()
    types = env.path("types.h")
    if not os.path.exists(types):
        with open(types, "w") as f:
            f.write(D.TYPES_H)
    hp = env.path("head.h")
    with open(hp, "w") as f:
        f.write('#include "types.h"\n' + head)
    src = hp
    if case["incl"]:
        src = env.path("main.c")
        with open(src, "w") as f:
            f.write('#include "head.h"\n')
    r = run([CLANG, "-xc", "-std=gnu17", "-w", "-fno-builtin", "-Xclang", "-ast-dump", "-fsyntax-only",
             "-fcolor-diagnostics" if case["color"] else "-fno-color-diagnostics", src], cwd=env.scratch)
    if r.timeout or r.rc is None or r.rc < 0:
        raise Inconclusive("clang: %r" % r)
    if r.rc:
        env.count("headers rejected by clang")
        return Result(["rejected header"], False)
    ast = r.out
    if case["crlf"]:
        ast = ast.replace(b"\n", b"\r\n")
    if case["bom"]:
        ast = b"\xef\xbb\xbf" + ast
    P, S = case["P"], case["S"]
    opts = ["-P" + p for p in P] + ["-S" + s for s in S]
    if not P and not S:
        opts = ["-ast-all-symbols"]
        want = syms
        labels.add("all symbols")
    else:
        want = [s for s in syms if s[0] in S or any(s[0].startswith(p) for p in P)]
        labels.add("filters")
    got = D.observe(env, ast, opts)
    text = "header:\n%s\noptions: %s" % (head, opts)
    if not want:
        if isinstance(got, tuple):
            raise Violation("nothing matches, but accepted\n%s" % text)
        return Result(["nothing selected"], False)
    if not isinstance(got, tuple):
        raise Violation("the AST was refused\n%s\n%r" % (text, got))
    gf, go = got
    wf = [s for s in want if s[1] == "func"]
    wo = [s for s in want if s[1] == "obj"]
    if [f[1] for f in gf] != [s[0] for s in wf] or [o[1] for o in go] != [s[0] for s in wo]:
        raise Violation("symbols %s %s, declared %s %s\n%s" % ([f[1] for f in gf], [o[1] for o in go], [s[0] for s in wf], [s[0] for s in wo], text))
    for (ty, n, args, names), (_, _, np, va, void) in zip(gf, wf):
        if list(names) != ["a%d" % (i + 1) for i in range(np)]:
            raise Violation("%s: parameter names %s, %d parameters\n%s" % (n, names, np, text))
        if void != (args == ("void",)):
            raise Violation("%s: argument list %s\n%s" % (n, args, text))
        if va != (len(args) > 0 and args[-1] == "..."):
            raise Violation("%s: variadic=%s, argument list %s\n%s" % (n, va, args, text))
    # the types, by the compiler
    c = ['#include "head.h"', "#define SAME(a, b, n) _Static_assert(__builtin_types_compatible_p(a, b), \"TYPE OF \" n)"]
    for i, (ty, n, args, names) in enumerate(gf):
        c.append("typedef %s obs_f%d(%s);" % (" ".join(ty), i, " ".join(args)))
        c.append("SAME(__typeof__(&%s), obs_f%d *, \"%s\");" % (n, i, n))
    for i, (ty, n) in enumerate(go):
        ty = list(ty)
        if "@" in ty:
            ty[ty.index("@")] = "obs_o%d" % i
        else:
            ty.append("obs_o%d" % i)
        c.append("typedef %s;" % " ".join(ty))
        c.append("SAME(__typeof__(&%s), obs_o%d *, \"%s\");" % (n, i, n))
    cp = env.path("cmp.c")
    with open(cp, "w") as f:
        f.write("\n".join(c) + "\n")
    r = run([CLANG, "-xc", "-std=gnu17", "-w", "-fno-builtin", "-fsyntax-only", "-fno-color-diagnostics", cp], cwd=env.scratch)
    if r.timeout or r.rc is None or r.rc < 0:
        raise Inconclusive("clang: %r" % r)
    if r.rc:
        raise Violation("types differ from the header's:\n%s\n%s\n%s" % (r.err.decode("utf-8", "replace")[:1500], "\n".join(c), text))
    # the same selection from the text
    if all(it["t"] == "decl" and it["named"] for it in case["items"]):
        plain = "".join(" ".join(D.decl_tokens(it["d"])) + ";\n" for it in case["items"])
        t = D.observe(env, plain.encode(), [o for o in opts if o != "-ast-all-symbols"])
        if not isinstance(t, tuple):
            raise Violation("text input refused: %r\n%s" % (t, plain))
        a = (sorted(f[1] for f in gf), sorted(o[1] for o in go))
        b = (sorted(f[1] for f in t[0]), sorted(o[1] for o in t[1]))
        if a != b:
            raise Violation("AST selects %s, text selects %s\n%s" % (a, b, text))
        labels.add("compared with text run")
    for it in case["items"]:
        labels.add(it["t"] if it["t"] != "noise" else "noise %d" % it["i"])
    for k in ("color", "crlf", "bom", "incl"):
        if case[k]:
            labels.add(k)
    nt = len(want) > 1 and any(x in head for x in "*[") and (any(s[3] for s in want) or "(*" in head or "[" in head)
    return Result(sorted(labels), nt, sample=dict(header=head[:600], options=opts))
