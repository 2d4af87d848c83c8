"""C05: -P/-S select exactly the requested symbols."""
import copy, re
from hypothesis import strategies as st
from core import Violation, Result
import decl as D

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "model-based property testing of generated selections over generated text inputs and Clang AST dumps"
LEVEL_NOTE = 'Reference: set semantics of -P/-S over the declaration model, order kept for unfiltered and -S-only text input.'
RULE = ("A case is a list of declarations with confusable names (prefixes of one another, differing only in case), given as prototypes or as "
        "a synthetic Clang AST dump, and random lists of -P and -S arguments (existing names, prefixes, near misses, repetitions) in random "
        "order. The model selects symbols by prefix or exact name; result, order, types, missing-name list and status must match. "
        "Non-trivial: at least one filter, and the selection is neither empty-by-accident nor everything, or a name is missing.")
ASSUMPTIONS = ["filter strings are non-empty"]
BUDGET = {"quick": (1500, 30), "thorough": (30000, 1200)}


def prepare(env):
    env.use_gendlopen()


STEMS = ["foo", "foo_", "foo_bar", "Foo", "FOO", "fo", "f", "foobar", "bar", "foo_bar_baz", "xfoo", "_foo", "foo1", "foo_b", "zz"]


@st.composite
def strategy_(draw):
    cfg = D.text_cfg()
    names = D.unique(draw(st.lists(st.one_of(st.sampled_from(STEMS), st.sampled_from(STEMS), D.ident()), min_size=1, max_size=9)))
    ast = draw(st.integers(0, 2)) == 0
    if ast:
        ds = [draw(D.decl(cfg, n, ("func", "func", "obj"))) for n in names]
    else:
        ds = [draw(D.decl(cfg, n)) for n in names]
    cand = st.one_of(st.sampled_from(names), st.sampled_from(names), st.sampled_from(names).map(lambda s: s[:max(1, len(s) - 1)]),
                     st.sampled_from(names).map(lambda s: s + "x"), st.sampled_from(STEMS), st.sampled_from(names).map(str.swapcase),
                     st.sampled_from(names).map(lambda s: s[:1]))
    pf = draw(st.lists(cand, max_size=3))
    k = draw(st.integers(0, 3))
    if k == 0:
        sy = []
    elif k < 3:
        sy = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4))
    else:
        sy = draw(st.lists(cand, min_size=1, max_size=5))
    if draw(st.integers(0, 19)) == 7:
        # many symbols, many of them listed, in any order, some twice, perhaps some that don't exist
        n = draw(st.sampled_from([20, 40, 90, 300]))
        st0 = draw(st.sampled_from(STEMS))
        new = ["%s_%d" % (st0, i) for i in range(n)]
        ds += [dict(copy.deepcopy(ds[i % len(ds)]), n=x) for i, x in enumerate(new) if x not in names]
        step = draw(st.sampled_from([1, 2, 3, 7]))
        more = new[draw(st.integers(0, 3))::step]
        more += more[:draw(st.sampled_from([0, 0, 5]))]
        if draw(st.booleans()):
            more = more[::-1]
        sy = sy + more + ["%s_%d" % (st0, n + 3 * i) for i in range(draw(st.sampled_from([0, 0, 0, 0, 1, 12, 40])))]
        if draw(st.integers(0, 3)) == 0:
            pf = pf + ["%s_%d" % (st0, i) for i in range(draw(st.sampled_from([1, 9, 40])))]
        k = draw(st.integers(1, 9999))
        return dict(ds=ds, P=pf, S=sy, order=[i * k % 1009 for i in range(len(pf) + len(sy))], style=draw(st.integers(0, 3)), ast=ast, all=False,
                    redecl=[], crlf=draw(st.integers(0, 4)) == 0, color=draw(st.integers(0, 4)) == 0)
    order = draw(st.lists(st.integers(0, 1000), min_size=len(pf) + len(sy), max_size=len(pf) + len(sy)))
    return dict(ds=ds, P=pf, S=sy, order=order, style=draw(st.integers(0, 3)), ast=ast, all=draw(st.integers(0, 9)) == 0,
                redecl=draw(st.lists(st.integers(0, 8), max_size=2)), crlf=draw(st.integers(0, 4)) == 0, color=draw(st.integers(0, 4)) == 0)


def strategy(env):
    return strategy_()


def synth_ast(case):
    """a minimal AST dump in clang's format; only types without parentheses"""
    ds = case["ds"]
    seq = list(range(len(ds))) + [i % len(ds) for i in case["redecl"]]
    col = (lambda c, s: "\x1b[0;%sm%s\x1b[0m" % (c, s)) if case["color"] else (lambda c, s: s)
    lines = [col("1;32", "TranslationUnitDecl") + col("33", " 0x5581") + " <<invalid sloc>> <invalid sloc>",
             "|-TypedefDecl 0x1 <<invalid sloc>> <invalid sloc> implicit __int128_t '__int128'",
             "| `-BuiltinType 0x2 '__int128'"]
    for k, i in enumerate(seq):
        d = ds[i]
        last = k + 1 == len(seq)
        b = "`" if last else "|"
        bar = " " if last else "|"
        if d["k"] == "func":
            ps = [] if isinstance(d["p"], str) else [p for p in d["p"] if p["k"] == "obj"]
            va = not isinstance(d["p"], str) and any(p["k"] == "va" for p in d["p"])
            pt = [" ".join(p["t"]) for p in ps]
            ty = "%s (%s)" % (" ".join(d["t"]), ", ".join(pt + (["..."] if va else [])) or ("void" if isinstance(d["p"], str) else ""))
            lines.append(col("34", b + "-") + col("1;32", "FunctionDecl") + col("33", " 0x%x" % (k + 16)) + " <line:%d:1, col:30> col:5%s %s" % (k + 1, col("1;36", " " + d["n"]), col("32", "'%s'" % ty)) + " extern")
            for j, p in enumerate(ps):
                c = "`" if j + 1 == len(ps) else "|"
                lines.append(col("34", bar + " " + c + "-") + col("1;32", "ParmVarDecl") + col("33", " 0x%x" % (k + 99)) + " <col:7, col:11> col:11%s %s" % (col("1;36", " " + p["n"]), col("32", "'%s'" % " ".join(p["t"]))))
        else:
            lines.append(col("34", b + "-") + col("1;32", "VarDecl") + col("33", " 0x%x" % (k + 16)) + " <line:%d:1, col:30> col:5%s %s extern" % (k + 1, col("1;36", " " + d["n"]), col("32", "'%s'" % " ".join(d["t"]))))
    return ("\r\n" if case["crlf"] else "\n").join(lines) + "\n"


def ast_meaning(ds):
    fs, os_ = [], []
    for d in ds:
        if d["k"] == "func":
            if isinstance(d["p"], str):
                fs.append((tuple(d["t"]), d["n"], ("void",), ()))
            else:
                ps = [p for p in d["p"] if p["k"] == "obj"]
                l = [p["t"] + ["a%d" % (i + 1)] for i, p in enumerate(ps)]
                if any(p["k"] == "va" for p in d["p"]):
                    l.append(["..."])
                fs.append((tuple(d["t"]), d["n"], tuple(D.join_params(l)), tuple("a%d" % (i + 1) for i in range(len(ps)))))
        else:
            os_.append((tuple(d["t"]), d["n"]))
    return fs, os_


def check(env, case):
    ds, P, S = case["ds"], case["P"], case["S"]
    names = [d["n"] for d in ds]
    if case["ast"]:
        data = synth_ast(case).encode("latin-1")
        allf, allo = ast_meaning(ds)
    else:
        data = D.render(ds).encode("latin-1")
        allf, allo = D.meaning(ds, "read")
    items = [("P", x) for x in P] + [("S", x) for x in S]
    items = [x for _, x in sorted(zip(case["order"], items), key=lambda t: t[0])]
    opts = []
    for i, (o, v) in enumerate(items):
        opts += ["-%s%s" % (o, v)] if (case["style"] + i) % 2 else ["-" + o, v]
    everything = case["all"]
    if everything:
        opts.insert(len(opts) if case["style"] > 1 else 0, "-ast-all-symbols")
    use_all = everything and case["ast"]
    if use_all or (not P and not S):
        sel, missing = set(names), []
    else:
        sel = set(n for n in names if n in S or any(n.startswith(p) for p in P))
        missing = sorted(set(S) - set(names))
    labels = ["ast" if case["ast"] else "prototypes", "P" if P else "no P", "S" if S else "no S"]
    r = D.observe(env, data, opts)
    ctx = "%s\noptions %s\n" % (data.decode("latin-1")[:3000], opts)
    if case["ast"] and not everything and not P and not S:
        if isinstance(r, tuple) or r.rc != 1:
            raise Violation("AST without filter accepted\n%s%r" % (ctx, r))
        return Result(labels + ["ast without filter"], False)
    if missing or not sel:
        if isinstance(r, tuple) or r.rc != 1:
            raise Violation("missing %s, selected %s, but the run succeeded\n%s%r" % (missing, sel, ctx, r))
        m = re.search(r"symbols were not found:(.*)", r.err.decode("latin-1"))
        listed = m.group(1).split() if m else []
        if sorted(listed) != missing:
            raise Violation("missing names are %s, the message lists %s\n%s%r" % (missing, listed, ctx, r))
        return Result(labels + (["missing names"] if missing else ["nothing selected"]), True, sample=dict(names=names, options=opts, missing=missing))
    if not isinstance(r, tuple):
        raise Violation("selection refused\n%s%r" % (ctx, r))
    want = [f for f in allf if f[1] in sel], [o for o in allo if o[1] in sel]
    if P or S:  # the order of a filtered selection is not promised
        r, want = [sorted(x, key=lambda e: e[1]) for x in r], [sorted(x, key=lambda e: e[1]) for x in want]
    d = D.diff_meaning(r, want)
    if d:
        raise Violation("wrong selection: %s\n%s" % (d, ctx))
    proper = sel != set(names)
    return Result(labels + (["proper subset"] if proper else ["all selected"]), bool(P or S) and proper, sample=dict(names=names, options=opts, selected=sorted(sel)))
