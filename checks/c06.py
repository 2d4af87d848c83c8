"""C06: parameter modes read, create and skip are faithful."""
from hypothesis import strategies as st
from core import Violation, Result
import decl as D

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: the three parameter modes compared with the declaration model on generated inputs"
LEVEL_NOTE = 'Trusts the declaration model; named, unnamed and mixed parameters, function pointers and arrays.'
RULE = ("A case is a list of functions with generated parameter lists (plain, pointers, multi-dimensional arrays, function pointers with nested "
        "function pointers and arrays, variadic, empty, (void) in any letter case). The same lists are given named (read), unnamed (create) and "
        "partly named (skip); argument lists and name lists are compared with the model, and the complete generated file of 'create' on the "
        "unnamed list must equal that of 'read' on the list named a1, a2, ... in a random output format. Non-trivial: at least one function "
        "with two parameters, an array, a function pointer or an ellipsis.")
ASSUMPTIONS = ["create mode is specified for unnamed lists (named function pointer parameters are renamed)"]
BUDGET = {"quick": (1000, 30), "thorough": (20000, 1200)}
FMTS = ["c", "c++", "minimal", "minimal-c++", "plugin"]


def prepare(env):
    env.use_gendlopen()


@st.composite
def strategy_(draw):
    cfg = D.text_cfg()
    ds = draw(D.decls(cfg, 1, 5, kinds=("func", "func", "func", "func", "obj")))
    return dict(ds=ds, ws=draw(st.lists(st.integers(0, len(D.SEPS) - 1), max_size=8)), mask=draw(st.lists(st.booleans(), min_size=1, max_size=6)),
                fmt=draw(st.sampled_from(FMTS)), sep=draw(st.booleans()), upper=draw(st.integers(0, 2)), fpnames=draw(st.booleans()))


def strategy(env):
    return strategy_()


def explicit(env):
    for n in (0, 1, 9, 10, 11, 99, 100, 101, 150):
        for va in (0, 1):
            ps = [[dict(k="obj", t=["int"], n="p%d" % i), dict(k="arr", t=["char", "*"], n="p%d" % i, d=[["4"], ["2"]]),
                   dict(k="fp", t=["void"], n="p%d" % i, p=[["int", "(", "*", ")", "(", "int", ",", "char", ")"], ["..."]])][i % 3] for i in range(n)]
            if va:
                ps.append(dict(k="va"))
            yield dict(ds=[dict(k="func", n="f", ext=False, par=0, t=["int"], p=ps, pp=0, whole=0)], ws=[], mask=[True, False, False], fmt=FMTS[n % 5],
                       sep=False, upper=0, fpnames=bool(va))


def mode_arg(m, up):
    return "-param=" + [m, m.upper(), m.capitalize()][up]


def check(env, case):
    ds, ws, up = case["ds"], case["ws"], case["upper"]
    labels = set()

    def obs(text, mode, want, what):
        got = D.observe(env, text.encode("latin-1"), [mode_arg(mode, up)])
        if not isinstance(got, tuple):
            raise Violation("%s: refused in mode %s\n%s\n%r" % (what, mode, text, got))
        d = D.diff_meaning(got, want)
        if d:
            raise Violation("%s, mode %s: %s\n%s" % (what, mode, d, text))
    named = D.render(ds, ws)
    # read is also the default
    obs(named, "read", D.meaning(ds, "read"), "named list")
    got = D.observe(env, named.encode("latin-1"), [])
    if not isinstance(got, tuple) or D.diff_meaning(got, D.meaning(ds, "read")):
        raise Violation("default mode differs from read\n%s\n%r" % (named, got))
    unnamed = D.render(ds, ws, named=False)
    obs(unnamed, "create", D.meaning(ds, "create", False), "unnamed list")
    # skip: any mixture of named and unnamed parameters passes through unchanged
    mixed, k = [], 0
    for d in ds:
        d = dict(d)
        if d["k"] == "func" and not isinstance(d["p"], str):
            ps = []
            for p in d["p"]:
                m = case["mask"][k % len(case["mask"])]
                k += 1
                if not m and p["k"] == "obj":
                    ps.append(dict(k="raw", toks=D.param_tokens(p, False)))
                elif not m and p["k"] in ("arr", "fp"):
                    ps.append(dict(k="raw", toks=D.param_tokens(p, False)))
                else:
                    ps.append(p)
            d["p"] = ps
        mixed.append(d)
    obs(D.render(mixed, ws), "skip", D.meaning(mixed, "skip"), "mixed list")
    # named function pointers in create mode are renamed
    if case["fpnames"]:
        fp = []
        for d in ds:
            d = dict(d)
            if d["k"] == "func" and not isinstance(d["p"], str):
                d["p"] = [p if p["k"] in ("fp", "va") else dict(k="raw", toks=D.param_tokens(p, False)) for p in d["p"]]
            fp.append(d)
        obs(D.render(fp, ws), "create", D.meaning(ds, "create", False), "list with named function pointers")
        labels.add("named function pointers in create mode")
    # whole output: create(unnamed) == read(named a1, a2, ..)
    an = []
    for d in ds:
        d = dict(d)
        if d["k"] == "func" and not isinstance(d["p"], str):
            c, ps = 0, []
            for p in d["p"]:
                if p["k"] != "va":
                    c += 1
                    p = dict(p, n="a%d" % c)
                ps.append(p)
            d["p"] = ps
        an.append(d)
    opts = ["-", "-no-date", "-format=" + case["fmt"]]
    a = env.gdo(opts + [mode_arg("create", up)], stdin=unnamed.encode("latin-1"))
    b = env.gdo(opts, stdin=D.render(an, ws).encode("latin-1"))
    if a.rc or b.rc:
        raise Violation("refused: %r\n%r" % (a, b))
    if a.out != b.out:
        la, lb = a.out.decode("latin-1").split("\n"), b.out.decode("latin-1").split("\n")
        dl = [(x, y) for x, y in zip(la, lb) if "".join(x.split()) != "".join(y.split())][:3]
        if dl or len(la) != len(lb):
            raise Violation("create on unnamed differs from read on a1, a2..: %s\n%s" % (dl, unnamed))
    nt = False
    for d in ds:
        if d["k"] != "func":
            continue
        if isinstance(d["p"], str):
            labels.add("(void)")
            continue
        ks = [p["k"] for p in d["p"]]
        for x in ks:
            labels.add("param=" + x)
        if not ks:
            labels.add("empty list")
        if len(ks) > 1 or set(ks) - {"obj"}:
            nt = True
        if len(ks) >= 9:
            labels.add("9+ parameters")
    return Result(sorted(labels), nt, sample=dict(unnamed=unnamed[:400]))
