"""C01: every supported declaration is extracted exactly, in every spelling."""
from hypothesis import strategies as st
from core import Violation, Result
import decl as D

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated declaration lists in every spelling, extraction through three output forms compared with a declaration model"
LEVEL_NOTE = "Every generated input agreed with the model; trusts the declaration model (lib/decl.py) and Hypothesis' generators. No claim beyond the inputs explored."
RULE = ("A case is a generated list of 1-60 declarations (functions, function pointers, objects, arrays) with random types, "
        "parameters and spelling (extern, superfluous parentheses, (*name()) forms, whitespace, missing last semicolon) in a "
        "random parameter mode; the tool's answer (custom template listing plus -print-symbols) is compared token by token "
        "with the declaration model, and with its answer for the canonical spelling. Non-trivial: at least two "
        "declarations or one with a non-canonical spelling, an array, or a function pointer.")
ASSUMPTIONS = ["declarations stay within the documented input language (no leading struct/union/enum/typedef)",
               "token-wise comparison: white space inside reported types is not significant"]
BUDGET = {"quick": (900, 30), "thorough": (20000, 1200)}


def prepare(env):
    env.use_gendlopen()


@st.composite
def strategy_(draw):
    cfg = D.text_cfg()
    size = draw(st.integers(0, 9))
    if size == 0:
        n = draw(st.sampled_from([20, 40, 60]))
        names = D.unique(["s%d_%s" % (i, x) for i, x in enumerate(draw(st.lists(D.ident(), min_size=n, max_size=n)))])
        ds = [draw(D.decl(cfg, x)) for x in names]
    else:
        ds = draw(D.decls(cfg, 1, 6))
    mode = draw(st.sampled_from(["read", "read", "skip", "create"]))
    ws = draw(st.lists(st.integers(0, len(D.SEPS) - 1), max_size=12))
    return dict(ds=ds, mode=mode, ws=ws, semi=draw(st.booleans()), file=draw(st.integers(0, 7)) == 0)


def strategy(env):
    return strategy_()


def check(env, case):
    ds, mode = case["ds"], case["mode"]
    named = mode != "create"
    text = D.render(ds, case["ws"], named=named, last_semi=case["semi"])
    want = D.meaning(ds, mode, named)
    opts = [] if mode == "read" else ["-param=" + mode]
    infile = None
    if case.get("file"):
        infile = env.path("in.h")
        with open(infile, "w", newline="") as f:
            f.write(text)
    got = D.observe(env, text.encode("latin-1"), opts, infile=infile)
    if not isinstance(got, tuple):
        raise Violation("supported input was refused\n%s\n%r" % (text, got))
    d = D.diff_meaning(got, want)
    if d:
        raise Violation("%s\ninput:\n%s" % (d, text))
    canon = D.render(ds, named=named, spell=False)
    labels = ["mode=" + mode, "n=" + ("1" if len(ds) == 1 else "2-9" if len(ds) < 10 else "10+")]
    if canon != text:
        got2 = D.observe(env, canon.encode("latin-1"), opts)
        if not isinstance(got2, tuple) or D.diff_meaning(got2, got):
            raise Violation("spelling changes the result\n%s\n%s\n%r" % (text, canon, got2))
    kinds = set()
    for x in ds:
        kinds.add("kind=" + x["k"])
        if x.get("par"):
            kinds.add("superfluous parentheses")
        if x["k"] == "func":
            if x.get("pp"):
                kinds.add("(*name()) requested")
            if not isinstance(x["p"], str) and any(p["k"] == "fp" for p in x["p"]):
                kinds.add("function pointer parameter")
            if not isinstance(x["p"], str) and any(p["k"] == "va" for p in x["p"]):
                kinds.add("variadic")
        if len(x["n"]) > 100:
            kinds.add("long name")
    nontrivial = len(ds) > 1 or canon != text or bool(kinds & {"kind=arr", "kind=fptr"})
    return Result(labels + sorted(kinds), nontrivial, sample=dict(input=text[:600], mode=mode))
