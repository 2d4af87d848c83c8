"""Inputs whose generated code is compiled: safe names, reference declarations for type comparison,
compiler command lines."""
import os, re
from hypothesis import strategies as st
from core import CLANG, CLANGXX
import decl as D

RESERVED = set("""gdo GDO info filename flags path msg load sym symbol handle symbol_num new_namespace force buf len pfx curr curr_len pfxlen
ptr list num plug files i fmt str name api convert cb std dl wrap args Types true false bool NULL stdin errno""".split())


@st.composite
def names(draw, min_size=1, max_size=5, stem="zq", api=True):
    """symbol names that clash with nothing of the compiler, C library or generated code"""
    k = draw(st.integers(0, 3))
    pf = [stem, stem + "_", stem + "Foo", stem.upper(), stem + "_bar_"]
    if k == 0:
        pf = [draw(st.sampled_from(pf))]
    l = draw(st.lists(D.ident(tuple(pf), 8), min_size=min_size, max_size=max_size))
    return D.unique(l)


def decl_of(cfg, kinds=("func", "func", "func", "obj", "arr", "fptr")):
    @st.composite
    def f(draw, n):
        return draw(D.decl(cfg, n, kinds))
    return f


@st.composite
def decls(draw, cxx_too, min_size=1, max_size=5, kinds=("func", "func", "func", "obj", "arr", "fptr"), stem="zq"):
    """declarations that compile in C, and in C++ too with cxx_too"""
    cfg = dict(D.c_cfg(cxx_too), many=True)
    ns = draw(names(min_size, max_size, stem))
    ds = [draw(D.decl(cfg, n, kinds)) for n in ns]
    syms = set(ns)
    for d in ds:
        if d["k"] == "func" and not isinstance(d["p"], str):
            for p in d["p"]:
                if p["k"] != "va" and (p["n"] in RESERVED or p["n"] in syms and p["n"] != d["n"] or re.match(r"_?gdo_|my_|MY_|size_t|wchar_t|a\d+$|u\d+$", p["n"], re.I)):
                    p["n"] = "q_" + p["n"]
    for d in ds:
        if d["k"] == "func" and not isinstance(d["p"], str):
            # C++ cannot copy volatile classes
            for p in d["p"]:
                if p["k"] == "obj" and "*" not in p["t"] and set(p["t"]) & {"my_struct", "my_union", "my_s", "my_u"}:
                    p["t"] = [x for x in p["t"] if x != "volatile"]
            # unique again after the renaming
            nm = D.unique([p["n"] for p in d["p"] if p["k"] != "va"])
            j = 0
            for p in d["p"]:
                if p["k"] != "va":
                    p["n"] = nm[j]
                    j += 1
            if all(p["k"] == "va" for p in d["p"]):
                d["p"] = []
    return ds


def is_va(d):
    return d["k"] == "func" and not isinstance(d["p"], str) and any(p["k"] == "va" for p in d["p"])


def fparams(d):
    return [] if isinstance(d.get("p"), str) else [p for p in d["p"] if p["k"] != "va"]


def ref_decl(d, name):
    """the declaration of d under another name, without parameter names and without extern"""
    e = dict(d, n=name)
    return " ".join(D.decl_tokens(e, named=False, spell=False))


def user_function(d, i, expr):
    """a function that takes the parameters of function d and hands them to expr(...)"""
    ps, args = [], []
    for k, p in enumerate(fparams(d)):
        q = dict(p, n="u%d" % (k + 1))
        ps.append(" ".join(D.param_tokens(q)))
        args.append("u%d" % (k + 1))
    if is_va(d):
        args += ["1", "2.5", '"x"']
    void = d["t"] == ["void"]
    return "%s use_%d(%s) { %s%s(%s); }" % (" ".join(d["t"]), i, ", ".join(ps) or "void", "" if void else "return ", expr, ", ".join(args))


def comp(cxx, clang, std, opt="-O0"):
    if cxx:
        return [CLANGXX if clang else "g++", "-std=" + std, opt]
    return [CLANG if clang else "gcc", "-std=" + std, opt]
