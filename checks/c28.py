"""C28: single-symbol loading."""
from hypothesis import strategies as st
from core import Violation, Result
import rt, c20, c22, cgen, random

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated symbol sets that share prefixes, names close to real ones, and call histories against a simulated dynamic linker; membership in the symbol list is the oracle"
LEVEL_NOTE = "C and C++ loaders; the minimal and plugin formats have no single-symbol loading."
RULE = ("A case is a generated header in C or C++ (1 to 40 symbols with random common prefixes, one being a prefix of another, names that differ in one character or in case only) and a history of up to 20 calls of load by value and "
        "by name, with exact names, and prefixes, extensions, case changes, one-character edits, splices of two names, the common prefix, NULL, empty and overlong names, and values outside of the list. "
        "Every lookup, result, pointer and error text is judged. Non-trivial: a real symbol was loaded by name or value and a near-miss was refused, or more than one symbol exists.")
ASSUMPTIONS = ["symbol names are C identifiers"]
BUDGET = {"quick": (2500, 30), "thorough": (100000, 1200)}
ASPECTS = {"single"}


@st.composite
def name_sets(draw):
    """names that are easily mixed up"""
    stem = draw(st.sampled_from(["zq", "zqlib_", "Zq_x_", "_zq", "z1_", "zqlib_", "zq", "zq" + "_long" * 14, "zq" + "Long_" * 55]))
    base = [stem + x for x in draw(st.lists(st.text("abAB_1", min_size=1, max_size=5), min_size=1, max_size=draw(st.sampled_from([2, 4, 12]))))]
    res = list(base)
    for b in base:
        k = draw(st.integers(0, 7))
        if k == 0:
            res.append(b + draw(st.sampled_from("ab_1")))
        elif k == 1:
            res.append(b[:-1])
        elif k == 2:
            res.append(b.swapcase())
        elif k == 3:
            res.append(b[:len(b) // 2] + draw(st.sampled_from("abZ_")) + b[len(b) // 2 + 1:])
        elif k == 4:
            res.append(b + "_" + b)
        elif k == 5:
            res.append(stem)
        elif draw(st.integers(0, 2)) == 0:
            # alike but for the end, and of the same length
            n = draw(st.sampled_from([30, 32, 63, 64, 127, 250, 255, 256]))
            res += [b + "l" * n + x for x in draw(st.lists(st.sampled_from("abAB_1"), min_size=2, max_size=3, unique=True))]
    return list(dict.fromkeys(x for x in res if x and not x[0].isdigit() and x not in ("_", "__") and "gdo" not in x.lower() and x not in ("asm",)))


def pool(env):
    out = []
    for lang, n in (("c", 16), ("c++", 9)):
        k = 3 if env.tier == "thorough" else 1
        shapes = rt.collect(rt.shapes(lang, max_syms=2, macros=("STATIC",)), n * k, env.seed * 31 + 28 + len(lang))
        sets = rt.collect(name_sets(), n * k, env.seed * 31 + 128 + len(lang))
        for s, ns in zip(shapes, sets):
            ds = [dict(k="func", t=["int"], n=x, p="void") if i % 3 else dict(k="obj", t=["long"], n=x) for i, x in enumerate(ns)]
            out.append(dict(s, ds=[dict(dict(ext=False, par=0, pp=0, whole=0), **d) for d in ds]))
    out.sort(key=lambda s: (len(s["ds"]), s["asan"], s["lang"]))
    return out


def prepare(env):
    env.use_gendlopen()
    env.cache["pool"] = pool(env)
    rt.build_pool(env, env.cache["pool"])


def strategy(env):
    return st.sampled_from(env.cache["pool"]).flatmap(lambda s: rt.c_script(s, "single", 20) if s["lang"] == "c" else rt.cxx_script(s, "single", 20))


def check(env, case):
    j = (c20 if case["shape"]["lang"] == "c" else c22).judge(env, case, ASPECTS)
    hit = any(b.split()[0] in ("sy", "sn") for b in case["body"])
    nt = hit and ("unknown-symbol" in j.labels or len(j.ns) > 1) and "state-changes" in j.labels
    return Result(sorted(j.labels) + [case["shape"]["lang"], "syms=%d" % min(len(j.ns), 10)], nt, sample=c20.sample(case))
