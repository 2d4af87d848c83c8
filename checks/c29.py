"""C29: release at exit."""
from hypothesis import strategies as st
from core import Violation, Result
import rt, c20, c22

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated histories with failing registrations and closes, ended by return, exit and _exit, against a simulated dynamic linker; the closes seen at the end are compared with a model"
LEVEL_NOTE = "C (autorelease) and C++ (destructors of static, automatic and heap objects)."
RULE = ("A case is a generated C or C++ header and a history of up to 16 loads, frees (also failing ones), symbol loads and autorelease registrations (failing a generated number of times) respectively constructions, destructions and "
        "switches of the destructor behaviour, followed by return from main, exit(n) or _exit. Every close during the history and after its end is judged. "
        "Non-trivial: a library was loaded at some time and autorelease was enabled or failed to be, or a destructor ran.")
ASSUMPTIONS = ["single-threaded use"]
BUDGET = {"quick": (2500, 30), "thorough": (100000, 1200)}
ASPECTS = {"exit", "handle"}


def prepare(env):
    env.use_gendlopen()
    k = 3 if env.tier == "thorough" else 1
    p = rt.collect(rt.shapes("c", max_syms=3, macros=("STATIC", "WRAP_FUNCTIONS")), 12 * k, env.seed * 31 + 29) + rt.collect(rt.shapes("c++", max_syms=3), 10 * k, env.seed * 31 + 30)
    p.sort(key=lambda s: (len(s["ds"]), s["asan"], s["lang"]))
    env.cache["pool"] = p
    rt.build_pool(env, p)


def strategy(env):
    return st.sampled_from(env.cache["pool"]).flatmap(lambda s: rt.c_script(s, "exit", 16) if s["lang"] == "c" else rt.cxx_script(s, "exit", 16))


def check(env, case):
    j = (c20 if case["shape"]["lang"] == "c" else c22).judge(env, case, ASPECTS)
    l = j.labels
    nt = "state-changes" in l and bool(l & {"reg", "atexit-fails", "destructor-frees", "destructor-disabled", "end-frees"})
    lab = sorted(l) + [case["shape"]["lang"], "end=" + case["end"].split()[0]]
    if "end-loaded" in l and ("reg" in l or "end-frees" in l):
        lab.append("released-at-end")
    return Result(lab, nt, sample=c20.sample(case))
