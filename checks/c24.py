"""C24: minimal C++ loader."""
from hypothesis import strategies as st
from core import Violation, Result
import rt, json

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated call histories and linker faults against the minimal C++ header linked to a simulated dynamic linker; a reference model judges every step"
LEVEL_NOTE = ""
RULE = ("A case is a generated minimal C++ header (1 to 40 symbols of any kind, prefixes, C++11 to C++20, gcc or clang, with ASan/UBSan or not) and a history of up to 12 loads (libraries with random missing "
        "symbols, missing files, NULL and empty names, loads while loaded) and frees with fault patterns for dlopen, dlsym and dlclose. After every call the exception type and text, the handle, every pointer and every linker call are judged. "
        "Non-trivial: at least one load reached the dynamic linker and one failed, or a load while loaded.")
ASSUMPTIONS = ["single-threaded use"]
BUDGET = {"quick": (2500, 28), "thorough": (100000, 1000)}
LANG, MACROS = "minimal-c++", ("DISABLE_ALIASING",)


def make_pool(env, lang, macros, n=20):
    k = 3 if env.tier == "thorough" else 1
    p = rt.collect(rt.shapes(lang, macros=macros, lib=[None]), n * k, env.seed * 31 + len(lang))
    p += rt.collect(rt.shapes(lang, big=True, macros=macros, lib=[None]), 3 * k, env.seed * 31 + 7 + len(lang))
    p.sort(key=lambda s: (len(s["ds"]), s["asan"]))
    return p


def prepare_for(env, lang, macros):
    env.use_gendlopen()
    env.cache["pool"] = make_pool(env, lang, macros)
    rt.build_pool(env, env.cache["pool"], rt.minimal_driver)


def prepare(env):
    prepare_for(env, LANG, MACROS)


def strategy(env):
    return st.sampled_from(env.cache["pool"]).flatmap(rt.minimal_script)


def check(env, case):
    rt.build_shim(env)
    exe = rt.build(env, case["shape"], rt.minimal_driver)
    r = rt.execute(env, case, exe)
    j = rt.judge_minimal(case, r)
    if j.bad:
        raise Violation("\n".join(m for a, m in j.bad[:8]) + "\n\nscript:\n" + "\n".join(x if len(x) < 400 else x[:400] + "..." for x in rt.script_text(case).split("\n")) + "\nlog:\n" + r.out.decode("utf-8", "replace")[-3000:] + r.err.decode("utf-8", "replace")[-1500:])
    nt = bool(j.labels & {"loaded", "symbol-missing"}) and bool(j.labels & {"symbol-missing", "open-fails", "empty-name", "load-while-loaded"})
    s = case["shape"]
    return Result(sorted(j.labels), nt, sample=dict(symbols=rt.names(s), macros=s["macros"], libs=[[l[0][:40], l[1]] for l in case["libs"]], setup=case["setup"], body=[b[:80] for b in case["body"]]))
