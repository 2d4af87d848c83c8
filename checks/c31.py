"""C31: the flavours for other systems with dlopen()."""
from hypothesis import strategies as st
from core import Violation, Result, InfraError
import rt, platrt, winrt

ID = "C31"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated call histories with linker faults, run by the code that other systems get (AIX, macOS, Android, musl, BSDs, Solaris, dlfcn-win32) against a simulated linker and models of their own functions, judged by the reference model of the loader rules"
LEVEL_NOTE = "The systems are simulated through their predefined macros and models of loadquery() and GetModuleFileName(); compiled by gcc and clang on Linux."
RULE = ("A case is a system, a generated header of one of the five formats compiled as the code for that system, and a history of calls with libraries, missing symbols, fault patterns, odd and overlong paths, archive members and generated lists of loaded "
        "modules (order, sections, adjacent and empty neighbours). After every step predicates, pointers, calls made (function, name, flags), error texts, library paths, versioned names and default libraries are compared with the model of that system. "
        "Non-trivial: an operation failed, or a library path was asked for.")
ASSUMPTIONS = ["single-threaded use"]
BUDGET = {"quick": (2500, 28), "thorough": (100000, 1200)}


def pool(env):
    k = 3 if env.tier == "thorough" else 1
    p = []
    for i, plat in enumerate(sorted(platrt.PLATS)):
        for m, (lang, n) in enumerate([("c", 2), ("c++", 2)]):
            if plat in ("aix", "dlfcnwin", "linux6.11"):
                n += 2
            p += rt.collect(platrt.shapes(lang, plat), n * k, env.seed * 31 + 300 + 17 * i + m)
    for m, lang in enumerate(["minimal", "minimal-c++", "plugin"]):
        for i, plat in enumerate(["aix", "dlfcnwin", "macos"]):
            p += rt.collect(platrt.shapes(lang, plat), 1 * k, env.seed * 31 + 600 + 17 * i + m)
    for i, plat in enumerate(["aix", "dlfcnwin", "dlfcnwin-mingw", "macos", "musl"]):
        for m, lang in enumerate(["c", "c++"]):
            n = 3 if plat.startswith("dlfcnwin") else 1
            p += rt.collect(platrt.auto_shapes(lang, plat), n * k, env.seed * 31 + 800 + 17 * i + m)
    p.sort(key=lambda s: (s["lang"] not in ("c", "c++"), len(s["ds"]), s["asan"]))
    return p


def driver(shape, out):
    if shape.get("auto"):
        return winrt.auto_driver(shape, out)
    return {"minimal": rt.minimal_driver, "minimal-c++": rt.minimal_driver}.get(shape["lang"], rt.driver_source)(shape, out)


def prepare(env):
    env.use_gendlopen()
    env.cache["pool"] = pool(env)
    rt.build_pool(env, [s for s in env.cache["pool"] if s["lang"] != "plugin"], driver)


def strategy(env):
    p = env.cache["pool"]
    main = st.sampled_from([s for s in p if s["lang"] in ("c", "c++") and not s.get("auto")]).flatmap(platrt.script)
    side = st.sampled_from([s for s in p if s["lang"] not in ("c", "c++") or s.get("auto")]).flatmap(platrt.script)
    return st.one_of(main, main, main, main, side)


def check(env, case):
    rt.build_shim(env)
    j, r = platrt.run_case(env, case)
    s = case["shape"]
    if j.bad:
        raise Violation("(%s) " % s["plat"] + "\n".join(m for a, m in j.bad[:8]) + "\n\nscript:\n" + "\n".join(x if len(x) < 400 else x[:400] + "..." for x in rt.script_text(case).split("\n")) + "\nlog:\n" + "\n".join(x[:400] for x in r.out.decode("utf-8", "replace").split("\n")[-40:]) + r.err.decode("utf-8", "replace")[-1500:])
    nt = bool(j.labels & {"open-fails", "close-fails", "close-fails-forced", "symbol-missing", "load-while-loaded", "unknown-symbol", "path", "path-unknown", "empty-name", "empty-entry", "same-name-twice", "auto-fails"})
    return Result(sorted(j.labels) + [s["lang"], "plat=" + s["plat"]], nt,
                  sample=dict(lang=s["lang"], system=s["plat"], sep=s["sep"], macros=s["macros"], libs=[[l[0][:40], l[1], l[2][:40]] for l in case["libs"]], setup=case["setup"], body=[b[:80] for b in case["body"]], end=case["end"]))
