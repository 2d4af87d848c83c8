"""C30: the Win32 flavour."""
from hypothesis import strategies as st
from core import Violation, Result
import rt, winrt

ID = "C30"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated call histories with injected failures of the Win32 loader functions, run by the generated Win32 code compiled against a model of the Win32 API (narrow and wide), judged by the reference model of the loader rules"
LEVEL_NOTE = "The Win32 functions are a model written from their documentation: every successful call leaves a misleading last-error code behind. wchar_t has 32 bits here. MinGW and MSVC naming; not compiled by MSVC."
RULE = ("A case is a generated header of one of the five formats compiled as Win32 code (narrow or wide, single file or separate body, GDO_CONVERT_FILENAME or not) and a history of calls with libraries, missing symbols and fault patterns. After every "
        "step predicates, pointers, the calls made (function, backslash-only path, flags), the error text (system text or code of the failed call), paths up to and over the buffer size, and the number of system buffers not yet freed are compared "
        "with the model. Non-trivial: an operation failed, or a library was loaded from a path with forward slashes.")
ASSUMPTIONS = ["single-threaded use"]
BUDGET = {"quick": (2500, 30), "thorough": (100000, 1200)}


def pool(env):
    k = 3 if env.tier == "thorough" else 1
    p = []
    for i, (lang, n) in enumerate([("c", 8), ("c++", 6), ("minimal", 2), ("minimal-c++", 2), ("plugin", 4)]):
        p += rt.collect(winrt.shapes(lang), n * k, env.seed * 31 + 30 + 7 * i)
    for i, lang in enumerate(["c", "c++"]):
        p += rt.collect(winrt.auto_shapes(lang), 5 * k, env.seed * 31 + 90 + i)
    p.sort(key=lambda s: (s.get("auto", 0), s["lang"] not in ("c", "c++"), len(s["ds"]), s["asan"]))
    return p


def driver(shape, out):
    if shape.get("auto"):
        return winrt.auto_driver(shape, out)
    return {"plugin": rt.plugin_driver, "minimal": rt.minimal_driver, "minimal-c++": rt.minimal_driver}.get(shape["lang"], rt.driver_source)(shape, out)


def prepare(env):
    env.use_gendlopen()
    env.cache["pool"] = pool(env)
    winrt.build_shim(env)
    rt.build_pool(env, [s for s in env.cache["pool"] if s["lang"] != "plugin"], driver)


def script(s):
    if s.get("auto"):
        return winrt.auto_script(s)
    return {"c": winrt.c_script, "c++": winrt.cxx_script, "plugin": winrt.plugin_script}.get(s["lang"], winrt.minimal_script)(s)


def strategy(env):
    p = env.cache["pool"]
    main = st.sampled_from([s for s in p if s["lang"] in ("c", "c++") and not s.get("auto")]).flatmap(script)
    side = st.sampled_from([s for s in p if s["lang"] not in ("c", "c++") or s.get("auto")]).flatmap(script)
    return st.one_of(main, main, main, side)


def check(env, case):
    j, r = winrt.run_case(env, case)
    if j.bad:
        raise Violation("\n".join(m for a, m in j.bad[:8]) + "\n\nscript:\n" + "\n".join(x if len(x) < 400 else x[:400] + "..." for x in rt.script_text(case).split("\n")) + "\nlog:\n" + "\n".join(x[:400] for x in r.out.decode("utf-8", "replace").split("\n")[-40:]) + r.err.decode("utf-8", "replace")[-1500:])
    s = case["shape"]
    slash = any("2f" in l for l in case["body"]) and "state-changes" in j.labels
    nt = slash or bool(j.labels & {"open-fails", "close-fails", "close-fails-forced", "symbol-missing", "load-while-loaded", "unknown-symbol", "convert-fails", "path-unknown", "empty-name", "empty-entry", "auto-fails"})
    return Result(sorted(j.labels) + [s["lang"], "wide" if s["win"]["wide"] else "narrow"], nt,
                  sample=dict(lang=s["lang"], win=s["win"], sep=s["sep"], macros=s["macros"], libs=[[l[0][:40], l[1], l[2][:40]] for l in case["libs"]], setup=case["setup"], body=[b[:80] for b in case["body"]], end=case["end"]))
