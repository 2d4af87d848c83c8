"""C25: plugin loader."""
from hypothesis import strategies as st
from core import Violation, Result, InfraError
import rt

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated call histories and linker faults against the plugin header linked to a simulated dynamic linker; a reference model judges every step"
LEVEL_NOTE = ""
RULE = ("A case is a generated plugin header (1 to 40 symbols of any kind, prefixes, -separate or not, GDO_STATIC, C99 to C17, gcc or clang, with ASan/UBSan or with tracking of every allocated block) and a history of loads of up to 3 living lists of 0 to 30 names "
        "(libraries with random missing symbols, missing files, NULL, empty and repeated names, NULL lists) and releases, with fault patterns for dlopen, dlsym and dlclose. The name array is destroyed after every load; then every entry of every list is compared with what the linker answered for that entry, and at release the set of closed handles and the allocated blocks. "
        "Non-trivial: a list was loaded and an entry failed, lacked a symbol, was empty or was repeated.")
ASSUMPTIONS = ["memory allocation does not fail"]
BUDGET = {"quick": (2500, 28), "thorough": (100000, 1000)}
LANG, MACROS = "plugin", ("STATIC",)


def _build(a):
    env, s = a
    try:
        rt.build_plugin(env, s)
    except Violation:
        pass
    except InfraError as x:
        return str(x)


def prepare(env):
    env.use_gendlopen()
    k = 3 if env.tier == "thorough" else 1
    p = rt.collect(rt.shapes(LANG, macros=MACROS, lib=[None]), 20 * k, env.seed * 31 + 11)
    p += rt.collect(rt.shapes(LANG, big=True, macros=MACROS, lib=[None]), 3 * k, env.seed * 31 + 13)
    p.sort(key=lambda s: (len(s["ds"]), s["asan"]))
    env.cache["pool"] = p
    rt.build_shim(env)
    with rt.mp.get_context("fork").Pool(8) as pool:
        for e in pool.imap_unordered(_build, [(env, s) for s in p], 1):
            if e:
                raise InfraError(e)


def strategy(env):
    return st.sampled_from(env.cache["pool"]).flatmap(rt.plugin_script)


def check(env, case):
    rt.build_shim(env)
    exe = rt.build_plugin(env, case["shape"])
    r = rt.execute(env, case, exe)
    j = rt.judge_plugin(case, r)
    if j.bad:
        raise Violation("\n".join(m for a, m in j.bad[:8]) + "\n\nscript:\n" + "\n".join(x if len(x) < 400 else x[:400] + "..." for x in rt.script_text(case).split("\n")) + "\nlog:\n" + r.out.decode("utf-8", "replace")[-3000:] + r.err.decode("utf-8", "replace")[-1500:])
    nt = "loads" in j.labels and bool(j.labels & {"open-fails", "symbol-missing", "empty-entry", "same-name-twice"})
    s = case["shape"]
    return Result(sorted(j.labels), nt, sample=dict(symbols=rt.names(s), macros=s["macros"], libs=[[l[0][:40], l[1]] for l in case["libs"]], setup=case["setup"], body=[b[:80] for b in case["body"]]))
