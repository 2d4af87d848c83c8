"""C20: C loader state."""
from hypothesis import strategies as st
from core import Violation, Result
import rt

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated call histories and linker fault patterns against the generated C API linked to a simulated dynamic linker; a reference model of the documented rules judges every step"
LEVEL_NOTE = "The dynamic linker is simulated (ld --wrap); C21, C26 and C27 also use the real one."
RULE = ("A case is a generated header (1-6 symbols of any kind, sometimes 10-40, prefix, static, separate or wrapped configuration, gcc or clang, with ASan/UBSan or not), a set of libraries with random "
        "missing symbols, fault patterns for dlopen, dlclose, dlsym and atexit, and a history of up to 16 API calls. After every call the result, every pointer, all predicates and "
        "every linker call (name, flags, namespace, handle) are compared with the model, which only follows what the linker answered. Non-trivial: the loader state changed and at least one operation failed or was refused.")
ASSUMPTIONS = ["single-threaded use (documented nowhere otherwise)", "dlopen never returns a null handle on success"]
BUDGET = {"quick": (2500, 30), "thorough": (100000, 1200)}
FOCUS, ASPECTS = "state", {"state", "handle"}


def pool(env):
    k = 3 if env.tier == "thorough" else 1
    p = rt.collect(rt.shapes("c", macros=("STATIC", "WRAP_FUNCTIONS", "DISABLE_ALIASING")), 22 * k, env.seed * 31 + 20)
    p += rt.collect(rt.shapes("c", big=True, macros=("STATIC",)), 3 * k, env.seed * 31 + 21)
    p.sort(key=lambda s: (len(s["ds"]), s["asan"]))
    return p


def prepare(env):
    env.use_gendlopen()
    env.cache["pool"] = pool(env)
    rt.build_pool(env, env.cache["pool"])


def strategy(env):
    return st.sampled_from(env.cache["pool"]).flatmap(lambda s: rt.c_script(s, FOCUS, 16))


def judge(env, case, aspects):
    rt.build_shim(env)
    exe = rt.build(env, case["shape"])
    r = rt.execute(env, case, exe)
    j = rt.judge_c(case, r)
    bad = [m for a, m in j.bad if a in aspects]
    if bad:
        raise Violation("\n".join(bad[:8]) + "\n\nscript:\n" + "\n".join(x if len(x) < 400 else x[:400] + "..." for x in rt.script_text(case).split("\n")) + "\nlog:\n" + r.out.decode("utf-8", "replace")[-3000:] + r.err.decode("utf-8", "replace")[-1500:])
    return j


def sample(case):
    s = case["shape"]
    return dict(symbols=rt.names(s), pfx=s["pfx"], sep=s["sep"], macros=s["macros"], libs=[[l[0][:40], l[1], l[2][:40]] for l in case["libs"]], setup=case["setup"], body=[b[:80] for b in case["body"]], end=case["end"])


def check(env, case):
    j = judge(env, case, ASPECTS)
    nt = "state-changes" in j.labels and bool(j.labels & {"open-fails", "close-fails", "close-fails-forced", "symbol-missing", "load-while-loaded", "unknown-symbol"})
    return Result(sorted(j.labels) + ["syms=%s" % ("1" if len(j.ns) == 1 else "2-6" if len(j.ns) < 7 else "many")], nt, sample=sample(case))
