"""C22: C++ loader class."""
from hypothesis import strategies as st
from core import Violation, Result
import rt

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated histories over several gdo::dl objects with linker faults against a simulated dynamic linker, and over real libraries; a reference model of the documented rules judges state, texts, paths and object lifetimes after every step"
LEVEL_NOTE = "Static, heap and main-scoped objects; C++11 to C++20, gcc and clang, with and without sanitizers."
RULE = ("A case is a generated C++ header (single file or separate body) and a history of up to 18 operations on up to 4 living dl objects (constructors, load with explicit or default flags and namespace, repeated loads, symbols, "
        "free, forced free, destructor switch, destruction, paths, make_libname) with libraries with random missing symbols and fault patterns. After every step the predicates through every object, every pointer, every "
        "object's filename, flags, destructor switch and error text (read twice) and every linker call are compared with the model. Non-trivial: the loader state changed and an operation failed or several objects were alive.")
ASSUMPTIONS = ["single-threaded use"]
BUDGET = {"quick": (2500, 30), "thorough": (100000, 1200)}
ASPECTS = {"state", "handle", "error", "path", "object", "exit", "single"}


def pool(env, n=20):
    k = 3 if env.tier == "thorough" else 1
    p = rt.collect(rt.shapes("c++", macros=("WRAP_FUNCTIONS", "DISABLE_ALIASING")), n * k, env.seed * 31 + 22)
    p += rt.collect(rt.shapes("c++", big=True), 2 * k, env.seed * 31 + 23)
    p.sort(key=lambda s: (len(s["ds"]), s["asan"]))
    return p


def prepare(env):
    env.use_gendlopen()
    env.cache["pool"] = pool(env)
    rt.build_pool(env, env.cache["pool"])
    env.cache["real"] = [dict(s, asan=False) for s in env.cache["pool"] if len(s["ds"]) < 7][:4]
    for s in env.cache["real"][:1]:
        rt.build_real(env, s)


def strategy(env):
    sim = st.sampled_from(env.cache["pool"]).flatmap(lambda s: rt.cxx_script(s, "state", 18))
    real = st.sampled_from(env.cache["real"]).flatmap(lambda s: rt.real_script(s, "0"))
    return st.one_of(sim, sim, sim, sim, sim, sim, sim, real)


def judge(env, case, aspects):
    rt.build_shim(env)
    exe = rt.build(env, case["shape"])
    r = rt.execute(env, case, exe)
    j = rt.judge_cxx(case, r)
    bad = [m for a, m in j.bad if a in aspects]
    if bad:
        raise Violation("\n".join(bad[:8]) + "\n\nscript:\n" + "\n".join(x if len(x) < 400 else x[:400] + "..." for x in rt.script_text(case).split("\n")) + "\nlog:\n" + r.out.decode("utf-8", "replace")[-3000:] + r.err.decode("utf-8", "replace")[-1500:])
    return j


def sample(case):
    s = case["shape"]
    return dict(symbols=rt.names(s), pfx=s["pfx"], sep=s["sep"], libs=[[l[0][:40], l[1], l[2][:40]] for l in case["libs"]], setup=case["setup"], body=[b[:80] for b in case["body"]], end=case["end"])


def check(env, case):
    if case.get("real"):
        exe = rt.build_real(env, case["shape"])
        bad, labels, r = rt.judge_real(env, case, exe)
        if bad:
            raise Violation("\n".join(m for a, m in bad[:8]) + "\n%r" % (case["body"],))
        return Result(["real"] + sorted(labels), bool(labels), sample=dict(real=True, body=case["body"]))
    j = judge(env, case, ASPECTS)
    nt = "state-changes" in j.labels and bool(j.labels & {"open-fails", "close-fails", "close-fails-forced", "symbol-missing", "load-while-loaded", "unknown-symbol", "several-objects"})
    return Result(sorted(j.labels), nt, sample=sample(case))
