"""C21: C loader error text and library path."""
from hypothesis import strategies as st
from core import Violation, Result
import rt, c20

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated call histories with linker faults against a simulated dynamic linker with unique messages and a simulated process map, and against real libraries; a reference model decides which texts and paths are truthful"
LEVEL_NOTE = "Where neither the dynamic linker nor the process map tells an absolute path, the relative name the linker gives is accepted."
RULE = ("A case is a generated C header and a history of up to 16 calls rich in failing operations, error and path queries, with messages of 10 to 15000 characters, failures without any message, stale messages "
        "of other users of the linker, libraries with absolute, relative, overlong and odd paths, failing dlinfo/dladdr and generated /proc/self/maps contents; or a history on real libraries in a scratch tree with chdir, "
        "relative names, symlinks and library search paths. After every call the error text (read twice) and every path are judged. Non-trivial: at least one operation failed or a path was reported.")
ASSUMPTIONS = ["single-threaded use"]
BUDGET = {"quick": (2500, 30), "thorough": (100000, 1200)}
ASPECTS = {"error", "path"}


def prepare(env):
    env.use_gendlopen()
    env.cache["pool"] = c20.pool(env)
    rt.build_pool(env, env.cache["pool"])
    env.cache["real"] = [dict(s, asan=False) for s in env.cache["pool"] if len(s["ds"]) < 7][:8]
    for s in env.cache["real"][:1]:
        rt.build_real(env, s)


def strategy(env):
    sim = st.sampled_from(env.cache["pool"]).flatmap(lambda s: rt.c_script(s, "error", 16))
    real = st.sampled_from(env.cache["real"]).flatmap(lambda s: rt.real_script(s))
    return st.one_of(sim, sim, sim, sim, real)


def check(env, case):
    if case.get("real"):
        exe = rt.build_real(env, case["shape"])
        bad, labels, r = rt.judge_real(env, case, exe)
        bad = [m for a, m in bad if set(a.split()) & ASPECTS]
        if bad:
            raise Violation("\n".join(bad[:8]) + "\n%r" % (case["body"],))
        return Result(["real"] + sorted(labels), bool(labels), sample=dict(real=True, body=case["body"]))
    j = c20.judge(env, case, ASPECTS)
    nt = bool(j.labels & {"open-fails", "close-fails", "symbol-missing", "load-while-loaded", "unknown-symbol", "path", "path-unknown", "atexit-fails"})
    return Result(sorted(j.labels), nt, sample=c20.sample(case))
