"""C26: wrapper functions."""
from hypothesis import strategies as st
from core import Violation, Result
import rt, wrapgen as W

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with an end-to-end round trip: generated signatures, hooks and argument values are sent through generated wrapper functions to real functions behind a simulated dynamic linker and compared on arrival, in the hook and on return"
LEVEL_NOTE = ""
RULE = ("A case is a generated C or C++ header with GDO_WRAP_FUNCTIONS (1 to 6 symbols; parameters and results of all scalar, pointer, array, function pointer, struct, union and enum types, up to 20 parameters, variadic functions with 9 kinds of extra arguments, "
        "hooks on random functions in both documented spellings, GDO_WRAP_VISIBILITY, GDO_STATIC, aliasing on or off, -param=read/create, -separate, gcc -O0 to -O2 and clang, C99 to C++20, sanitizers) and a history of loads, single symbol loads, frees, message callbacks and calls with random values, directly or through a function pointer. "
        "Non-trivial: at least one call went through with one or more arguments or a hook, or a call of an unloaded symbol was reported.")
ASSUMPTIONS = ["variadic arguments are of promotable types or trivially copyable", "the fallback macro for variadic functions without __builtin_va_arg_pack() may evaluate arguments twice if a hook uses them (documented limitation)"]
BUDGET = {"quick": (2500, 28), "thorough": (100000, 1000)}


def prepare(env):
    env.use_gendlopen()
    k = 4 if env.tier == "thorough" else 1
    p = []
    for lang in ("c", "c++"):
        p += rt.collect(W.shapes(["WRAP_FUNCTIONS"], lang), 24 * k, env.seed * 31 + len(lang))
    p.sort(key=lambda s: (len(s["ds"]), s["asan"]))
    env.cache["pool"] = p
    W.build_pool(env, p)


def strategy(env):
    return st.sampled_from(env.cache["pool"]).flatmap(W.c26_script)


def check(env, case):
    rt.build_shim(env)
    exe = W.build(env, case["shape"])
    r = rt.execute(env, case, exe)
    bad, labels = W.judge_c26(case, r)
    s = case["shape"]
    if bad:
        raise Violation("\n".join(bad[:8]) + "\n\nconfiguration: %r\ndeclarations:\n" % {k: v for k, v in s.items() if k != "ds"} + W.D.render(s["ds"], named=s.get("param") != "create", spell=False) +
                        "\nscript:\n" + rt.script_text(case) + "\nlog:\n" + r.out.decode("utf-8", "replace")[-3000:] + r.err.decode("utf-8", "replace")[-1500:])
    labels |= {s["lang"]} | ({"visibility"} if s.get("vis") else set()) | ({"separate"} if s["sep"] else set())
    return Result(sorted(labels), bool(labels & {"call", "not-loaded"}), sample=dict(lang=s["lang"], symbols=rt.names(s), hooks=s["hooks"], macros=s["macros"], body=case["body"]))
