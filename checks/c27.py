"""C27: autoload."""
from hypothesis import strategies as st
from core import Violation, Result
import rt, wrapgen as W

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated histories of wrapper calls, explicit loads and frees with linker faults, run against a simulated dynamic linker whose libraries hold real functions; a reference model judges every linker call, message and status"
LEVEL_NOTE = ""
RULE = ("A case is a generated C or C++ header with eager or lazy autoload and a default library in any -library mode (also with format characters in its name), and a history of up to 12 wrapper calls with random argument values, explicit loads of other libraries, frees, single symbol loads, message callbacks; "
        "libraries lack random symbols or do not exist, dlopen, dlsym and atexit fail by pattern, dlsym may fail without a message. Configurations as in C26. Judged: which library is opened with which flags and when, which symbols are looked up, arguments and results, error text, status 1, and closing at exit. "
        "Non-trivial: a call loaded something or failed to.")
ASSUMPTIONS = ["dlclose() succeeds"]
BUDGET = {"quick": (2500, 28), "thorough": (100000, 1000)}


def prepare(env):
    env.use_gendlopen()
    k = 4 if env.tier == "thorough" else 1
    p = []
    for lang in ("c", "c++"):
        p += rt.collect(W.shapes(["ENABLE_AUTOLOAD", "ENABLE_AUTOLOAD_LAZY"], lang, lib=[x for x in rt.DFLT if x]), 24 * k, env.seed * 31 + len(lang))
    p.sort(key=lambda s: (len(s["ds"]), s["asan"]))
    env.cache["pool"] = p
    W.build_pool(env, p)


def strategy(env):
    return st.sampled_from(env.cache["pool"]).flatmap(W.c27_script)


def check(env, case):
    rt.build_shim(env)
    exe = W.build(env, case["shape"])
    r = rt.execute(env, case, exe)
    bad, labels = W.judge_c27(case, r)
    s = case["shape"]
    if bad:
        raise Violation("\n".join(bad[:8]) + "\n\nconfiguration: %r\ndeclarations:\n" % {k: v for k, v in s.items() if k != "ds"} + W.D.render(s["ds"], named=s.get("param") != "create", spell=False) +
                        "\nscript:\n" + rt.script_text(case) + "\nlog:\n" + r.out.decode("utf-8", "replace")[-3000:] + r.err.decode("utf-8", "replace")[-1500:])
    labels |= {s["lang"]} | ({"visibility"} if s.get("vis") else set()) | ({"separate"} if s["sep"] else set())
    return Result(sorted(labels), bool(labels & {"autoloaded", "fails"}), sample=dict(lang=s["lang"], symbols=rt.names(s), hooks=s["hooks"], macros=s["macros"], body=case["body"]))
