"""C13: -separate output links and shares one loader between units."""
import os, shutil
from hypothesis import strategies as st
from core import Violation, Result
import decl as D
import rt, seprt as S

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated symbol sets, configurations and call histories spread over generated numbers of translation units, differential against the single-file output, with agreement of all units as an invariant of the history"
LEVEL_NOTE = ""
RULE = ("A case is a symbol set (1 to 5 functions of any signature, objects, arrays, function pointers), a format (C, C++, plugin), one to four units (C++ of any standard; for the C formats gnu99 to gnu17, also with gnu89 inlining, mixed with C++17), prefix, "
        "wrapper and autoload modes, visible wrappers, hooks, -param, aliasing, -line, guard kind, output name, header included once or twice, settings given to gendlopen, in front of the include or to the compiler, link order, gcc or clang, "
        "sanitizers - and a history of loads, symbol loads, frees, calls, callback changes and linker faults, each done by a random unit. The pair and one more unit that only includes the header must compile, link, and after every step every unit must report the same library, handle, symbols and error, "
        "and the whole log must equal that of the program built from the single file. Other cases run formats and outputs that ignore -separate with and without it: the output must be byte-identical. "
        "Non-trivial: two units or more and something was loaded, or an ignored -separate.")
ASSUMPTIONS = ["the settings are the same in the body and in every unit", "GDO_STATIC is not combined with -separate"]
BUDGET = {"quick": (4000, 26), "thorough": (60000, 900)}


def prepare(env):
    env.use_gendlopen()
    k = 8 if env.tier == "thorough" else 1
    p = []
    for i, (lang, n) in enumerate((("c", 22), ("c++", 14), ("plugin", 6))):
        p += rt.collect(S.shapes(lang), n * k, env.seed * 37 + i)
    p.sort(key=lambda s: (len(s["ds"]), s["n"], s["asan"]))
    env.cache["pool"] = p
    S.build_pool(env, p)


@st.composite
def ignored(draw):
    import cgen
    fmt = draw(st.sampled_from(["minimal", "minimal-c++", "c", "c++", "plugin"]))
    s = dict(ds=draw(cgen.decls(False, 1, 4)))
    out = draw(st.sampled_from(["-", None])) if not fmt.startswith("minimal") else draw(st.sampled_from(["-", None, "x.h", "x", "sub/x.hpp", "x.c", "."[:0] + "x.y.z"]))
    opts = []
    for o in ("-line", "-no-pragma-once", "-prefix=Ab", "-library=api:1:z", "-DAA=1", "-include=q.h", "-param=skip", "-param=read"):
        if draw(st.integers(0, 3)) == 0:
            opts.append(o)
    return dict(ignored=True, ds=s["ds"], fmt=fmt, out=out, opts=opts, pos=draw(st.booleans()))


def strategy(env):
    sim = st.sampled_from(env.cache["pool"]).flatmap(S.script)
    return st.one_of(sim, sim, sim, sim, sim, sim, sim, ignored())


def check_ignored(env, case):
    res = []
    for sep in ([], ["-separate"]):
        d = env.path("ign")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/sub")
        a = ["-no-date", "-format=" + case["fmt"]] + (["-out=" + case["out"]] if case["out"] else []) + case["opts"]
        a = sep + a if case["pos"] else a + sep
        r = env.gdo(a + ["-"], stdin=D.render(case["ds"], named=True, spell=False).encode(), cwd=d)
        files = {os.path.join(p, f)[len(d) + 1:]: open(os.path.join(p, f), "rb").read() for p, _, fs in os.walk(d) for f in fs}
        res.append((r.rc, r.out, r.err, files))
        shutil.rmtree(d)
    x, y = res
    if x[0] != 0 or (len(x[3]) != (0 if case["out"] in (None, "-") else 1)):
        raise Violation("%r: %r files %r" % (case, x[:3], list(x[3])))
    if x != y:
        raise Violation("-separate is not ignored: %r\nfiles without it %r, with it %r; status %r, %r" % ({k: v for k, v in case.items() if k != "ds"}, list(x[3]), list(y[3]), x[0], y[0]))
    return Result(["ignored", "ignored-" + case["fmt"]], True, sample={k: v for k, v in case.items() if k != "ds"})


def check(env, case):
    if case.get("ignored"):
        return check_ignored(env, case)
    rt.build_shim(env)
    s = case["shape"]
    try:
        exes = S.build(env, s)
    except Violation as x:
        raise Violation("%s\nconfiguration: %r\n%s" % (x, {k: v for k, v in s.items() if k != "ds"}, D.render(s["ds"], named=s.get("param") != "create", spell=False)))
    r = [rt.execute(env, case, e) for e in exes]
    bad, labels = S.judge(case, *r)
    if bad:
        raise Violation("\n".join(bad[:4]) + "\n\nconfiguration: %r\ndeclarations:\n" % {k: v for k, v in s.items() if k != "ds"} + D.render(s["ds"], named=s.get("param") != "create", spell=False) +
                        "\nscript:\n" + "\n".join(x[:300] for x in rt.script_text(case).split("\n")) + "\nstderr: " + r[0].err.decode("utf-8", "replace")[-800:])
    return Result(sorted(labels), s["n"] > 1 and bool(labels & {"loaded", "called"}), sample=dict(lang=s["lang"], units=s["n"], symbols=rt.names(s), wrap=s["wrap"], body=[b[:80] for b in case["body"]]))
