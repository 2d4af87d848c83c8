"""Programs that call generated wrapper functions with generated argument values (C26, C27).

The "library" functions of the simulated linker are real functions here: they log every argument they
receive, return a generated value and log that too. The caller logs the arguments it passes and the
result it gets. The judge compares those texts and knows nothing else about the wrappers."""
import os, re, tempfile
from hypothesis import strategies as st
from core import Violation
import decl as D
import cgen, rt

SIGS = ["", "i", "d", "ipd", "sl", "c", "iiiiiiii", "dididididididi", "spsdl"]
VALUES = {"i": "(int)w_rnd(s + %d)", "d": "(double)(int)w_rnd(s + %d)", "p": "(const char *)(w_rnd(s + %d) | 1)", "l": "(long long)w_rnd(s + %d)", "s": "w_struct(s + %d)", "c": "(char)(w_rnd(s + %d) %% 100)"}
CT = {"i": "int", "d": "double", "p": "const char *", "l": "long long", "s": "struct my_s", "c": "char"}

LIB_H = """
#ifndef WLIB_H
#define WLIB_H
#include <stdarg.h>
#include "types.h"
#ifdef __cplusplus
extern "C" {
#endif
void shim_log(const char *fmt, ...);
unsigned long w_rnd(unsigned long seed);
void w_fill(char k, void *p, unsigned long n, unsigned long seed);
void w_note(char k, const void *p, unsigned long n);
void w_va(va_list ap);
struct my_s w_struct(unsigned long seed);
extern const char *w_sig;
extern char w_mem[1000];
#ifdef __cplusplus
}
#endif
#endif
"""

LIB_C = """
#include <string.h>
#include "wlib.h"
const char *w_sig = "";
char w_mem[1000];
unsigned long w_rnd(unsigned long x)
{
    x += 0x9E3779B97F4A7C15ul;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ul;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBul;
    return x ^ (x >> 31);
}
struct my_s w_struct(unsigned long seed)
{
    struct my_s s;
    memset(&s, 0, sizeof s);
    s.a = (int)w_rnd(seed);
    s.b = (double)(int)w_rnd(seed + 7);
    for (int i = 0; i < 3; i++) s.c[i] = (char)w_rnd(seed + 11 + (unsigned)i);
    return s;
}
void w_fill(char k, void *p, unsigned long n, unsigned long seed)
{
    float f; double d; long double l; struct my_s s; enum my_e e;
    switch (k) {
    case 'f': f = (float)(int)w_rnd(seed) / 8; memcpy(p, &f, sizeof f); return;
    case 'd': d = (double)(long)w_rnd(seed) / 8; memcpy(p, &d, sizeof d); return;
    case 'L': l = (long double)(long)w_rnd(seed) / 8; memcpy(p, &l, sizeof l); return;
    case 's': s = w_struct(seed); memcpy(p, &s, sizeof s); return;
    case 'e': e = (enum my_e)(w_rnd(seed) % 70001); memcpy(p, &e, sizeof e); return;
    default: for (unsigned long i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)(w_rnd(seed * 31 + i) >> 8);
    }
}
void w_note(char k, const void *p, unsigned long n)
{
    float f; double d; long double l; struct my_s s;
    switch (k) {
    case 'f': memcpy(&f, p, sizeof f); shim_log(" %a", (double)f); return;
    case 'd': memcpy(&d, p, sizeof d); shim_log(" %a", d); return;
    case 'L': memcpy(&l, p, sizeof l); shim_log(" %La", l); return;
    case 's': memcpy(&s, p, sizeof s); shim_log(" {%x/%a/%02x%02x%02x}", s.a, s.b, (unsigned char)s.c[0], (unsigned char)s.c[1], (unsigned char)s.c[2]); return;
    default:
        shim_log(" ");
        for (unsigned long i = 0; i < n; i++) shim_log("%02x", ((const unsigned char *)p)[i]);
    }
}
void w_va(va_list ap)
{
    for (const char *c = w_sig; *c; c++) {
        switch (*c) {
        case 'i': { int v = va_arg(ap, int); w_note('b', &v, sizeof v); break; }
        case 'c': { int v = va_arg(ap, int); w_note('b', &v, sizeof v); break; }
        case 'd': { double v = va_arg(ap, double); w_note('d', &v, sizeof v); break; }
        case 'p': { const char *v = va_arg(ap, const char *); w_note('b', &v, sizeof v); break; }
        case 'l': { long long v = va_arg(ap, long long); w_note('b', &v, sizeof v); break; }
        case 's': { struct my_s v = va_arg(ap, struct my_s); w_note('s', &v, sizeof v); break; }
        }
    }
}
static unsigned long retseed = 77;
"""


def kind(t):
    """how values of a type are made and compared"""
    s = set(t)
    if "*" in s:
        return "b"
    if "double" in s:
        return "L" if "long" in s else "d"
    if "float" in s:
        return "f"
    if s & {"my_struct", "my_s"}:
        return "s"
    if s & {"my_enum", "my_e"}:
        return "e"
    return "v" if "void" in s else "b"


def strip(t):
    """type tokens without qualifiers of the object itself"""
    k = max((i for i, x in enumerate(t) if x == "*"), default=-1)
    q = ("const", "volatile", "restrict", "__restrict")
    return t[:k + 1] + [x for x in t[k + 1:] if x not in q]


def var(p, name):
    """declaration of a variable that can hold the argument of parameter p"""
    if p["k"] == "arr":
        if len(p["d"]) == 1:
            return " ".join(p["t"] + ["*", name])
        return " ".join(p["t"]) + " (*%s)" % name + "".join("[%s]" % " ".join(x) for x in p["d"][1:])
    if p["k"] == "fp":
        return " ".join(D.param_tokens(dict(p, n=name)))
    return " ".join(strip(p["t"]) + [name])


def pkind(p):
    return "b" if p["k"] in ("arr", "fp") else kind(p["t"])


def params(d):
    ps = [" ".join(D.param_tokens(dict(p, n="u%d" % (k + 1)))) for k, p in enumerate(cgen.fparams(d))]
    if cgen.is_va(d):
        ps.append("...")
    return ", ".join(ps) or "void"


def notes(d, pre="u"):
    return " ".join("w_note('%s', (const void *)&%s%d, sizeof(%s%d));" % (pkind(p), pre, k + 1, pre, k + 1) for k, p in enumerate(cgen.fparams(d)))


def va_notes(d):
    n = len(cgen.fparams(d))
    return "va_list ap; va_start(ap, u%d); w_va(ap); va_end(ap);" % n if cgen.is_va(d) else ""


def lib_source(ds):
    t = LIB_C
    for lib in (0, 1):
        for i, d in enumerate(ds):
            if d["k"] != "func":
                continue
            k = kind(d["t"])
            ret = "" if k == "v" else "%s r; w_fill('%s', (void *)&r, sizeof r, retseed++); shim_log(\"RET\"); w_note('%s', (const void *)&r, sizeof r); shim_log(\"\\n\"); return r;" % (" ".join(strip(d["t"])), k, k)
            t += "%s lf_%d_%d(%s) { shim_log(\"CALL %d %d\"); %s %s shim_log(\"\\n\"); %s }\n" % (" ".join(d["t"]), lib, i, params(d), lib, i, notes(d), va_notes(d), ret)
    rows = "".join("case %d: return (void *)lf_%d_%d;\n" % (lib * 100 + i, lib, i) for lib in (0, 1) for i, d in enumerate(ds) if d["k"] == "func")
    return t + "void *shim_real(int lib, int sym) { switch (lib %% 2 * 100 + sym) { %s } return 0; }\n" % rows


def no_pack(shape):
    """the C wrappers of variadic functions are macros"""
    return shape["lang"] == "c" and (shape["clang"] or shape["opt"] == "-O0")


def hook_macros(shape):
    up, t = shape["pfx"].upper(), ""
    for i, d in enumerate(shape["ds"]):
        h = shape["hooks"][i] if d["k"] == "func" else 0
        if not h:
            continue
        names = [p["n"] for p in cgen.fparams(d)] if shape.get("param") != "create" else ["a%d" % (k + 1) for k in range(len(cgen.fparams(d)))]
        if h == 2 and not cgen.is_va(d):
            a = ", ".join(names)
        else:
            a = "__VA_ARGS__"
        t += "%svoid hook_%d(%s);\n" % (shape.get("hook_linkage", ""), i, params(d))
        t += "#define %s_HOOK_%s(...) hook_%d(%s)\n" % (up, d["n"], i, a)
    return t


COMMON = """
static unsigned long ptr(int i) { switch (i) { %(ptrs)s } return 0; }
static int num(int i) { switch (i) { %(nums)s default: return i; } }
static int cmdno, ev;
static void state(void) { shim_log("S "); for (int i = 0; i < shim_count; i++) shim_log("%%d", ptr(i) != 0); shim_log(" %%d\\n", (int)%(loaded)s); }
%(callers)s
static void do_call(int i, int mode, unsigned long s) { switch (i) { %(calls)s } }
"""
C_CB = """
static void cb(int c, char **v)
{
    int r = -1;
    shim_log("C %%d %%s\\n", cmdno++, v[0]);
    if (!strcmp(v[0], "n")) { char *f = shim_unhex(v[1]); r = %(l)s_load_lib_name(f); free(f); }
    else if (!strcmp(v[0], "ns")) { char *f = shim_unhex(v[1]); r = %(l)s_load_lib_name_and_symbols(f); free(f); }
#ifdef %(u)s_DEFAULT_LIB
    else if (!strcmp(v[0], "ll")) r = %(l)s_load_lib();
#endif
    else if (!strcmp(v[0], "fr")) r = %(l)s_free_lib();
    else if (!strcmp(v[0], "ff")) { %(l)s_force_free_lib(); r = 1; }
    else if (!strcmp(v[0], "ar")) r = %(l)s_enable_autorelease();
    else if (!strcmp(v[0], "la")) r = %(l)s_load_all_symbols();
    else if (!strcmp(v[0], "sy")) r = %(l)s_load_symbol(num(atoi(v[1])));
    else if (!strcmp(v[0], "call")) { do_call(atoi(v[1]), atoi(v[2]), strtoul(v[3], NULL, 10)); r = 1; }
    else if (!strcmp(v[0], "exit")) { shim_log("X\\n"); exit(atoi(v[1])); }
    (void)c;
    shim_log("R %%d\\n", r);
    state();
}
int main(void) { state(); shim_script(cb); shim_log("X\\n"); return 0; }
"""
CXX_CB = """
typedef %(l)s::dl Dl;
static Dl *o;
static void cb1(const char *m) { shim_log("MSG 1 %%s\\n", shim_hex(m)); }
static void cb2(const char *m) { shim_log("MSG 2 %%s\\n", shim_hex(m)); }
static void cb(int c, char **v)
{
    int r = -1;
    shim_log("C %%d %%s\\n", cmdno++, v[0]);
    if (!strcmp(v[0], "n")) { char *f = shim_unhex(v[1]); r = o->load(f); free(f); }
    else if (!strcmp(v[0], "ns")) { char *f = shim_unhex(v[1]); r = o->load(f) && o->load_all_symbols(); free(f); }
    else if (!strcmp(v[0], "ll")) r = %(dflt)s;
    else if (!strcmp(v[0], "fr")) r = o->free();
    else if (!strcmp(v[0], "ff")) r = o->free(true);
    else if (!strcmp(v[0], "ar")) r = 1;
    else if (!strcmp(v[0], "la")) r = o->load_all_symbols();
    else if (!strcmp(v[0], "sy")) r = o->load_symbol(num(atoi(v[1])));
    else if (!strcmp(v[0], "cb")) {
        int k = atoi(v[1]);
        Dl::message_callback(k == 0 ? NULL : k == 1 ? cb1 : cb2);
        r = Dl::message_callback() == cb1 ? 1 : Dl::message_callback() == cb2 ? 2 : Dl::message_callback() != NULL ? 0 : 9;
    }
    else if (!strcmp(v[0], "call")) { do_call(atoi(v[1]), atoi(v[2]), strtoul(v[3], NULL, 10)); r = 1; }
    else if (!strcmp(v[0], "exit")) { shim_log("X\\n"); exit(atoi(v[1])); }
    (void)c;
    shim_log("R %%d\\n", r);
    state();
}
int main(void) { o = new Dl(); state(); shim_script(cb); shim_log("X\\n"); return 0; }
"""


def callable_name(shape, d):
    """how a user calls the wrapper; None: not possible in this configuration"""
    up = shape["pfx"].upper()
    vis = shape.get("vis")
    if not shape["wrap"]:
        return up + "_RAWPTR_" + d["n"] if "DISABLE_ALIASING" in shape["macros"] else d["n"]
    if vis:
        if cgen.is_va(d) and no_pack(shape):
            return None
        return d["n"]
    if "DISABLE_ALIASING" in shape["macros"]:
        return up + "_WRAP_" + d["n"]
    return d["n"]


def caller(shape, i, d):
    k = kind(d["t"])
    name = callable_name(shape, d)
    if name is None:
        return "static void call_%d(int mode, unsigned long s) { (void)mode; (void)s; shim_log(\"SKIP\\n\"); }\n" % i
    ps = cgen.fparams(d)
    t = "static void call_%d(int mode, unsigned long s) {\n" % i
    if not shape["wrap"]:
        t += "  if (!ptr(%d)) { shim_log(\"SKIP\\n\"); return; }\n" % i
    for n, p in enumerate(ps):
        t += "  %s; w_fill('%s', (void *)&v%d, sizeof(v%d), s + %d);\n" % (var(p, "v%d" % (n + 1)), pkind(p), n + 1, n + 1, 100 * (n + 1))
    t += '  shim_log("ARGS"); %s\n' % notes(d, "v")
    once = ["(ev++, v%d)" % (n + 1) for n in range(len(ps))]
    plain = ["v%d" % (n + 1) for n in range(len(ps))]
    res = "" if k == "v" else "%s r; (void)r; " % " ".join(strip(d["t"]))
    asg = "" if k == "v" else "r = "
    end = "" if k == "v" else "shim_log(\"RES\"); w_note('%s', (const void *)&r, sizeof r); shim_log(\"\\n\");" % k
    if cgen.is_va(d):
        t += "  switch (mode) {\n"
        for n, sig in enumerate(SIGS):
            xs = ["x%d" % m for m in range(len(sig))]
            decls = "".join("%s x%d = %s; " % (CT[c], m, VALUES[c] % (5000 + 13 * m)) for m, c in enumerate(sig))
            sn = "".join(("{ int y = x%d; w_note('b', &y, sizeof y); } " % m if c == "c" else "w_note('%s', (const void *)&x%d, sizeof x%d); " % ({"d": "d", "s": "s"}.get(c, "b"), m, m)) for m, c in enumerate(sig))
            args = plain + xs if shape["hooks"][i] and no_pack(shape) else once + ["(ev++, %s)" % x for x in xs]
            t += "  case %d: { %s w_sig = \"%s\"; %s shim_log(\"\\n\"); ev = 0; %s%s%s(%s); shim_log(\"EV %%d %d\\n\", ev); %s break; }\n" % (
                n, decls, sig, sn, res, asg, name, ", ".join(args), 0 if args[:1] == plain[:1] else len(args), end)
        t += "  }\n"
    else:
        tp = "auto" if shape["lang"] == "c++" else "__typeof__(&%s)" % name
        t += "  shim_log(\"\\n\"); ev = 0;\n"
        if shape["wrap"]:
            t += "  if (mode %% 2) { %s fp = &%s; %s%sfp(%s); shim_log(\"EV %%d %d\\n\", ev); %s }\n" % (tp, name, res, asg, ", ".join(once), len(once), end)
            t += "  else\n"
        t += "  { %s%s%s(%s); shim_log(\"EV %%d %d\\n\", ev); %s }\n" % (res, asg, name, ", ".join(once), len(once), end)
    return t + "}\n"


def driver(shape, out):
    up, lo = shape["pfx"].upper(), shape["pfx"].lower()
    ns, ds = rt.names(shape), shape["ds"]
    cxx = shape["lang"] == "c++"
    d = dict(l=lo, u=up,
             ptrs=" ".join("case %d: return (unsigned long)%s_RAWPTR_%s;" % (i, up, n) for i, n in enumerate(ns)),
             nums=" ".join("case %d: return %s_LOAD_%s;" % (i, up, n) for i, n in enumerate(ns)),
             loaded="%s::dl::lib_loaded()" % lo if cxx else "%s_lib_is_loaded()" % lo,
             callers="".join(caller(shape, i, x) for i, x in enumerate(ds) if x["k"] == "func"),
             calls=" ".join("case %d: call_%d(mode, s); break;" % (i, i) for i, x in enumerate(ds) if x["k"] == "func"),
             dflt="-1" if not shape["lib"] else "o->load(%s_DEFAULT_LIB)" % up)
    hooks = ""
    for i, x in enumerate(ds):
        if x["k"] == "func" and shape["hooks"][i]:
            hooks += "void hook_%d(%s) { shim_log(\"HOOK %d\"); %s %s shim_log(\"\\n\"); }\n" % (i, params(x), i, notes(x), va_notes(x))
    t = rt.pre_macros(shape) + wrap_macros(shape) + '#include "wlib.h"\n' + hook_macros(shape) + '#include "%s"\n' % out
    return t + rt.DRIVER_HEAD + rt.names_table(shape) + hooks + COMMON % d + (CXX_CB if cxx else C_CB) % d


def wrap_macros(shape):
    up = shape["pfx"].upper()
    t = "#define %s_%s\n" % (up, shape["wrap"])
    if shape.get("vis"):
        t += "#define %s_WRAP_VISIBILITY %s\n" % (up, shape["vis"])
    return t


def generate(env, shape, d):
    out = rt.generate(env, shape, d)
    with open(d + "/wlib.h", "w") as f:
        f.write(LIB_H)
    return out


def build(env, shape):
    o = os.path.join(env.root, "wl-%s.o" % rt.shape_hash(shape["ds"]))
    if not os.path.exists(o):
        with tempfile.TemporaryDirectory(dir=env.root) as d:
            with open(d + "/types.h", "w") as f:
                f.write(D.TYPES_H)
            with open(d + "/wlib.h", "w") as f:
                f.write(LIB_H)
            with open(d + "/l.c", "w") as f:
                f.write(lib_source(shape["ds"]))
            r = rt.run(["gcc", "-std=gnu17", "-O1", "-w", "-c", d + "/l.c", "-o", d + "/l.o"])
            if r.rc != 0:
                raise rt.InfraError("wrapper library: %r" % r)
            os.rename(d + "/l.o", o)
    return rt.build(env, dict(shape, body_pre=wrap_macros(shape), wrapgen=1), driver, gen=generate, extra=[o])


def build_one(a):
    env, s = a
    try:
        build(env, s)
    except Violation:
        pass
    except rt.InfraError as x:
        return str(x)


def build_pool(env, pool):
    rt.build_shim(env)
    with rt.mp.get_context("fork").Pool(8) as p:
        for e in p.imap_unordered(build_one, [(env, s) for s in pool], 1):
            if e:
                raise rt.InfraError(e)


@st.composite
def shapes(draw, wraps, lang, lib=None):
    s = draw(rt.shapes(lang, kinds=("func", "func", "func", "func", "obj"), lib=lib, macros=("STATIC", "DISABLE_ALIASING", "DISABLE_WARNINGS")))
    s["wrap"] = draw(st.sampled_from(wraps))
    s["hooks"] = [draw(st.sampled_from([0, 1, 1, 2])) for _ in s["ds"]]
    s["param"] = draw(st.sampled_from([None, None, "create"]))
    if draw(st.booleans()):
        s["opt"] = "-O2"
    if not s["sep"] and draw(st.integers(0, 4)) == 0:
        s["vis"] = draw(st.sampled_from(['__attribute__((visibility("default")))', "static"] + (['extern "C"'] if lang == "c++" else [])))
    if not any(d["k"] == "func" for d in s["ds"]):
        s["ds"].append(dict(k="func", t=["int"], n="zqlast", p=[dict(k="obj", t=["int"], n="val"), dict(k="va")]))
        s["hooks"].append(1)
    return s


class Ev:
    def __init__(self, name):
        self.name, self.ev, self.r, self.s = name, [], None, None

    def get(self, *k):
        return [e for e in self.ev if e[0] in k]


def parse(out):
    cur = Ev("start")
    cmds, end = [cur], None
    for line in out.decode("utf-8", "replace").split("\n"):
        if not line:
            continue
        t = line.split(" ")
        if end is not None:
            end.append(t)
        elif t[0] == "C":
            cur = Ev(t[2])
            cmds.append(cur)
        elif t[0] == "R":
            cur.r = int(t[1])
        elif t[0] == "S":
            cur.s = t[1:]
        elif t[0] == "X":
            end = []
        elif t[0] == "D":
            cur.ev.append(t[1:])
        else:
            cur.ev.append(t)
    return cmds, end


def judge_call(shape, c, i, lib, fail):
    """the hook and the call of a wrapper that went through"""
    d = shape["ds"][i]
    seq = [e for e in c.ev if e[0] in ("ARGS", "HOOK", "CALL", "RET", "RES", "EV")]
    want = ["ARGS"] + (["HOOK"] if shape["hooks"][i] else []) + ["CALL"] + (["RET"] if kind(d["t"]) != "v" else []) + ["EV"] + (["RES"] if kind(d["t"]) != "v" else [])
    if [e[0] for e in seq] != want:
        return fail("%s: expected the events %s, got %r" % (d["n"], want, seq))
    by = {e[0]: e[1:] for e in seq}
    if by["CALL"][:2] != [str(lib), str(i)]:
        fail("%s: reached function %s of library %s" % (d["n"], by["CALL"][1], by["CALL"][0]))
    if by["CALL"][2:] != by["ARGS"]:
        fail("%s: passed %r, the library received %r" % (d["n"], by["ARGS"], by["CALL"][2:]))
    if "HOOK" in by and (by["HOOK"][0] != str(i) or by["HOOK"][1:] != by["ARGS"]):
        fail("%s: passed %r, the hook received %r" % (d["n"], by["ARGS"], by["HOOK"]))
    if "RET" in by and by["RET"] != by["RES"]:
        fail("%s: the library returned %r, the caller got %r" % (d["n"], by["RET"], by["RES"]))
    if by["EV"][1] != "0" and by["EV"][0] != by["EV"][1]:
        fail("%s: %s evaluations of %s arguments" % (d["n"], by["EV"][0], by["EV"][1]))


@st.composite
def c26_script(draw, shape):
    ds = shape["ds"]
    fs = [i for i, d in enumerate(ds) if d["k"] == "func"]
    libs = [["liba.so", "1" * len(ds), "/a.so"], ["libb.so", "".join(draw(st.sampled_from("1110")) for _ in ds) , "/b.so"]]
    body = []
    if draw(st.integers(0, 7)) > 0:
        body.append("n " + rt.hexs(draw(st.sampled_from(["liba.so", "liba.so", "libb.so"]))))
        body.append(draw(st.sampled_from(["la", "la", "la", "sy %d" % draw(st.sampled_from(fs))])))
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.integers(0, 19))
        if k < 14:
            body.append("call %d %d %d" % (draw(st.sampled_from(fs)), draw(st.integers(0, len(SIGS) - 1)), draw(st.integers(0, 10 ** 9))))
        elif k == 14:
            body.append(draw(st.sampled_from(["fr", "ff"])))
        elif k == 15:
            body += [draw(st.sampled_from(["fr", "ff"])), "ns " + rt.hexs(draw(st.sampled_from(["liba.so", "libb.so"])))]
        elif k == 16:
            body.append("sy %d" % draw(st.sampled_from(fs)))
        elif shape["lang"] == "c++" and k < 19:
            body.append("cb %d" % draw(st.integers(0, 2)))
        else:
            body.append("ns " + rt.hexs(draw(st.sampled_from(["liba.so", "libb.so"]))))
    return dict(shape=shape, libs=libs, maps=None, setup=[], body=body, end="exit 0")


def judge_c26(case, r):
    sh = case["shape"]
    ds = sh["ds"]
    bad, labels = [], set()
    cmds, end = parse(r.out)
    script = ["start"] + case["body"] + [case["end"]]
    if r.rc == 88 or b"Sanitizer" in r.err or b"runtime error" in r.err:
        return ["sanitizer report: %r" % r], labels
    err = r.err.decode("utf-8", "replace")
    lib, cbk = None, 0
    died = False
    prev = cmds[0].s
    for n, c in enumerate(cmds):
        a = script[n].split()
        def fail(m):
            bad.append("command %d (%s): %s" % (n, script[n][:80], m))
        for e in c.get("dlopen"):
            lib = [l[0] for l in case["libs"]].index(rt.unhex(e[1]))
        if n == 0:
            continue
        if a[0] == "cb":
            if c.r != int(a[1]):
                fail("the message callback is %d" % c.r)
            cbk = int(a[1])
        if a[0] == "exit":
            continue
        if a[0] == "call":
            i = int(a[1])
            if c.get("SKIP"):
                labels.add("not-callable")
            elif prev[0][i] == "1":
                if c.get("dlopen", "dlmopen", "dlsym", "dlclose", "MSG"):
                    fail("a loaded function was called, but also: %r" % c.ev)
                judge_call(sh, c, i, lib % 2, fail)
                labels |= {"call", "variadic" if cgen.is_va(ds[i]) else "fixed"}
                if sh["hooks"][i]:
                    labels.add("hook")
            else:
                labels |= {"not-loaded", "symbol-not-loaded" if prev[1] == "1" else "library-not-loaded"}
                what = "symbol not loaded" if prev[1] == "1" else "library not loaded"
                if c.r is not None or r.rc != -6:
                    fail("a function that is not loaded was called and the program went on (status %s)" % r.rc)
                if [e for e in c.ev if e[0] not in ("ARGS", "MSG")]:
                    fail("a function that is not loaded was called, but the program did: %r" % c.ev)
                m = [rt.unhex(e[2]) for e in c.get("MSG")]
                if cbk:
                    if [e[1] for e in c.get("MSG")] != [str(cbk)] or err:
                        fail("the message callback %d should get the message; calls %r, stderr %r" % (cbk, c.get("MSG"), err))
                    labels.add("callback")
                else:
                    if m:
                        fail("message callback %r was called" % c.get("MSG"))
                    m = [err.strip("\n")]
                if len(m) == 1 and (not re.search(r"(?<!\w)%s(?!\w)" % re.escape(ds[i]["n"]), m[0]) or what not in m[0] or "\n" in m[0]):
                    fail("the message %r does not name the symbol %r and the reason %r" % (m, ds[i]["n"], what))
                died = True
                break
        if c.r is None:
            fail("the program died (status %s)\n%r" % (r.rc, r.err[-500:]))
            return bad, labels
        prev = c.s
    if not died and (r.rc != 0 or end is None or err):
        bad.append("the program ended with status %s, stderr %r" % (r.rc, err[-300:]))
    return bad, labels


@st.composite
def c27_script(draw, shape):
    ds = shape["ds"]
    fs = [i for i, d in enumerate(ds) if d["k"] == "func"]
    dn = rt.dflt_name(shape["lib"])
    libs = draw(rt.libraries(shape, dflt=False))[:2]
    libs = [l for l in libs if l[0] != dn]
    k = draw(st.integers(0, 7))
    bits = ["1"] * len(ds)
    if k == 0:
        bits = [draw(st.sampled_from("01")) for _ in ds]
    elif k in (1, 2):
        bits[draw(st.integers(0, len(ds) - 1))] = "0"
    if k != 3:
        libs.insert(draw(st.integers(0, len(libs))), [dn, "".join(bits), "/usr/lib/dflt.so"])
    setup = []
    for f in ("open", "sym", "atexit"):
        if draw(st.integers(0, 7)) == 0:
            setup.append("faults %s %s" % (f, "".join(draw(st.lists(st.sampled_from("0001" if f != "atexit" else "0111"), min_size=1, max_size=10)))))
    if draw(st.integers(0, 3)) == 0:
        setup.append("nulls 1")
    body = []
    pick = st.sampled_from([l[0] for l in libs] + [dn, "nosuch.so", ""])
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.integers(0, 19))
        if k < 11:
            body.append("call %d %d %d" % (draw(st.sampled_from(fs)), draw(st.integers(0, len(SIGS) - 1)), draw(st.integers(0, 10 ** 9))))
        elif k < 13:
            body.append(draw(st.sampled_from(["fr", "ff"])))
        elif k < 15:
            body.append("%s %s" % (draw(st.sampled_from(["n", "ns"])), rt.hexs(draw(pick))))
        elif k == 15:
            body.append(draw(st.sampled_from(["la", "sy %d" % draw(st.integers(0, len(ds) - 1))])))
        elif k == 16:
            body.append(draw(st.sampled_from(["ll", "ar"])))
        elif k == 17:
            body.append("stale")
        elif shape["lang"] == "c++":
            body.append("cb %d" % draw(st.integers(0, 2)))
        else:
            body.append("ar")
    return dict(shape=shape, libs=libs, maps=None, setup=setup, body=body, end=draw(st.sampled_from(["exit 0", "exit 3", "end"])))


def judge_c27(case, r):
    sh = case["shape"]
    ds, ns = sh["ds"], rt.names(sh)
    dn = rt.dflt_name(sh["lib"])
    lazy = sh["wrap"] == "ENABLE_AUTOLOAD_LAZY"
    bad, labels = [], {"lazy" if lazy else "eager"}
    cmds, end = parse(r.out)
    script = ["start"] + [b for b in case["body"] if b.split()[0] not in ("stale", "faults")] + [case["end"]]
    if r.rc == 88 or b"Sanitizer" in r.err or b"runtime error" in r.err:
        return ["sanitizer report: %r" % r], labels
    err = r.err.decode("utf-8", "replace")
    lib, cbk, auto, died = None, 0, False, False
    openh, reg = set(), sh["lang"] == "c++"
    prev = cmds[0].s
    for n, c in enumerate(cmds):
        a = script[n].split()
        def fail(m):
            bad.append("command %d (%s): %s" % (n, script[n][:80], m))
        for e in c.ev:
            if "BAD" in e:
                fail("bad call of the dynamic linker: %r" % e)
            if e[0] == "dlopen" and e[3] != "0":
                lib = [l[0] for l in case["libs"]].index(rt.unhex(e[1]))
                openh.add(e[3])
            elif e[0] == "dlclose":
                openh.discard(e[1])
            elif e[0] == "atexit":
                reg = reg or e[1] == "1"
                labels.add("atexit" if e[1] == "1" else "atexit-fails")
        if n == 0 or a[0] in ("exit", "end"):
            continue
        if a[0] == "cb":
            cbk = int(a[1])
        if a[0] == "call" and c.get("SKIP"):
            labels.add("not-callable")
        elif a[0] == "call":
            i = int(a[1])
            o, sy = c.get("dlopen", "dlmopen"), c.get("dlsym")
            if prev[0][i] == "1":
                if o or sy or c.get("dlclose", "MSG"):
                    fail("a loaded function was called, but also: %r" % c.ev[:5])
                judge_call(sh, c, i, lib % 2, fail)
                labels.add("call-again")
            else:
                auto = True
                if prev[1] == "1":
                    labels.add("library-was-loaded")
                    if o:
                        fail("a library was loaded already, but another was opened: %r" % o)
                    ok = True
                else:
                    if len(o) != 1 or o[0][0] != "dlopen" or rt.unhex(o[0][1]) != dn or int(o[0][2]) != rt.default_flags(sh):
                        fail("expected one dlopen(%r, %d), got %r" % (dn, rt.default_flags(sh), o))
                        return bad, labels
                    ok = o[0][3] != "0"
                    if not ok:
                        labels.add("open-fails")
                missing = []
                if ok:
                    got = {}
                    for e in sy:
                        got[rt.unhex(e[2])] = e[3] != "0"
                        if e[3] == "0":
                            missing.append(rt.unhex(e[2]))
                    if lazy and set(got) != {ns[i]}:
                        fail("lazy: looked up %r instead of %r" % (sorted(got), ns[i]))
                    if not lazy and not missing and set(got) | {x for j, x in enumerate(ns) if prev[0][j] == "1"} != set(ns):
                        fail("eager: looked up %r instead of %r" % (sorted(got), ns))
                    if missing:
                        labels.add("symbol-missing")
                        ok = False
                elif sy:
                    fail("symbols were looked up though no library could be opened")
                if ok:
                    judge_call(sh, c, i, lib % 2, fail)
                    labels.add("autoloaded")
                    if c.s is not None:
                        want = "".join("1" if (j == i or not lazy) else prev[0][j] for j in range(len(ns)))
                        if c.s[0] != want or c.s[1] != "1":
                            fail("loaded symbols are %s (library %s), expected %s" % (c.s[0], c.s[1], want))
                else:
                    labels.add("fails")
                    if c.r is not None or r.rc != 1 or end is not None:
                        fail("loading failed, but the program went on or ended with status %s instead of 1" % r.rc)
                    if c.get("CALL", "HOOK", "RES"):
                        fail("loading failed, but the program did: %r" % c.ev)
                    m = [rt.unhex(e[2]) for e in c.get("MSG")]
                    if cbk:
                        if [e[1] for e in c.get("MSG")] != [str(cbk)] or err:
                            fail("the message callback %d should get the message; calls %r, stderr %r" % (cbk, c.get("MSG"), err))
                    else:
                        if m:
                            fail("message callback %r was called" % c.get("MSG"))
                        m = [err.rstrip("\n")]
                    for x in ([ns[i]] + missing[:1]):
                        if len(m) == 1 and not re.search(r"(?<!\w)%s(?!\w)" % re.escape(x), m[0]):
                            fail("the message %r does not name the symbol %r" % (m[0], x))
                    if len(m) == 1 and dn not in m[0]:
                        fail("the message %r does not name the library %r" % (m[0], dn))
                    died = True
                    break
        if c.r is None:
            fail("the program died (status %s)\n%r" % (r.rc, r.err[-500:]))
            return bad, labels
        prev = c.s
    if not died:
        want = {"exit 0": 0, "exit 3": 3, "end": 0}[case["end"]]
        if r.rc != want or end is None or err:
            bad.append("the program ended with status %s, stderr %r" % (r.rc, err[-300:]))
        for e in end or []:
            if e[:2] == ["D", "dlclose"]:
                if "BAD" in e:
                    bad.append("at exit: %r" % e)
                openh.discard(e[2])
            else:
                bad.append("unexpected at exit: %r" % e)
    # the program frees the library itself when it gives up, or else the exit handler does
    if auto and openh and (reg or died):
        bad.append("%r is not closed at exit" % sorted(openh))
    if auto and not died:
        labels.add("closed-at-exit")
    return bad, labels
