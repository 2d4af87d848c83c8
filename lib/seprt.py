"""Programs of several translation units that share one header/body pair written with -separate (C13), and the
program of one translation unit made from the single-file output, which does the same with the same commands."""
import os, re, shutil
from hypothesis import strategies as st
from core import Violation, InfraError, run
import decl as D
import cgen, rt, wrapgen as W

# -out names and the pair they make (without the language's extension)
OUTS = [("gen.h", "gen"), ("gen", "gen"), ("gen.hpp", "gen"), ("gen.c", "gen"), ("a.b.txt", "a.b"), (".hid", ".hid"), ("gen.", "gen"), ("sub/g-1.h", "sub/g-1"), ("sub/x y.H", "sub/x y"), ("./d.d/gen", "./d.d/gen"), ("../up/g.cpp", "../up/g"), ("sub/" + "n" * 150 + ".h", "sub/" + "n" * 150)]

EXTERN = """
#ifdef __cplusplus
# define XC extern "C"
#else
# define XC extern
#endif
XC int shim_handle(void *p);
XC int shim_sym(int i, void *p);
"""

COMMON = """
static unsigned long ptr(int i) { switch (i) { %(ptrs)s } return 0; }
static int num(int i) { switch (i) { %(nums)s default: return i; } }
static int ev;
%(callers)s
static void do_call(int i, int mode, unsigned long s) { switch (i) { %(calls)s } }
static void syms(void)
{
    int i; for (i = 0; i < shim_count; i++) shim_log(" %%d", shim_sym(i, (void *)ptr(i)));
    %(objs)s
}
"""

C_UNIT = """
static void report(int k)
{
    shim_log("U %%d %%d%%d%%d%%d", k, (int)%(l)s_lib_is_loaded(), (int)%(l)s_all_symbols_loaded(), (int)%(l)s_no_symbols_loaded(), (int)%(l)s_any_symbol_loaded());
    syms();
    shim_log(" %%s\\n", shim_hex(%(l)s_last_error()));
}
static int op(int k, int c, char **v)
{
    int r = -1;
    (void)c; (void)k;
    if (!strcmp(v[0], "n")) { char *f = shim_unhex(v[1]); r = %(l)s_load_lib_name(f); free(f); }
    else if (!strcmp(v[0], "ns")) { char *f = shim_unhex(v[1]); r = %(l)s_load_lib_name_and_symbols(f); free(f); }
    else if (!strcmp(v[0], "a")) { char *f = shim_unhex(v[1]); r = %(l)s_load_lib_args(f, atoi(v[2]), atoi(v[3]) != 0); free(f); }
#ifdef %(u)s_DEFAULT_LIB
    else if (!strcmp(v[0], "ll")) r = %(l)s_load_lib();
    else if (!strcmp(v[0], "ls")) r = %(l)s_load_lib_and_symbols();
#endif
    else if (!strcmp(v[0], "fr")) r = %(l)s_free_lib();
    else if (!strcmp(v[0], "ff")) { %(l)s_force_free_lib(); r = 1; }
    else if (!strcmp(v[0], "ar")) r = %(l)s_enable_autorelease();
    else if (!strcmp(v[0], "la")) r = %(l)s_load_all_symbols();
    else if (!strcmp(v[0], "sy")) r = %(l)s_load_symbol(num(atoi(v[1])));
    else if (!strcmp(v[0], "si")) r = %(l)s_load_symbol(atoi(v[1]));
    else if (!strcmp(v[0], "sn")) { char *f = shim_unhex(v[1]); r = %(l)s_load_symbol_name(f); free(f); }
    else if (!strcmp(v[0], "lp")) { const char *p = %(l)s_library_path(); shim_log("P %%s\\n", shim_hex(p)); r = p != NULL; }
    else if (!strcmp(v[0], "call")) { do_call(atoi(v[1]), atoi(v[2]), strtoul(v[3], NULL, 10)); r = 1; }
    return r;
}
"""

CXX_UNIT = """
typedef %(l)s::dl Dl;
static Dl *objs[8];
static void msgcb(const char *m) { shim_log("MSG %%s\\n", shim_hex(m)); }
static void report(int k)
{
    shim_log("U %%d %%d", k, (int)Dl::lib_loaded());
    syms();
#if defined(%(u)s_WRAP_FUNCTIONS) || defined(%(u)s_ENABLE_AUTOLOAD)
    static void (*dflt)(const char *) = NULL;
    if (!dflt) dflt = Dl::message_callback();
    shim_log(" cb%%d", Dl::message_callback() != dflt);
#endif
    if (objs[k]) {
        const Dl &o = *objs[k];
        shim_log(" | %%d%%d%%d %%d %%d %%s", (int)o.all_symbols_loaded(), (int)o.no_symbols_loaded(), (int)o.any_symbol_loaded(), o.flags(), (int)o.free_lib_in_dtor(), shim_hex(o.filename().c_str()));
        shim_log(" %%s", shim_hex(o.error().c_str()));
    }
    shim_log("\\n");
}
static int op(int k, int c, char **v)
{
    int r = -1, n = c - 2;
    if (!strcmp(v[0], "new")) { delete objs[k]; objs[k] = NULL; objs[k] = new Dl(); return 1; }
    if (!strcmp(v[0], "newf")) {
        char *f = shim_unhex(v[1]);
        delete objs[k];
        objs[k] = NULL;
        if (n <= 0) objs[k] = new Dl(f);
        else if (n == 1) objs[k] = new Dl(f, atoi(v[2]));
        else objs[k] = new Dl(f, atoi(v[2]), atoi(v[3]) != 0);
        free(f);
        return 1;
    }
#if defined(%(u)s_WRAP_FUNCTIONS) || defined(%(u)s_ENABLE_AUTOLOAD)
    if (!strcmp(v[0], "cb")) { Dl::message_callback(atoi(v[1]) ? msgcb : NULL); return 1; }
#endif
    if (!strcmp(v[0], "call")) { do_call(atoi(v[1]), atoi(v[2]), strtoul(v[3], NULL, 10)); return 1; }
    if (!objs[k]) return -2;
    Dl &o = *objs[k];
    if (!strcmp(v[0], "del")) { delete objs[k]; objs[k] = NULL; r = 1; }
    else if (!strcmp(v[0], "a")) {
        char *f = shim_unhex(v[1]);
        if (n <= 0) r = o.load(f);
        else if (n == 1) r = o.load(f, atoi(v[2]));
        else r = o.load(f, atoi(v[2]), atoi(v[3]) != 0);
        free(f);
    }
    else if (!strcmp(v[0], "self")) r = o.load(o.filename(), o.flags());
    else if (!strcmp(v[0], "ll")) r = o.load();
    else if (!strcmp(v[0], "ls")) r = o.load_lib_and_symbols();
    else if (!strcmp(v[0], "fr")) r = o.free();
    else if (!strcmp(v[0], "ff")) r = o.free(true);
    else if (!strcmp(v[0], "dt")) { o.free_lib_in_dtor(atoi(v[1]) != 0); r = 1; }
    else if (!strcmp(v[0], "la")) r = o.load_all_symbols();
    else if (!strcmp(v[0], "sy")) r = o.load_symbol(num(atoi(v[1])));
    else if (!strcmp(v[0], "si")) r = o.load_symbol(atoi(v[1]));
    else if (!strcmp(v[0], "sn")) { char *f = shim_unhex(v[1]); r = o.load_symbol(f); free(f); }
    else if (!strcmp(v[0], "lp")) { std::string p = o.library_path(); shim_log("P %%s\\n", shim_hex(p.c_str())); r = !p.empty(); }
    else if (!strcmp(v[0], "mk")) { char *f = shim_unhex(v[1]); std::string p = %(l)s::make_libname(f, (size_t)strtoul(v[2], NULL, 10)); shim_log("P %%s\\n", shim_hex(p.c_str())); free(f); r = 1; }
    return r;
}
"""

PLUGIN_UNIT = """
XC void *lists[3];
static unsigned long ptr(%(l)s_handle_t *h, int i) { switch (i) { %(ptrs)s } return 0; }
static void report(int k)
{
    shim_log("U %%d", k);
    int m; for (m = 0; m < 3; m++) {
        %(l)s_plugin_t *p = (%(l)s_plugin_t *)lists[m];
        if (!p) { shim_log(" -"); continue; }
        shim_log(" [%%lu", (unsigned long)p->num);
        size_t n; for (n = 0; n < p->num; n++) {
            %(l)s_handle_t *h = &p->list[n];
            shim_log(" %%s h%%d", shim_hex(h->filename), shim_handle((void *)h->handle));
            int i; for (i = 0; i < shim_count; i++) shim_log(" %%d", shim_sym(i, (void *)ptr(h, i)));
        }
        shim_log("]");
    }
    shim_log("\\n");
}
static int op(int k, int c, char **v)
{
    (void)k;
    if (!strcmp(v[0], "load")) {
        int m = atoi(v[1]);
        size_t n = 0, cap = c > 2 ? strlen(v[2]) : 0;
        char **f = (char **)malloc((cap + 2) * sizeof(char *));
        char *save = NULL;
        char *t; if (c > 2) for (t = strtok_r(v[2], ",", &save); t; t = strtok_r(NULL, ",", &save)) f[n++] = shim_unhex(t);
        lists[m] = %(l)s_load_plugins((const %(l)s_char_t **)f, n);
        { size_t i; for (i = 0; i < n; i++) free(f[i]); }
        free(f);
        return lists[m] != NULL;
    }
    if (!strcmp(v[0], "null")) return %(l)s_load_plugins(NULL, (size_t)strtoul(v[1], NULL, 10)) != NULL;
    if (!strcmp(v[0], "rel")) { int m = atoi(v[1]); %(l)s_release_plugins((%(l)s_plugin_t *)lists[m]); lists[m] = NULL; return 1; }
    return -1;
}
"""

MAIN = """
#define XC extern
%(protos)s
static void (*const reports[])(void) = { %(reports)s };
static int (*const ops[])(int, char **) = { %(ops)s };
void *lists[3];
static int cmdno;
static void all(void) { for (int k = 0; k < %(n)d; k++) reports[k](); }
static int ending;
static void cb(int c, char **v)
{
    if (ending) return;
    if (!strcmp(v[0], "ret")) { ending = 1; return; }
    if (!strcmp(v[0], "exit")) { shim_log("X\\n"); exit(atoi(v[1])); }
    if (!strcmp(v[0], "_exit")) { shim_log("X\\n"); _exit(atoi(v[1])); }
    shim_log("C %%d %%s\\n", cmdno++, v[1]);
    int r = ops[atoi(v[0])](c - 1, v + 1);
    shim_log("R %%d\\n", r);
    all();
}
int main(void) { all(); shim_script(cb); shim_log("X\\n"); return 0; }
"""


def config(shape):
    """what every unit that includes the header defines first"""
    t = rt.pre_macros(shape)
    if shape["wrap"]:
        t += W.wrap_macros(shape)
    return t + '#include "wlib.h"\n' + W.hook_macros(dict(shape, hook_linkage="XH "))


HOOKDECL = "#ifdef __cplusplus\n# define XH extern \"C\"\n#else\n# define XH extern\n#endif\n"


def unit_source(shape, hdr, ks):
    """the code of the units ks in one file"""
    up, lo = shape["pfx"].upper(), shape["pfx"].lower()
    ns, ds = rt.names(shape), shape["ds"]
    cxx = shape["lang"] == "c++"
    d = dict(l=lo, u=up)
    inc = '#include "%s"\n' % hdr
    t = HOOKDECL + config(shape) + inc * (1 + shape["twice"]) + rt.DRIVER_HEAD + EXTERN
    if shape["lang"] == "plugin":
        d["ptrs"] = " ".join("case %d: return (unsigned long)h->ptr.%s;" % (i, n) for i, n in enumerate(ns))
        t += PLUGIN_UNIT % d
    else:
        alias = "DISABLE_ALIASING" not in shape["macros"]
        objs = "".join("if (ptr(%d)) shim_log(\" a%%d\", (void *)&%s == (void *)ptr(%d));" % (i, n, i) for i, n in enumerate(ns) if alias and ds[i]["k"] != "func")
        d.update(ptrs=" ".join("case %d: return (unsigned long)%s_RAWPTR_%s;" % (i, up, n) for i, n in enumerate(ns)),
                 nums=" ".join("case %d: return %s_LOAD_%s;" % (i, up, n) for i, n in enumerate(ns)), objs=objs,
                 callers="".join(W.caller(shape, i, x) for i, x in enumerate(ds) if x["k"] == "func"),
                 calls=" ".join("case %d: call_%d(mode, s); break;" % (i, i) for i, x in enumerate(ds) if x["k"] == "func"))
        t += COMMON % d + (CXX_UNIT if cxx else C_UNIT) % d
    for k in ks:
        t += "XC void unit_report_%d(void);\nvoid unit_report_%d(void) { report(%d); }\nXC int unit_op_%d(int c, char **v);\nint unit_op_%d(int c, char **v) { return op(%d, c, v); }\n" % (k, k, k, k, k, k)
    return t


def main_source(shape):
    n = shape["n"]
    t = rt.DRIVER_HEAD + rt.names_table(dict(shape, lang="c")) + MAIN % dict(
        n=n, protos="".join("void unit_report_%d(void); int unit_op_%d(int c, char **v);\n" % (k, k) for k in range(n)),
        reports=", ".join("unit_report_%d" % k for k in range(n)), ops=", ".join("unit_op_%d" % k for k in range(n)))
    t += '#include "wlib.h"\n'
    for i, x in enumerate(shape["ds"]):
        if x["k"] == "func" and shape["hooks"][i]:
            t += "void hook_%d(%s) { shim_log(\"HOOK %d\"); %s %s shim_log(\"\\n\"); }\n" % (i, W.params(x), i, W.notes(x), W.va_notes(x))
    return t


def generate(env, shape, d, sep):
    cxx = shape["lang"] == "c++"
    with open(d + "/types.h", "w") as f:
        f.write(D.TYPES_H)
    with open(d + "/wlib.h", "w") as f:
        f.write(W.LIB_H)
    text = D.render(shape["ds"], named=shape.get("param") != "create", spell=False)
    out, stem = OUTS[shape["out"]]
    work = d + "/w"
    for x in ("/sub", "/d.d", "/../up"):
        os.makedirs(work + x)
    a = ["-format=" + shape["lang"], "-out=" + out, "-include=types.h"]
    a += ["-prefix=" + shape["pfx"]] if shape["pfx"] != "gdo" else []
    a += ["-library=" + shape["lib"]] if shape["lib"] else []
    a += ["-param=" + shape["param"]] if shape.get("param") else []
    a += ["-no-pragma-once"] if shape["guard"] else []
    a += ["-line"] if shape["line"] else []
    # settings of the whole program may be given at generation time
    if shape["gen_macros"]:
        for m in shape["macros"]:
            a += ["-D%s_%s" % (shape["pfx"].upper(), m)]
    r = env.gdo(a + (["-separate"] if sep else []) + ["-"], stdin=text.encode(), cwd=work)
    if r.rc != 0 or r.out:
        raise Violation("refused: %r %s\n%r" % (a, text, r))
    got = sorted(os.path.join(p, f)[len(d) + 1:] for p, _, fs in os.walk(d) for f in fs if f not in ("types.h", "wlib.h"))
    ext = ("hpp", "cpp") if cxx else ("h", "c")
    pair = [os.path.normpath("w/%s.%s" % (stem, e)) for e in ext] if sep else [os.path.normpath("w/" + out)]
    if got != sorted(pair):
        raise Violation("%r%s: wrote %r instead of %r" % (a, " -separate" if sep else "", got, pair))
    return [d + "/" + p for p in pair]


def compile_(shape, d, path, cxx, std, flags=()):
    o = "%s/o%d-%s.o" % (d, len(os.listdir(d)), re.sub(r"\W", "_", os.path.basename(path)))
    c = cgen.comp(cxx, shape["clang"], std, shape["opt"]) + ["-w", "-g1", "-I" + d] + (rt.ASAN if shape["asan"] else []) + (["-fgnu89-inline"] if shape["inline89"] and not cxx else []) + list(flags)
    r = run(c + ["-x", "c++" if cxx else "c", "-c", path, "-o", o], timeout=180, cwd=d)
    if r.timeout:
        raise InfraError("compiler timeout")
    if r.rc != 0:
        raise Violation("generated code does not compile in %s (%s): %r\n%s" % (path[len(d):], std, r, open(path).read()[:3000]))
    return o


def link(env, shape, d, objs, exe):
    anycxx = shape["lang"] == "c++" or any(shape["ucxx"])
    l = cgen.comp(anycxx, shape["clang"], "c++17" if anycxx else "gnu17", shape["opt"]) + (rt.ASAN if shape["asan"] else [])
    r = run(l + objs + [rt.build_shim(env), rt.WRAPS, "-ldl", "-o", exe], timeout=180)
    if r.rc != 0:
        raise Violation("generated code does not link: %r" % r)


def lib_object(env, shape):
    o = os.path.join(env.root, "wl-%s.o" % rt.shape_hash(shape["ds"]))
    if not os.path.exists(o):
        d = o + ".%d.d" % os.getpid()
        os.makedirs(d)
        for n, t in (("types.h", D.TYPES_H), ("wlib.h", W.LIB_H), ("l.c", W.lib_source(shape["ds"]))):
            with open(d + "/" + n, "w") as f:
                f.write(t)
        r = run(["gcc", "-std=gnu17", "-O1", "-w", "-c", d + "/l.c", "-o", d + "/l.o"])
        if r.rc != 0:
            raise InfraError("library: %r" % r)
        os.rename(d + "/l.o", o)
        shutil.rmtree(d)
    return o


def put(path, text):
    with open(path, "w") as f:
        f.write(text)
    return path


def build(env, shape):
    """-> (program of the pair, program of the single file)"""
    d = os.path.join(env.root, "sep-" + rt.shape_hash(shape))
    if os.path.exists(d + "/error"):
        with open(d + "/error") as f:
            raise Violation(f.read())
    if os.path.exists(d):
        return d + "/pair", d + "/single"
    tmp = d + ".%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    cxx = shape["lang"] == "c++"
    try:
        lib = lib_object(env, shape)
        for sub, sep in (("s", True), ("f", False)):
            w = tmp + "/" + sub
            os.makedirs(w)
            files = generate(env, shape, w, sep)
            inc = ["-I" + os.path.dirname(files[0]), "-I" + w]
            hdr = os.path.basename(files[0])
            objs = [lib, compile_(shape, w, put(w + "/main.c", main_source(shape)), False, "gnu17")]
            if sep:
                for k in range(shape["n"]):
                    ux = cxx or shape["ucxx"][k]
                    std = shape["ustd"][k] if cxx else ("c++17" if ux else shape["std"])
                    objs.append(compile_(shape, w, put(w + "/unit%d.x" % k, unit_source(shape, hdr, [k])), ux, std, inc))
                # a unit that does nothing but include the header
                for ux in ([True] if cxx else [False, True]):
                    objs.append(compile_(shape, w, put(w + "/only%d.x" % ux, HOOKDECL + config(shape) + '#include "%s"\n' % hdr), ux, ("c++11" if cxx else "c++17") if ux else "gnu99", inc))
                # the body, with the configuration in front of it or given to the compiler
                if shape["body"] == "include":
                    b = put(w + "/body.x", HOOKDECL + config(shape) + '#include "%s"\n' % os.path.basename(files[1]))
                    objs.append(compile_(shape, w, b, cxx, shape["std"], inc))
                else:
                    pre = put(w + "/pre.h", HOOKDECL + config(shape))
                    objs.append(compile_(shape, w, files[1], cxx, shape["std"], ["-include", pre, "-I" + w]))
                if shape["rev"]:
                    objs.reverse()
                link(env, shape, tmp, objs, tmp + "/pair")
            else:
                objs.append(compile_(shape, w, put(w + "/units.x", unit_source(shape, hdr, range(shape["n"]))), cxx, shape["std"], inc))
                link(env, shape, tmp, objs, tmp + "/single")
    except Violation as x:
        put(tmp + "/error", str(x).replace(tmp, ""))
    for sub in ("s", "f"):
        shutil.rmtree(tmp + "/" + sub, ignore_errors=True)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return build(env, shape)


def _one(a):
    try:
        build(*a)
    except Violation:
        pass
    except InfraError as x:
        return str(x)


def build_pool(env, pool):
    rt.build_shim(env)
    with rt.mp.get_context("fork").Pool(8) as p:
        for e in p.imap_unordered(_one, [(env, s) for s in pool], 1):
            if e:
                raise InfraError(e)


@st.composite
def shapes(draw, lang):
    macros = ("DISABLE_ALIASING", "DISABLE_WARNINGS") if lang != "plugin" else ()
    s = draw(rt.shapes(lang, 5, kinds=("func", "func", "func", "obj", "arr", "fptr"), macros=macros, lib=[None] if lang == "plugin" else None))
    s["sep"] = True
    s["wrap"] = None if lang == "plugin" else draw(st.sampled_from([None, None, "WRAP_FUNCTIONS", "WRAP_FUNCTIONS", "ENABLE_AUTOLOAD", "ENABLE_AUTOLOAD_LAZY"]))
    if (s["wrap"] or "").startswith("ENABLE") and not s["lib"]:
        s["lib"] = "ext:foo"
    s["vis"] = None
    if s["wrap"] and draw(st.integers(0, 2)) == 0:
        s["vis"] = draw(st.sampled_from(['__attribute__((visibility("default")))', '__attribute__((visibility("hidden")))', ""]))
    s["hooks"] = [draw(st.sampled_from([0, 0, 1, 2])) if s["wrap"] and d["k"] == "func" else 0 for d in s["ds"]]
    s["param"] = draw(st.sampled_from([None, None, "create", "skip" if not s["wrap"] else None]))
    s["n"] = draw(st.integers(1, 4))
    s["ucxx"] = [lang == "c++" or draw(st.integers(0, 3)) == 0 for _ in range(s["n"])]
    s["ustd"] = [draw(st.sampled_from(["c++11", "gnu++14", "c++17", "c++20"])) for _ in range(s["n"])]
    if lang != "c++":
        s["std"] = draw(st.sampled_from(["gnu99", "gnu11", "gnu17"]))
    for k in ("twice", "guard", "line", "rev", "gen_macros"):
        s[k] = int(draw(st.booleans()))
    s["inline89"] = lang != "c++" and draw(st.integers(0, 3)) == 0
    s["body"] = draw(st.sampled_from(["include", "compile"]))
    s["out"] = draw(st.integers(0, len(OUTS) - 1))
    if draw(st.booleans()):
        s["out"] = 0
    return s


@st.composite
def script(draw, shape):
    n = shape["n"]
    if shape["lang"] == "plugin":
        c = draw(rt.plugin_script(shape))
    elif shape["lang"] == "c":
        c = draw(rt.c_script(shape, draw(st.sampled_from(["state", "state", "error", "exit"]))))
    else:
        c = draw(rt.cxx_script(shape))
    fs = [i for i, d in enumerate(shape["ds"]) if d["k"] == "func"]
    body = []
    u = lambda: draw(st.integers(0, n - 1))
    if shape["lang"] != "plugin" and draw(st.integers(0, 3)) > 0:
        # a library with everything, loaded by some unit
        l = draw(st.sampled_from(c["libs"]))
        l[1] = "1" * len(shape["ds"])
        k = u()
        c["setup"] = [x for x in c["setup"] if not x.startswith("faults")]
        body += ["%d ns %s" % (k, rt.hexs(l[0]))] if shape["lang"] == "c" else ["%d newf %s" % (k, rt.hexs(l[0])), "%d ls" % k]

    def call():
        return "%d call %d %d %d" % (draw(st.integers(0, n - 1)), draw(st.sampled_from(fs)), draw(st.integers(0, len(W.SIGS) - 1)), draw(st.integers(0, 10 ** 6)))
    for b in c["body"]:
        t = b.split(" ")
        if t[0] in ("faults", "stale", "lname", "errlen", "nulls"):
            body.append(b)
        elif shape["lang"] == "c++":
            body.append(" ".join([str(int(t[1]) % n), t[0]] + t[2:]))
        else:
            body.append("%d %s" % (draw(st.integers(0, n - 1)), b))
        if shape["lang"] != "plugin" and fs and draw(st.integers(0, 2)) == 0:
            body.append(call())
        if shape["lang"] == "c++" and shape["wrap"] and draw(st.integers(0, 9)) == 0:
            body.append("%d cb %d" % (draw(st.integers(0, n - 1)), draw(st.integers(0, 1))))
    if c["end"] == "end":
        c["end"] = "ret"
    return dict(c, body=body)


def normal(out):
    return re.sub(r"^(D dlsym \S+ \S+) 0x[0-9a-f]+ ", r"\1 X ", out.decode("utf-8", "replace"), flags=re.M)


def judge(case, pair, single):
    sh = case["shape"]
    labels = {sh["lang"], "units=%d" % sh["n"], "wrap=%s" % sh["wrap"], "vis" if sh["vis"] is not None else "inline", "mixed" if sh["lang"] != "c++" and len(set(sh["ucxx"])) > 1 else "one-language"}
    bad = []
    for r, w in ((pair, "pair"), (single, "single file")):
        if r.rc == 88 or b"Sanitizer" in r.err or b"runtime error" in r.err:
            return ["sanitizer report of the program from the %s: %r" % (w, r)], labels
    a, b = normal(pair.out), normal(single.out)
    la, lb = a.split("\n"), b.split("\n")
    if la != lb:
        i = next((i for i in range(min(len(la), len(lb))) if la[i] != lb[i]), min(len(la), len(lb)))
        bad.append("line %d of the log of the program with separate units is\n  %s\nwith the single file it is\n  %s\n... %s" % (i, (la + [""])[i][:700], (lb + [""])[i][:700], "\n  ".join(la[max(0, i - 6):i + 1])[:1500]))
    elif (pair.rc, pair.err) != (single.rc, single.err):
        bad.append("separate units: status %s, stderr %r; single file: status %s, stderr %r" % (pair.rc, pair.err[-300:], single.rc, single.err[-300:]))
    # all units agree
    group = {}
    loaded = calls = 0
    for l in la:
        t = l.split(" ")
        if t[0] == "U":
            v = l.split(" ", 2)[2].split(" | ")[0]
            if not group:
                group["v"] = v
            elif group["v"] != v:
                bad.append("unit %s sees %s, another unit sees %s" % (t[1], v[:300], group["v"][:300]))
                break
            if sh["lang"] == "plugin" and "[" in l or t[2].startswith("1"):
                loaded += 1
        else:
            group = {}
            calls += t[0] == "CALL"
    if loaded:
        labels.add("loaded")
    if calls:
        labels.add("called")
    return bad, labels
