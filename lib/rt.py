"""Runtime checks: generated loaders driven by scripts against the simulated dynamic linker (shim.c).

A shape is a JSON value describing one generated header and the program built around it. The
program reads a script from stdin and logs what the generated code asked the dynamic linker for,
what it returned, and the complete visible state after every command. The judges below know only
the documented rules and the answers of the simulated linker."""
import hashlib, json, os, re, shutil
import multiprocessing as mp
from hypothesis import strategies as st, given, settings, HealthCheck, Phase
import hypothesis
from core import Violation, Inconclusive, InfraError, run, VERIF
import decl as D
import cgen

WRAPS = "-Wl," + ",".join("--wrap=" + f for f in ("dlopen", "dlmopen", "dlsym", "dlclose", "dlerror", "dlinfo", "dladdr", "atexit", "fopen", "open", "ioctl", "close"))
BUFLEN = 8192
WINBUF = 32768


def collect(strategy, n, seed):
    """n values of a strategy, fixed by the seed"""
    res = []

    @hypothesis.seed(seed)
    @settings(max_examples=4 * n + 10, deadline=None, database=None, phases=(Phase.generate,), suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)
    @given(strategy)
    def f(x):
        res.append(x)
    f()
    u = list({json.dumps(x, sort_keys=True): x for x in res}.values())
    return u[:2] + u[max(2, len(u) - n + 2):]


def shape_hash(shape):
    return hashlib.sha1(json.dumps(shape, sort_keys=True).encode()).hexdigest()[:16]


def cstr(s):
    """bytes or str as a C string literal"""
    b = s.encode() if isinstance(s, str) else s
    return '"' + "".join(chr(c) if 32 <= c < 127 and c not in (34, 92, 63) else "\\%03o" % c for c in b) + '"'


# ---------------------------------------------------------------- shapes
DFLT = [None, "libdflt.so", "libdflt.so", "./dir/my lib.so", "100%s%d%n.so", "api:12:foo", "nq:GDO_LIBNAME(bar, 3)", "ext:plug", "/opt/x y/lib#1.so.2", "l\u00e9.so"]


def dflt_name(lib, win=None, plat=None):
    """the file name that -library stands for on this platform"""
    if lib is None:
        return None
    if plat is not None:
        import platrt
        return platrt.dflt_name(lib, plat)
    if win is not None:
        lib_ = "lib" if win.get("mingw") else ""
        if lib.startswith("api:"):
            _, a, n = lib.split(":", 2)
            return "%s%s-%s.dll" % (lib_, n, a)
        if lib.startswith("ext:"):
            return lib[4:] + ".dll"
        return lib_ + "bar-3.dll" if lib.startswith("nq:") else lib.replace("\\\\", "\\")
    if lib.startswith("api:"):
        _, a, n = lib.split(":", 2)
        return "lib%s.so.%s" % (n, a)
    if lib.startswith("ext:"):
        return lib[4:] + ".so"
    if lib.startswith("nq:"):
        return "libbar.so.3"
    return lib


@st.composite
def shapes(draw, lang, max_syms=6, big=False, kinds=("func", "func", "obj", "arr", "fptr"), lib=None, macros=(), dialects=True):
    cxx = lang in ("c++", "minimal-c++")
    n = draw(st.integers(1, max_syms))
    ds = draw(cgen.decls(True, 1, n, kinds)) if not big else None
    if big:
        ns = draw(cgen.names(10, 40))
        ds = [dict(k="func", t=["int"], n=x, p="void") for x in ns]
    pfx = draw(st.sampled_from(["gdo", "gdo", "Foo", "xy_1"]))
    s = dict(lang=lang, ds=ds, pfx=pfx, lib=draw(st.sampled_from(DFLT)) if lib is None else draw(st.sampled_from(lib)),
             sep=lang in ("c", "c++", "plugin") and draw(st.integers(0, 2)) == 0, macros=[m for m in macros if draw(st.booleans())],
             gnu=draw(st.booleans()), opt=draw(st.sampled_from(["-O0", "-O1", "-O2"])), asan=draw(st.booleans()), clang=draw(st.integers(0, 3)) == 0,
             std=draw(st.sampled_from(["c++11", "gnu++14", "c++17", "c++20"] if cxx else ["gnu99", "gnu11", "gnu17"])), flags=draw(st.sampled_from([None, None, "RTLD_NOW", "0x105"])))
    if s["clang"]:
        s["asan"] = False     # clang links its run-time statically, where --wrap would reach it
    if s["lib"] and s["lib"].startswith("nq:"):
        s["lib"] = s["lib"].replace("GDO", pfx.upper())
    if cxx or lang == "plugin" and False:
        s["macros"] = [m for m in s["macros"] if m != "STATIC"]
    if s["sep"]:
        s["macros"] = [m for m in s["macros"] if m != "STATIC"]
    return s


def names(shape):
    return [d["n"] for d in shape["ds"]]


# ---------------------------------------------------------------- building
def generate(env, shape, d):
    """run gendlopen for the shape in directory d"""
    with open(d + "/types.h", "w") as f:
        f.write(D.TYPES_H)
    cxx = shape["lang"] in ("c++", "minimal-c++")
    out = "gen.hpp" if cxx else "gen.h"
    a = ["-format=" + shape["lang"], "-out=" + out, "-include=types.h"]
    if shape["pfx"] != "gdo":
        a.append("-prefix=" + shape["pfx"])
    if shape.get("lib"):
        a.append("-library=" + shape["lib"])
    if shape["sep"]:
        a.append("-separate")
    if shape.get("param"):
        a.append("-param=" + shape["param"])
    text = D.render(shape["ds"], named=shape.get("param") != "create", spell=False)
    r = env.gdo(a + ["-"], stdin=text.encode(), cwd=d)
    if r.rc != 0:
        raise Violation("refused: %r %s\n%r" % (a, text, r))
    return out


def pre_macros(shape):
    up = shape["pfx"].upper()
    if shape.get("win") is not None:
        import winrt
        p = winrt.prelude(shape)
    elif shape.get("plat") is not None:
        import platrt
        p = platrt.prelude(shape)
    else:
        p = "#define _GNU_SOURCE 1\n" if shape["gnu"] and shape["lang"] not in ("c++", "minimal-c++") else ""
    for m in shape["macros"]:
        p += "#define %s_%s\n" % (up, m)
    if shape.get("flags"):
        p += "#define %s_DEFAULT_FLAGS %s\n" % (up, shape["flags"])
    return p


def default_flags(shape):
    if shape.get("plat") == "aix" and shape.get("flags") is None:
        return 1 | 0x40000 # RTLD_LAZY | RTLD_MEMBER
    return {None: 1 if shape.get("win") is None else 0, "RTLD_NOW": 2, "0x105": 0x105, "0x8": 8}[shape.get("flags")]


DRIVER_HEAD = """
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C" {
#endif
void shim_log(const char *fmt, ...);
const char *shim_hex(const char *s);
char *shim_unhex(const char *t);
void shim_script(void (*cb)(int, char **));
int shim_cmd(int argc, char **argv);
extern const char *shim_names[];
extern const int shim_count;
#ifdef __cplusplus
}
#endif
#ifndef XCHAR
# define XCHAR char
# define XUNHEX shim_unhex
# define XHEX shim_hex
#endif
#ifndef WIN_STATE
# define WIN_STATE
# define WIN_CMDS
# define WIN_NEW
# define CONSTW const
#endif
"""


def names_table(shape):
    q = 'extern "C" {' if shape["lang"] in ("c++", "minimal-c++") else ""
    e = "}" if q else ""
    return "%s\nconst char *shim_names[] = { %s };\nconst int shim_count = %d;\n%s\n" % (q, ", ".join('"%s"' % n for n in names(shape)), len(names(shape)), e)


C_DRIVER = """
static unsigned long ptr(int i) { switch (i) { %(ptrs)s } return 0; }
static int num(int i) { switch (i) { %(nums)s default: return i; } }
static int cmdno;
static void state(void)
{
    shim_log("S %%d%%d%%d%%d", (int)%(l)s_lib_is_loaded(), (int)%(l)s_all_symbols_loaded(), (int)%(l)s_no_symbols_loaded(), (int)%(l)s_any_symbol_loaded());
    for (int i = 0; i < shim_count; i++) shim_log(" %%lx", ptr(i));
    shim_log(" -\\n");
    const XCHAR *e = %(l)s_last_error();
    shim_log("E %%s", XHEX(e));
    e = %(l)s_last_error();
    shim_log(" %%s\\n", XHEX(e));
    WIN_STATE
}
static int ending;
static void cb(int c, char **v)
{
    int r = -1;
    if (ending) return;
    shim_log("C %%d %%s\\n", cmdno++, v[0]);
    if (!strcmp(v[0], "n")) { XCHAR *f = XUNHEX(v[1]); r = %(l)s_load_lib_name(f); free(f); }
    else if (!strcmp(v[0], "ns")) { XCHAR *f = XUNHEX(v[1]); r = %(l)s_load_lib_name_and_symbols(f); free(f); }
    else if (!strcmp(v[0], "a")) { XCHAR *f = XUNHEX(v[1]); r = %(l)s_load_lib_args(f, atoi(v[2]), atoi(v[3])); free(f); }
#ifdef %(u)s_DEFAULT_LIB
    else if (!strcmp(v[0], "ll")) r = %(l)s_load_lib();
    else if (!strcmp(v[0], "ls")) r = %(l)s_load_lib_and_symbols();
#endif
    else if (!strcmp(v[0], "fr")) r = %(l)s_free_lib();
    else if (!strcmp(v[0], "ff")) { %(l)s_force_free_lib(); r = 1; }
    else if (!strcmp(v[0], "ar")) r = %(l)s_enable_autorelease();
    else if (!strcmp(v[0], "la")) r = %(l)s_load_all_symbols();
    else if (!strcmp(v[0], "sy")) r = %(l)s_load_symbol(num(atoi(v[1])));
    else if (!strcmp(v[0], "si")) r = %(l)s_load_symbol(atoi(v[1]));
    else if (!strcmp(v[0], "sn")) { char *f = shim_unhex(v[1]); r = %(l)s_load_symbol_name(f); free(f); }
    else if (!strcmp(v[0], "lp")) {
        const XCHAR *p = %(l)s_library_path();
        shim_log("P %%s\\n", XHEX(p));
        r = p != NULL;
    }
    else if (!strcmp(v[0], "exit")) { shim_log("X\\n"); exit(atoi(v[1])); }
    else if (!strcmp(v[0], "_exit")) { shim_log("X\\n"); _exit(atoi(v[1])); }
    else if (!strcmp(v[0], "ret")) { ending = 1; return; }
    else shim_log("? \\n");
    (void)c;
    shim_log("R %%d\\n", r);
    state();
}
int main(void)
{
    state();
    shim_script(cb);
    shim_log("X\\n");
    return 0;
}
"""

CXX_DRIVER = """
#include <memory>
static unsigned long ptr(int i) { switch (i) { %(ptrs)s } return 0; }
static int num(int i) { switch (i) { %(nums)s default: return i; } }
static int cmdno;
#define NOBJ 6
typedef %(l)s::dl Dl;
static Dl *objs[NOBJ];
/* 0, 1: deleted when main returns; 2, 3: never deleted; 4, 5: static objects, destroyed by exit() */
static std::unique_ptr<Dl> statics[2];
static void put(int k, Dl *o) { objs[k] = o; if (k >= 4) statics[k - 4].reset(o); }
static void state(void)
{
    /* the predicates through every living object */
    shim_log("S %%d", (int)Dl::lib_loaded());
    for (int k = 0; k < NOBJ; k++) if (objs[k]) {
        const Dl &o = *objs[k];
        shim_log("%%d%%d%%d", (int)o.all_symbols_loaded(), (int)o.no_symbols_loaded(), (int)o.any_symbol_loaded());
    }
    for (int i = 0; i < shim_count; i++) shim_log(" %%lx", ptr(i));
    shim_log("\\n");
    for (int k = 0; k < NOBJ; k++) if (objs[k]) {
        CONSTW Dl &o = *objs[k];
        std::string e = o.error(), e2 = o.error(), f = o.filename();
        shim_log("O %%d %%s", k, shim_hex(e.c_str()));
        shim_log(" %%s", shim_hex(e2.c_str()));
        shim_log(" %%s %%d %%d\\n", shim_hex(f.c_str()), o.flags(), (int)o.free_lib_in_dtor());
    }
    WIN_STATE
}
static int ending;
static void cb(int c, char **v)
{
    int r = -1;
    if (ending) return;
    int k = c > 1 ? atoi(v[1]) : 0;
    shim_log("C %%d %%s\\n", cmdno++, v[0]);
    if (!strcmp(v[0], "exit")) { shim_log("X\\n"); exit(atoi(v[1])); }
    else if (!strcmp(v[0], "ret")) { ending = 1; return; }
    else if (!strcmp(v[0], "new")) { put(k, new Dl()); r = 1; }
    else if (!strcmp(v[0], "newf")) {
        char *f = shim_unhex(v[2]);
        int n = c - 3;
        if (n <= 0) put(k, new Dl(f));
        else if (n == 1) put(k, new Dl(f, atoi(v[3])));
        else put(k, new Dl(f, atoi(v[3]), atoi(v[4]) != 0));
        free(f);
        r = 1;
    }
    else if (!strcmp(v[0], "newfw") || !strcmp(v[0], "newfc")) { WIN_NEW }
    else if (!objs[k]) return;
    else if (!strcmp(v[0], "del")) { if (k >= 4) statics[k - 4].reset(); else delete objs[k]; objs[k] = NULL; r = 1; }
    else {
        Dl &o = *objs[k];
        if (!strcmp(v[0], "a")) {
            char *f = shim_unhex(v[2]);
            int n = c - 3;
            if (n <= 0) r = o.load(f);
            else if (n == 1) r = o.load(f, atoi(v[3]));
            else r = o.load(f, atoi(v[3]), atoi(v[4]) != 0);
            free(f);
        }
        else if (!strcmp(v[0], "self")) r = o.load(o.filename(), o.flags());
        else if (!strcmp(v[0], "ll")) r = o.load();
        else if (!strcmp(v[0], "ls")) r = o.load_lib_and_symbols();
        else if (!strcmp(v[0], "fr")) r = o.free();
        else if (!strcmp(v[0], "ff")) r = o.free(true);
        else if (!strcmp(v[0], "dt")) { o.free_lib_in_dtor(atoi(v[2]) != 0); r = 1; }
        else if (!strcmp(v[0], "la")) r = o.load_all_symbols();
        else if (!strcmp(v[0], "sy")) r = o.load_symbol(num(atoi(v[2])));
        else if (!strcmp(v[0], "si")) r = o.load_symbol(atoi(v[2]));
        else if (!strcmp(v[0], "sn")) { char *f = shim_unhex(v[2]); r = o.load_symbol(f); free(f); }
        else if (!strcmp(v[0], "lp")) { std::string p = o.library_path(); shim_log("P %%s\\n", shim_hex(p.c_str())); r = !p.empty(); }
        else if (!strcmp(v[0], "mk")) { char *f = shim_unhex(v[2]); std::string p = %(l)s::make_libname(f, (size_t)strtoul(v[3], NULL, 10)); shim_log("P %%s\\n", shim_hex(p.c_str())); free(f); r = 1; }
        WIN_CMDS
        else shim_log("? \\n");
    }
    shim_log("R %%d\\n", r);
    state();
}
int main(void)
{
    state();
    shim_script(cb);
    shim_log("X\\n");
    delete objs[1];
    delete objs[0];
    return 0;
}
"""


def driver_source(shape, out):
    up, lo = shape["pfx"].upper(), shape["pfx"].lower()
    ns = names(shape)
    ptrs = " ".join("case %d: return (unsigned long)%s_RAWPTR_%s;" % (i, up, n) for i, n in enumerate(ns))
    nums = " ".join("case %d: return %s_LOAD_%s;" % (i, up, n) for i, n in enumerate(ns))
    t = pre_macros(shape) + '#include "%s"\n' % out + DRIVER_HEAD + names_table(shape)
    if shape["lang"] == "c":
        return t + C_DRIVER % dict(l=lo, u=up, ptrs=ptrs, nums=nums)
    return t + CXX_DRIVER % dict(l=lo, u=up, ptrs=ptrs, nums=nums)


ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
RUN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=88:allocator_may_return_null=1", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=88"}


def build_shim(env, d=None):
    """the simulated linker, once per run"""
    d = d or env.root
    o = d + "/shim.o"
    if not os.path.exists(o):
        r = run(["gcc", "-O1", "-w", "-c", VERIF + "/lib/shim.c", "-o", o + ".tmp"])
        if r.rc != 0:
            raise InfraError("shim: %r" % r)
        os.rename(o + ".tmp", o)
    return o


def build(env, shape, driver=driver_source, shim=True, gen=generate, extra=()):
    """path of the program for the shape; compiled once"""
    d = os.path.join(env.root, "shape-" + shape_hash(shape))
    exe = d + "/prog"
    if os.path.exists(exe):
        return exe
    if os.path.exists(d + "/error"):
        with open(d + "/error") as f:
            raise Violation(f.read())
    tmp = d + ".%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        out = gen(env, shape, tmp)
        cxx = shape["lang"] in ("c++", "minimal-c++")
        ext = ".cpp" if cxx else ".c"
        with open(tmp + "/driver" + ext, "w") as f:
            f.write(driver(shape, out))
        c = cgen.comp(cxx, shape["clang"], shape["std"], shape["opt"]) + ["-w", "-g1", "-I" + tmp] + (ASAN if shape["asan"] else []) + shape.get("cc", [])
        objs = []
        srcs = ["driver" + ext]
        if shape["sep"]:
            body = "gen" + ext
            # the body sees the same configuration
            with open(tmp + "/body" + ext, "w") as f:
                f.write(pre_macros(shape) + shape.get("body_pre", "") + '#include "%s"\n' % body)
            srcs.append("body" + ext)
        srcs += shape.get("srcs", [])
        for s in srcs:
            o = tmp + "/" + s + ".o"
            r = run(c + ["-c", tmp + "/" + s, "-o", o], timeout=180, cwd=tmp)
            if r.timeout:
                raise InfraError("compiler timeout")
            if r.rc != 0:
                raise Violation("generated code does not compile in %s: %r\n%s" % (s, r, open(tmp + "/" + s).read()[:3000]))
            objs.append(o)
        l = [c[0]] + (ASAN if shape["asan"] else []) + objs
        l += list(extra)
        if shape.get("win") is not None:
            import winrt
            l += [winrt.build_shim(env), winrt.WRAPS]
        elif shim:
            l += [build_shim(env), WRAPS]
        r = run(l + ["-ldl", "-o", tmp + "/prog"], timeout=180)
        if r.rc != 0:
            raise Violation("generated code does not link: %r" % r)
    except Violation as x:
        with open(tmp + "/error", "w") as f:
            f.write(str(x))
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return build(env, shape, driver, shim, gen, extra) if not os.path.exists(exe) else exe


def _build_one(a):
    env, shape, driver, shim = a
    try:
        build(env, shape, driver, shim)
    except Violation:
        pass
    except InfraError as x:
        return str(x)
    return None


def build_pool(env, pool, driver=driver_source, shim=True):
    if shim:
        build_shim(env)
    with mp.get_context("fork").Pool(8) as p:
        for e in p.imap_unordered(_build_one, [(env, s, driver, shim) for s in pool], 1):
            if e:
                raise InfraError(e)


def hexs(s):
    if s is None:
        return "-"
    return "=" + (s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s).hex()


def unhex(t):
    if t == "-":
        return None
    return bytes.fromhex(t[1:]).decode("utf-8", "replace")


# ---------------------------------------------------------------- the log
class Cmd:
    __slots__ = ("name", "dl", "r", "s", "e", "p", "objs", "other")

    def __init__(self, name):
        self.name, self.dl, self.r, self.s, self.e, self.p, self.objs, self.other = name, [], None, None, None, None, {}, []


def parse_log(out):
    """-> (initial state, commands, linker calls after the end marker, seen end marker)"""
    cur = Cmd("start")
    cmds = [cur]
    end = None
    for line in out.decode("utf-8", "replace").split("\n"):
        if not line:
            continue
        t = line.split(" ")
        if end is not None:
            end.append(t)
            continue
        k = t[0]
        if k == "C":
            cur = Cmd(t[2])
            cmds.append(cur)
        elif k == "D":
            cur.dl.append(t[1:])
        elif k == "R":
            cur.r = int(t[1])
        elif k == "S":
            cur.s = t[1:]
        elif k == "E":
            cur.e = (unhex(t[1]), unhex(t[2]))
        elif k == "P":
            cur.p = unhex(t[1])
        elif k == "O":
            cur.objs[int(t[1])] = t[2:]
        elif k == "X":
            end = []
        else:
            cur.other.append(t)
    return cmds, end


# ---------------------------------------------------------------- scripts
LIBNAMES = ["liba.so", "./rel/libb.so", "/abs/libc.so.1", "we ird%s%n.so", "\u00fcber.so", "l" * 9000]


@st.composite
def libraries(draw, shape, dflt=True, missing=True):
    """libraries that exist: [name, bits, path]"""
    n = len(shape["ds"])
    res = []
    ns = draw(st.lists(st.sampled_from(LIBNAMES), min_size=1, max_size=4, unique=True))
    dn = dflt_name(shape.get("lib"), shape.get("win"), shape.get("plat"))
    if dflt and dn and draw(st.integers(0, 4)) > 0:
        ns.append(dn)
    for i, name in enumerate(ns):
        k = draw(st.integers(0, 3)) if missing else 0
        bits = ["1"] * n
        if k == 1:
            bits = [draw(st.sampled_from("01")) for _ in range(n)]
        elif k == 2:
            bits[draw(st.integers(0, n - 1))] = "0"
        elif k == 3 and draw(st.booleans()):
            bits = ["0"] * n
        path = draw(st.sampled_from(["/usr/lib/x%d.so" % i, "/a b/%%s%%n/x%d.so" % i, "rel/x%d.so" % i, "./x%d.so" % i, "/" + "p" * (BUFLEN - 2 - i), "/" + "q" * (BUFLEN - 1 + i), "/" + "r" * 9000, "r" * 8191, "r" * 8192]
                                    if draw(st.integers(0, 2)) == 0 else ["/usr/lib/x%d.so" % i, "rel/x%d.so" % i]))
        res.append([name, "".join(bits), path])
    return res


@st.composite
def maps(draw):
    """text of /proc/self/maps for the first handles (None: cannot be opened), and the path of each handle there"""
    k = draw(st.integers(0, 5))
    if k == 0:
        return None
    lines, paths = ["55d0c0a00000-55d0c0a01000 r--p 00000000 fe:00 1234      /usr/bin/prog"], {}
    for h in range(8):
        if draw(st.integers(0, 5)) == 0:
            continue
        a = 0x10000000 + 0x100000 * h
        lo = a - draw(st.sampled_from([0, 0, 0, 0x1000]))
        hi = a + draw(st.sampled_from([1, 0x1000, 0x20000, 0x80000]))
        dev = draw(st.sampled_from(["08:01", "fe:00", "103:02", "00:1b", "ab:cd"]))
        ino = draw(st.integers(1, 2 ** 40))
        p = draw(st.sampled_from(["/cwd/x%d.so", "/with space/ and  two/x%d.so", "/%%s/x%d.so", "/" + "d" * 4000 + "/x%d.so", "long"]))
        if p == "long":
            # as long as the buffer is, and about that
            p = ("/x%d/" % h).ljust(BUFLEN + draw(st.integers(-2, 1)), "d")
        else:
            p = p % h
        # mappings that start or end just beside the address
        if draw(st.booleans()):
            lines.append("%x-%x r--p 00000000 %s %d    /other/before%d.so" % (lo - 0x2000, lo, dev, ino + 1, h))
        if draw(st.integers(0, 3)) == 0:
            lines.append("%x-%x rw-p 00000000 00:00 0 " % (lo - 0x4000, lo - 0x2000))
        lines.append("%x-%x r%sp 00000000 %s %d                    %s" % (lo, hi, draw(st.sampled_from(["--", "-x", "wx"])), dev, ino, p))
        if draw(st.booleans()):
            lines.append("%x-%x r-xp 00001000 %s %d    /other/after%d.so" % (hi, hi + 0x1000, dev, ino + 2, h))
        paths[str(h)] = p
    lines.append("7ffd0000-7ffe0000 rw-p 00000000 00:00 0                          [stack]")
    return ["\n".join(lines) + "\n", paths]


def near_names(ns):
    """strategy: symbol names, and names close to them"""
    @st.composite
    def f(draw):
        n = draw(st.sampled_from(ns))
        k = draw(st.integers(0, 12))
        if k < 3:
            return n
        if k == 3:
            return n[:draw(st.integers(0, len(n)))]
        if k == 4:
            return n + draw(st.sampled_from(["_", "1", "x", " ", "@v1", n, "\n"]))
        if k == 5:
            i = draw(st.integers(0, len(n) - 1))
            return n[:i] + n[i].swapcase() + n[i + 1:]
        if k == 6:
            i = draw(st.integers(0, len(n) - 1))
            return n[:i] + draw(st.sampled_from("_axz9Z")) + n[i + 1:]
        if k == 7:
            i = draw(st.integers(0, len(n) - 1))
            return n[:i] + n[i + 1:]
        if k == 8:
            return draw(st.sampled_from([" ", "_", "x"])) + n
        if k == 9:
            m = draw(st.sampled_from(ns))
            i = draw(st.integers(0, len(n)))
            return n[:i] + m[i:]
        if k == 10:
            return draw(st.sampled_from([None, "", "_", "%s%s%n", "nosuch", "x" * 9000, "\u00e9", n.upper(), n.lower()]))
        if k == 11:
            return os.path.commonprefix(ns) if len(ns) > 1 else n[:-1]
        return draw(st.sampled_from(ns))
    return f()


def fault_lines(draw, many):
    t = []
    for f in ("open", "close", "sym", "info", "addr", "atexit"):
        if draw(st.integers(0, 9)) < (4 if many else 2):
            t.append("faults %s %s" % (f, "".join(draw(st.lists(st.sampled_from("0011" if f != "sym" else "00001"), min_size=1, max_size=12)))))
    return t


@st.composite
def c_script(draw, shape, focus="state", max_cmds=14):
    ns = names(shape)
    libs = draw(libraries(shape))
    m = draw(maps())
    if focus in ("single",):
        libs = [[a, "1" * len(ns) if draw(st.booleans()) else b, "/p.so"] for a, b, c in libs]
    pick = st.sampled_from([l[0] for l in libs] * 3 + [None, "", "nosuch.so", "./x%s.so"])
    cmds = fault_lines(draw, False) if draw(st.booleans()) else []
    setup = []
    if draw(st.integers(0, 3)) == 0:
        setup.append("errlen %d" % draw(st.sampled_from([100, BUFLEN - 2, BUFLEN - 1, BUFLEN, BUFLEN + 1, 15000])))
    if draw(st.integers(0, 3)) == 0:
        setup.append("nulls 1")
    if draw(st.integers(0, 3)) == 0:
        setup.append("lname %d" % draw(st.integers(1, 2)))
    weights = {"state": ["n", "ns", "a", "a", "ll", "ls", "fr", "fr", "ff", "ar", "la", "la", "sy", "sy", "sn", "lp", "faults", "stale"],
               "error": ["n", "ns", "a", "a", "ll", "fr", "ff", "la", "sy", "sn", "si", "lp", "lp", "lp", "lp", "faults", "stale", "ar", "lname"],
               "single": ["n", "sy", "sy", "sy", "sn", "sn", "sn", "sn", "si", "si", "fr", "la", "ff"],
               "exit": ["n", "ns", "a", "ll", "fr", "ff", "ar", "ar", "ar", "la", "faults", "sy"]}[focus]
    body = []
    if draw(st.integers(0, 3)) > 0:
        body.append("n " + hexs(libs[draw(st.integers(0, len(libs) - 1))][0]))
    for _ in range(draw(st.integers(1, max_cmds))):
        k = draw(st.sampled_from(weights))
        if k in ("n", "ns"):
            body.append("%s %s" % (k, hexs(draw(pick))))
        elif k == "a":
            body.append("a %s %d %d" % (hexs(draw(pick)), draw(st.sampled_from([0, 1, 2, 0x101, 0x100, 6, -1])), draw(st.booleans())))
        elif k in ("ll", "ls"):
            body.append(k if shape.get("lib") else "ff")
        elif k == "sy":
            body.append("sy %d" % draw(st.integers(0, len(ns) - 1)))
        elif k == "si":
            body.append("si %d" % draw(st.sampled_from([-1, len(ns), len(ns) + 1, 2 ** 31 - 1, -2 ** 31, 1000])))
        elif k == "sn":
            body.append("sn " + hexs(draw(near_names(ns))))
        elif k == "faults":
            body += fault_lines(draw, True)[:2]
        elif k == "lname":
            body.append("lname %d" % draw(st.integers(0, 2)))
        else:
            body.append(k)
    end = draw(st.sampled_from(["ret", "ret", "exit 0", "exit 3", "_exit 0"]))
    return dict(shape=shape, libs=libs, maps=m, setup=setup + cmds, body=body, end=end)


def script_text(case):
    t = []
    for name, bits, path in case["libs"]:
        t.append("lib %s %s %s" % (hexs(name), bits, hexs(path)))
    m = case.get("maps")
    t.append("maps fail" if m is None else "maps " + hexs(m[0]))
    return "\n".join(t + case["setup"] + case["body"] + [case["end"]]) + "\n"


def execute(env, case, exe, timeout=60):
    r = run([exe], stdin=script_text(case).encode(), env=RUN_ENV, timeout=timeout, cwd=env.scratch)
    if r.timeout:
        raise Violation("the program does not end\n%r" % r)
    return r


# ---------------------------------------------------------------- the judge
class Judge:
    """collects violations by aspect: state, single, error, path, exit, handle"""

    def __init__(self, case, lang):
        self.case, self.lang = case, lang
        self.win = case["shape"].get("win")
        self.aw = None          # Win32: which of LoadLibraryExA and LoadLibraryExW may be called
        self.bad = []
        self.labels = set()
        self.ns = names(case["shape"])
        self.ever = []          # handles in the order of opening: [number, lib index, open]
        self.handle = None      # the handle that the loader holds
        self.ptrs = [0] * len(self.ns)
        self.reg = False
        self.n = 0
        self.faulty_paths = any(l.split()[0] in ("lname",) or l.startswith("faults info") or l.startswith("faults addr") for l in case["setup"] + case["body"])
        self.libs = case["libs"]

    def fail(self, aspects, msg):
        for a in aspects.split():
            self.bad.append((a, "command %d (%s): %s" % (self.n, self.cur, msg)))

    def lib_of(self, name):
        for i, l in enumerate(self.libs):
            if l[0] == name:
                return i
        return None

    # -- linker calls of one command
    def calls(self, c, kinds):
        return [d for d in c.dl if d[0] in kinds]

    def scan(self, c):
        """rules that hold for every command: handles"""
        self.msgs = []     # messages of the linker in this command
        self.fails = []    # (what, arg, message or None)
        for d in c.dl:
            if "BAD" in d:
                self.fail("handle state", "the dynamic linker was handed a handle or address that it never gave out or that is closed: %s" % " ".join(d))
            if d[0] in ("dlopen", "dlmopen", "dlmopenX"):
                if d[3] == "0":
                    self.msgs.append(unhex(d[4]))
                    self.fails.append(("open", unhex(d[1]), unhex(d[4])))
            elif d[0] == "dlclose":
                if d[2] == "0":
                    self.msgs.append(unhex(d[3]))
                    self.fails.append(("close", None, unhex(d[3])))
            elif d[0] == "dlsym":
                if d[3] == "0":
                    if d[4] != "-":
                        self.msgs.append(unhex(d[4]))
                    self.fails.append(("sym", unhex(d[2]), unhex(d[4])))
            elif d[0] == "dlinfo":
                if d[2] == "0":
                    self.msgs.append(unhex(d[3]))
                    self.fails.append(("info", None, unhex(d[3])))

    def no_calls(self, c, kinds, why):
        k = self.calls(c, kinds)
        if k:
            self.fail("state", "%s, but the dynamic linker was called: %r" % (why, k[:3]))

    # -- abstract operations; they return the expected result and error
    def do_open(self, c, name, flags, ns):
        """rules of a load; returns success"""
        if self.win is not None and self.win_scan_open(c, name):
            return False, ("convert",)
        if self.handle is not None:
            self.labels.add("load-while-loaded")
            self.no_calls(c, OPENS | {"dlclose", "dlsym"}, "a library is loaded already")
            return False, ("text", "already")
        if not name:
            self.labels.add("load-empty-name")
            self.no_calls(c, OPENS | {"dlclose", "dlsym"}, "the file name is empty")
            return False, ("text", "name")
        o = self.calls(c, OPENS)
        if len(o) != 1:
            self.fail("state", "expected exactly one open call, got %r" % (o,))
            ok = [x for x in o if x[3] != "0"]
            if ok:
                self.handle = ok[-1][3]
                return True, None
            return False, ("any",)
        d = o[0]
        if self.win is not None:
            if d[5] not in (self.aw or "AW"):
                self.fail("state", "opened through the %s function instead of %s" % (d[5], self.aw))
            name, ns = name.replace("/", "\\"), False
        if unhex(d[1]) != name:
            self.fail("state", "opened %r instead of %r" % (unhex(d[1]), name))
        if int(d[2]) != flags:
            self.fail("state", "opened with flags %s instead of %d" % (d[2], flags))
        if d[0] != ("dlmopen" if ns and self.has_dlmopen else "dlopen"):
            self.fail("state", "opened with %s although a new namespace was %srequested" % (d[0], "" if ns else "not "))
        if d[3] == "0":
            self.labels.add("open-fails")
            return False, ("msg", [unhex(d[4])])
        self.handle = d[3]
        return True, None

    def do_syms(self, c, wanted, aspects="state"):
        """rules of loading symbols `wanted` (indices); a loaded symbol need not be asked for again"""
        got = {}
        for d in self.calls(c, {"dlsym"}):
            if d[1] != self.handle:
                self.fail(aspects, "symbol looked up in %s but %s is loaded" % (d[1], self.handle))
            n = unhex(d[2])
            if n not in self.ns:
                self.fail(aspects, "looked up unknown symbol %r" % n)
                continue
            i = self.ns.index(n)
            if i not in wanted:
                self.fail(aspects, "looked up %r, which was not asked for" % n)
            got[i] = 0 if d[3] == "0" else int(d[3], 16)
        for i in got:
            if self.ptrs[i] and not got[i] and len(wanted) == 1:
                self.fail(aspects, "symbol %s was loaded, but was looked up again and lost" % self.ns[i])
            self.ptrs[i] = got[i]
        ok = all(self.ptrs[i] for i in wanted)
        if not ok:
            f = [x for x in self.fails if x[0] == "sym"]
            if not f:
                self.fail(aspects, "not all wanted symbols are loaded, though no lookup failed")
            m = [x[2] for x in f if x[2]]
            self.labels.add("symbol-missing")
            if any(x[2] is None for x in f):
                self.labels.add("symbol-null-without-message")
                return False, ("sym", [x[1] for x in f], m)
            return False, ("msg", m)
        return True, None

    def do_load_all(self, c):
        if self.handle is None:
            self.no_calls(c, OPENS | {"dlclose", "dlsym"}, "no library is loaded")
            return False, ("text", "no library")
        self.no_calls(c, OPENS | {"dlclose"}, "symbols are loaded")
        return self.do_syms(c, range(len(self.ns)))

    def do_load_one(self, c, i, given):
        """i: index or None for an unknown symbol"""
        if self.handle is None:
            self.no_calls(c, OPENS | {"dlclose", "dlsym"}, "no library is loaded")
            return False, ("text", "no library")
        self.no_calls(c, OPENS | {"dlclose"}, "a symbol is loaded")
        if i is None:
            self.labels.add("unknown-symbol")
            if self.calls(c, {"dlsym"}):
                self.fail("state single", "%r is no symbol of the list, but a lookup was made: %r" % (given, c.dl[:2]))
            return False, ("unknown", given)
        return self.do_syms(c, [i], "state single")

    def do_free(self, c, force):
        if self.handle is None:
            self.no_calls(c, OPENS | {"dlclose", "dlsym"}, "no library is loaded")
            self.labels.add("free-unloaded")
            return True, None
        k = self.calls(c, {"dlclose"})
        if len(k) != 1 or k[0][1] != self.handle:
            self.fail("state handle", "expected one close of %s, got %r" % (self.handle, k))
        self.no_calls(c, OPENS | {"dlsym"}, "the library is freed")
        ok = bool(k) and k[-1][2] == "1"
        if not ok:
            self.labels.add("close-fails" + ("-forced" if force else ""))
        if ok or force:
            self.openh.discard(self.handle)
            self.handle = None
            self.ptrs = [0] * len(self.ns)
            return True, None
        return False, ("msg", [unhex(k[-1][3])] if k else [])

    def expected_paths(self):
        """(set of right answers for the current handle, whether it must be known)"""
        h = int(self.handle[1:])
        p = self.libs[self.hlib[self.handle]][2]
        ok = {p}
        if self.win is not None:
            return ok
        if not p.startswith("/"):
            m = self.case.get("maps")
            q = m[1].get(str(h)) if m else None
            if q and len(q) >= BUFLEN:
                # does not fit in the library's buffer
                q = None
                self.labels.add("map-path-too-long")
            if q:
                if self.faulty_paths:
                    ok.add(q)
                else:
                    ok = {q}
                self.labels.add("relative-path-from-maps")
        return ok

    def do_path(self, c, value):
        """value: what the call gave (None: nothing)"""
        if self.handle is None:
            self.no_calls(c, OPENS | {"dlclose", "dlsym"}, "no library is loaded")
            if value is not None:
                self.fail("path", "library path %r though no library is loaded" % value[:200])
            return False, ("text", "no library")
        self.no_calls(c, OPENS | {"dlclose", "dlsym"}, "the path is asked for")
        ok = self.expected_paths()
        if value is not None:
            self.labels.add("path")
            if value not in ok:
                self.fail("path", "library path %r (length %d), but the loaded library is %r" % (value[:200], len(value), [x[:200] for x in ok]))
            return True, None
        self.labels.add("path-unknown")
        # nothing: is there a reason?
        fits = [x for x in ok if self.win is None and self.lang != "c" or len(x if self.win and self.win.get("wide") else x.encode()) < (BUFLEN if self.win is None else WINBUF)]
        known = [d for d in c.dl if d[0] == "dlinfo" and d[2] == "1" and d[3] not in ("-", "=")] + [d for d in c.dl if d[0] == "dladdr" and d[1] == "1"]
        tried = [d for d in c.dl if d[0] in ("dlinfo", "dladdr")]
        if known and len(fits) == len(ok):
            self.fail("path", "no library path although the dynamic linker told it: %r" % known[0])
        if not tried:
            self.fail("path", "no library path, without asking the dynamic linker")
        if not fits:
            self.labels.add("path-too-long")
        if self.win is None and not [d for d in c.dl if d[0] == "dladdr"] and any(self.ptrs) and fits and not known:
            self.fail("path", "no library path, and no loaded symbol was tried with dladdr()")
        return False, ("any",)

    # -- texts
    def check_error(self, texts, exp, limit=-1):
        if limit == -1:
            limit = self.errlimit
        a, b = texts
        if a != b:
            self.fail("error", "the error text changes when asked twice: %r then %r" % (a[:300], (b or "")[:300]))
        if not a:
            self.fail("error", "empty error text")
            return
        if self.win is not None:
            self.win_error(a, exp)
            return
        if exp is None:
            if a != "no error":
                self.fail("error", "the operation succeeded, but the error text is %r" % a[:300])
            return
        if a == "no error":
            self.fail("error", "the operation failed, but the error text is 'no error' (%r)" % (exp,))
            return
        cut = (lambda s: s.encode()[:limit].decode("utf-8", "replace")) if limit else (lambda s: s)
        # no message of an earlier operation
        for n in re.findall(r"\bE(\d+):(?:open|close|sym|info|stale):", a):
            if not any(m.startswith("E%s:" % n) for m in self.msgs):
                self.fail("error", "the error text is a message of another operation: %r" % a[:300])
                return
        if exp[0] == "msg":
            if exp[1] and a not in [cut(m) for m in exp[1]]:
                self.fail("error", "error text %r, but the dynamic linker said %r" % (a[:300], [m[:300] for m in exp[1]]))
        elif exp[0] == "sym":
            if not any(n[:200] in a for n in exp[1]) and a not in [cut(m) for m in exp[2]]:
                self.fail("error", "error text %r does not name the symbol that is null: %r" % (a[:300], exp[1]))
        elif exp[0] == "text":
            if exp[1] not in a.lower():
                self.fail("error", "error text %r does not tell the reason (%s)" % (a[:300], exp[1]))
        elif exp[0] == "unknown":
            g = exp[1]
            if isinstance(g, int):
                if str(g) not in a:
                    self.fail("error single", "error text %r does not name the number %d" % (a[:300], g))
            elif g:
                if g.encode()[:4000].decode("utf-8", "replace").rstrip("\ufffd") not in a:
                    self.fail("error single", "error text %r does not name the symbol %r" % (a[:300], g[:300]))

    def check_state(self, s, extra=True):
        flags = s[0]
        p = [int(x, 16) for x in s[1:1 + len(self.ns)]]
        if p != self.ptrs:
            for i, n in enumerate(self.ns):
                if p[i] != self.ptrs[i]:
                    self.fail("state single" if self.cur in ("sy", "sn", "si") else "state", "pointer of %s is %x, but should be %x" % (n, p[i], self.ptrs[i]))
        if (flags[0] == "1") != (self.handle is not None):
            self.fail("state", "loaded predicate is %s, but the handle is %s" % (flags[0], self.handle))
        al, no, an = all(self.ptrs), not any(self.ptrs), any(self.ptrs)
        for k in range(1, len(flags), 3):
            if flags[k:k + 3] != "%d%d%d" % (al, no, an):
                self.fail("state", "all/no/any predicates are %s for pointers %r" % (flags[k:k + 3], p))
        if self.handle is None and any(p):
            self.fail("state", "no library is loaded, but pointers are set: %r" % p)

    def opened(self, c):
        for d in c.dl:
            if d[0] in OPENS and d[3] != "0":
                self.hlib[d[3]] = self.lib_of(unhex(d[1]))
                self.openh.add(d[3])
            if d[0] == "dlclose" and d[2] == "1":
                self.openh.discard(d[1])

    def check_leak(self):
        if self.openh - {self.handle}:
            self.fail("state handle", "a handle was opened and lost: %r" % sorted(self.openh - {self.handle}))

    def extra(self, c):
        pass

    def command(self, c, a, o):
        raise InfraError("unknown command %r" % a)

    def cxx_new(self, a, df):
        """the state of a new C++ object"""
        return dict(file=unhex(a[2]) if a[0] == "newf" else "", flags=int(a[3]) if len(a) > 3 else df, ns=len(a) > 4 and a[4] in ("1", "True"), dtor=True)

    def cxx_load(self, c, a, o):
        pass

    def make_libname(self, name, api):
        return "lib%s.so.%s" % (name, api) if self.win is None else "%s%s-%s.dll" % ("lib" if self.win.get("mingw") else "", name, api)

    has_dlmopen = True
    errlimit = BUFLEN - 1
    hlib = None
    cur = "start"


OPENS = {"dlopen", "dlmopen", "dlmopenX"}


def judge_c(case, r, cls=Judge):
    """-> Judge with all violations of the C API rules"""
    j = cls(case, "c")
    j.hlib, j.openh = {}, set()
    sh = case["shape"]
    cmds, end = parse_log(r.out)
    body = [l for l in case["body"] if l.split()[0] not in ("faults", "stale", "lname", "errlen", "nulls", "maps", "lib", "ldmode", "pq")]
    script = ["start"] + body + ([case["end"]] if case["end"] != "ret" else ["ret"])
    df = default_flags(sh)
    if r.rc == 88 or b"Sanitizer" in r.err or b"runtime error" in r.err:
        j.fail("state error path single exit handle", "sanitizer report: %r" % r)
        return j
    for n, c in enumerate(cmds):
        if n >= len(script):
            j.fail("state", "unexpected output")
            break
        a = script[n].split()
        j.n, j.cur = n, a[0]
        if c.name != a[0] and n:
            raise InfraError("log out of step: %r %r" % (c.name, a))
        if a[0] in ("exit", "_exit", "ret"):
            continue
        if c.s is None or n and c.r is None or c.e is None:
            j.fail("state error path single exit handle", "the program died (status %s) in %s" % (r.rc, script[n][:200]))
            return j
        j.scan(c)
        j.opened(c)
        before = (j.handle, list(j.ptrs))
        if a[0] == "start":
            exp = (None, None)
            if c.dl:
                j.fail("state", "linker calls before the first use: %r" % c.dl)
        elif a[0] in ("n", "ns", "a", "ll", "ls"):
            name = dflt_name(sh["lib"], sh.get("win"), sh.get("plat")) if a[0] in ("ll", "ls") else unhex(a[1])
            flags, ns = (int(a[2]), a[3] in ("1", "True")) if a[0] == "a" else (df, False)
            exp = j.do_open(c, name, flags, ns)
            if a[0] in ("ns", "ls"):
                if exp[0]:
                    exp = j.do_syms(c, range(len(j.ns)))
            elif exp[0]:
                j.no_calls(c, {"dlsym", "dlclose"}, "only the library is loaded")
        elif a[0] == "fr":
            exp = j.do_free(c, False)
        elif a[0] == "ff":
            exp = j.do_free(c, True)
        elif a[0] == "ar":
            at = [d for d in c.dl if d[0] == "atexit"]
            j.no_calls(c, OPENS | {"dlsym", "dlclose"}, "autorelease is enabled")
            if j.reg:
                if at:
                    j.fail("exit", "registered again")
                exp = (True, None)
            else:
                if len(at) != 1:
                    j.fail("exit", "expected one registration, got %r" % at)
                j.reg = bool(at) and at[-1][1] == "1"
                exp = (j.reg, None if j.reg else ("any",))
                if not j.reg:
                    j.labels.add("atexit-fails")
            if bool(c.r) != exp[0]:
                j.fail("exit", "enable_autorelease returned %d" % c.r)
        elif a[0] == "la":
            exp = j.do_load_all(c)
        elif a[0] == "sy":
            exp = j.do_load_one(c, int(a[1]), None)
        elif a[0] == "si":
            exp = j.do_load_one(c, None, int(a[1]))
        elif a[0] == "sn":
            g = unhex(a[1])
            exp = j.do_load_one(c, j.ns.index(g) if g in j.ns else None, g)
        elif a[0] == "lp":
            exp = j.do_path(c, c.p)
        else:
            raise InfraError("unknown command %r" % a)
        if a[0] != "start" and a[0] != "ar":
            asp = {"lp": "path", "sy": "state single", "si": "state single", "sn": "state single"}.get(a[0], "state")
            if a[0] != "lp" and bool(c.r) != exp[0]:
                j.fail(asp, "returned %d instead of %d (%s)" % (c.r, exp[0], script[n][:100]))
        j.check_state(c.s)
        j.check_error(c.e, exp[1])
        j.extra(c)
        j.check_leak()
        if (j.handle, j.ptrs) != before:
            j.labels.add("state-changes")
    # the end
    j.n, j.cur = len(cmds), case["end"]
    want = {"ret": 0, "exit 0": 0, "exit 3": 3, "_exit 0": 0}[case["end"]]
    if end is None or r.rc != want:
        j.fail("state exit", "the program ended with status %s instead of %d\n%r" % (r.rc, want, r.err[-500:]))
    else:
        closes = [t for t in end if t[:2] == ["D", "dlclose"]]
        other = [t for t in end if t[:2] != ["D", "dlclose"]]
        if other:
            j.fail("exit", "unexpected at exit: %r" % other)
        expc = [j.handle] if j.reg and j.handle and case["end"] != "_exit 0" else []
        if [t[2] for t in closes] != expc:
            j.fail("exit", "closed at exit: %r, expected %r" % (closes, expc))
        if any("BAD" in t for t in end):
            j.fail("exit handle", "closed a closed handle at exit: %r" % closes)
        j.labels.add("end-loaded" if j.handle else "end-unloaded")
        j.labels.add("reg" if j.reg else "noreg")
    return j


@st.composite
def cxx_script(draw, shape, focus="state", max_cmds=16):
    ns = names(shape)
    libs = draw(libraries(shape, dflt=False))
    if focus == "single":
        libs = [[a, "1" * len(ns) if draw(st.booleans()) else b, "/p.so"] for a, b, c in libs]
    pick = st.sampled_from([l[0] for l in libs] * 3 + ["", "nosuch.so", "./x%s.so"])
    setup = fault_lines(draw, False) if draw(st.booleans()) else []
    if draw(st.integers(0, 3)) == 0:
        setup.append("errlen %d" % draw(st.sampled_from([100, BUFLEN, 15000])))
    if draw(st.integers(0, 3)) == 0:
        setup.append("nulls 1")
    if draw(st.integers(0, 4)) == 0:
        setup.append("lname %d" % draw(st.integers(1, 2)))
    flags = st.sampled_from([0, 1, 2, 0x101, 0x100, 6, -1])
    weights = {"state": ["new", "newf", "del", "a", "a", "a", "ll", "ll", "ls", "ls", "fr", "fr", "ff", "ff", "dt", "la", "la", "la", "sy", "sy", "sn", "si", "lp", "lp", "lp", "lp", "faults", "stale", "self", "lname", "mk"],
               "single": ["a", "sy", "sy", "sy", "sn", "sn", "sn", "sn", "si", "si", "fr", "la", "ff"],
               "exit": ["new", "newf", "newf", "del", "a", "ll", "fr", "ff", "dt", "dt", "dt", "la", "sy", "faults"]}[focus]
    alive, body = {}, []

    def args(k):
        t = "%s %d %s" % (k, alive_k, hexs(draw(pick)))
        n = draw(st.integers(0, 2))
        if n:
            t += " %d" % draw(flags)
        if n == 2:
            t += " %d" % draw(st.booleans())
        return t
    # objects to begin with, mostly with names of libraries that exist
    for i in range(draw(st.integers(0, 3))):
        alive_k = draw(st.sampled_from([i, i, i, 3 + i]))
        if alive_k in alive:
            continue
        alive[alive_k] = 1
        body.append("newf %d %s" % (alive_k, hexs(libs[draw(st.integers(0, len(libs) - 1))][0])))
    if alive and draw(st.booleans()):
        body.append("%s %d" % (draw(st.sampled_from(["ll", "ls"])), draw(st.sampled_from(sorted(alive)))))
    for step in range(draw(st.integers(2, max_cmds))):
        k = draw(st.sampled_from(weights)) if alive else draw(st.sampled_from(["new", "newf"]))
        if k in ("new", "newf"):
            free = [i for i in range(6) if i not in alive]
            if not free or len(alive) > 3:
                continue
            alive_k = draw(st.sampled_from(free))
            alive[alive_k] = 1
            body.append("new %d" % alive_k if k == "new" else args("newf"))
            continue
        if k == "faults":
            body += fault_lines(draw, True)[:2]
            continue
        if k == "stale":
            body.append(k)
            continue
        if k == "lname":
            body.append("lname %d" % draw(st.integers(0, 2)))
            continue
        alive_k = draw(st.sampled_from(sorted(alive)))
        if k == "del":
            del alive[alive_k]
            body.append("del %d" % alive_k)
        elif k == "a":
            body.append(args("a"))
        elif k == "sy":
            body.append("sy %d %d" % (alive_k, draw(st.integers(0, len(ns) - 1))))
        elif k == "si":
            body.append("si %d %d" % (alive_k, draw(st.sampled_from([-1, len(ns), len(ns) + 1, 2 ** 31 - 1, -2 ** 31]))))
        elif k == "sn":
            body.append("sn %d %s" % (alive_k, hexs(draw(near_names(ns)))))
        elif k == "dt":
            body.append("dt %d %d" % (alive_k, draw(st.booleans())))
        elif k == "mk":
            body.append("mk %d %s %d" % (alive_k, hexs(draw(st.sampled_from(["", "x", "foo-bar", "a b", "%s", "\u00fc"]))), draw(st.sampled_from([0, 1, 12, 2 ** 32, 2 ** 64 - 1]))))
        else:
            body.append("%s %d" % (k, alive_k))
    return dict(shape=shape, libs=libs, maps=draw(maps()), setup=setup, body=body, end=draw(st.sampled_from(["ret", "ret", "exit 0", "exit 3"])))


def judge_cxx(case, r, cls=Judge):
    j = cls(case, "c++")
    j.hlib, j.openh = {}, set()
    sh = case["shape"]
    cmds, end = parse_log(r.out)
    body = [l for l in case["body"] if l.split()[0] not in ("faults", "stale", "lname", "errlen", "nulls", "maps", "lib", "ldmode", "pq")]
    script = ["start"] + body + [case["end"]]
    df = default_flags(sh)
    ALL = "state error path single exit handle object"
    if r.rc == 88 or b"Sanitizer" in r.err or b"runtime error" in r.err:
        j.fail(ALL, "sanitizer report: %r" % r)
        return j
    objs, texts = {}, {}
    for n, c in enumerate(cmds):
        if n >= len(script):
            j.fail("state", "unexpected output")
            break
        a = script[n].split()
        j.n, j.cur = n, a[0]
        if c.name != a[0] and n:
            raise InfraError("log out of step: %r %r" % (c.name, a))
        if a[0] in ("exit", "ret"):
            continue
        if c.s is None or n and c.r is None:
            j.fail(ALL, "the program died (status %s) in %s" % (r.rc, script[n][:200]))
            return j
        j.scan(c)
        j.opened(c)
        before = (j.handle, list(j.ptrs))
        k = int(a[1]) if len(a) > 1 else None
        o = objs.get(k)
        exp = (True, None)
        aspect = "state"
        if a[0] == "start":
            if c.dl:
                j.fail("state", "linker calls before the first use: %r" % c.dl)
        elif a[0] in ("new", "newf", "newfw", "newfc"):
            objs[k] = o = j.cxx_new(a, df)
            if c.dl:
                j.fail("state", "construction calls the dynamic linker: %r" % c.dl[:2])
        elif a[0] == "del":
            del objs[k]
            texts.pop(k, None)
            if o["dtor"]:
                j.labels.add("destructor-frees" if j.handle else "destructor-nothing-loaded")
                j.do_free(c, True)
            else:
                j.labels.add("destructor-disabled")
                if c.dl:
                    j.fail("exit object", "destructor with freeing disabled calls the dynamic linker: %r" % c.dl[:2])
            o = None
        elif a[0] in ("a", "self", "ll", "ls", "aw", "ac"):
            j.cxx_load(c, a, o)
            if a[0] == "a":
                o["file"], o["flags"], o["ns"] = unhex(a[2]), int(a[3]) if len(a) > 3 else df, len(a) > 4 and a[4] in ("1", "True")
            elif a[0] == "self":
                o["ns"] = False
            exp = j.do_open(c, o["file"], o["flags"], o["ns"])
            if a[0] == "ls":
                if exp[0]:
                    exp = j.do_syms(c, range(len(j.ns)))
            elif exp[0]:
                j.no_calls(c, {"dlsym", "dlclose"}, "only the library is loaded")
        elif a[0] in ("fr", "ff"):
            exp = j.do_free(c, a[0] == "ff")
        elif a[0] == "dt":
            o["dtor"] = a[2] in ("1", "True")
            exp = (True, "keep")
        elif a[0] == "mk":
            exp = (True, "keep")
            want = j.make_libname(unhex(a[2]), a[3])
            if c.p != want:
                j.fail("object", "make_libname gave %r instead of %r" % (c.p, want))
        elif a[0] == "la":
            exp = j.do_load_all(c)
        elif a[0] == "sy":
            exp = j.do_load_one(c, int(a[2]), None)
            aspect = "state single"
        elif a[0] == "si":
            exp = j.do_load_one(c, None, int(a[2]))
            aspect = "state single"
        elif a[0] == "sn":
            g = unhex(a[2])
            exp = j.do_load_one(c, j.ns.index(g) if g in j.ns else None, g)
            aspect = "state single"
        elif a[0] == "lp":
            exp = j.do_path(c, c.p or None)
            aspect = "path"
        else:
            exp, aspect = j.command(c, a, o)
        j.extra(c)
        if a[0] != "start" and a[0] != "lp" and bool(c.r) != exp[0]:
            j.fail(aspect, "returned %d instead of %d (%s)" % (c.r, exp[0], script[n][:100]))
        j.check_state(c.s)
        # every object
        if set(c.objs) != set(objs):
            raise InfraError("objects out of step: %r %r" % (c.objs.keys(), objs.keys()))
        for i, v in sorted(c.objs.items()):
            e1, e2, f, fl, dt = unhex(v[0]), unhex(v[1]), unhex(v[2]), int(v[3]), v[4] == "1"
            w = objs[i]
            if f != w["file"]:
                j.fail("object", "filename of object %d is %r instead of %r" % (i, f[:200], w["file"][:200]))
            if fl != w["flags"]:
                j.fail("object", "flags of object %d are %d instead of %d" % (i, fl, w["flags"]))
            if dt != w["dtor"]:
                j.fail("object", "free_lib_in_dtor of object %d is %d" % (i, dt))
            if i == k and exp[1] != "keep":
                j.check_error((e1, e2), exp[1], None)
            elif i in texts and e1 != texts[i]:
                j.fail("error", "error text of object %d changed to %r by an operation on object %s" % (i, e1[:200], k))
            texts[i] = e1
        if len(objs) > 1:
            j.labels.add("several-objects")
        j.check_leak()
        if (j.handle, j.ptrs) != before:
            j.labels.add("state-changes")
    j.n, j.cur = len(cmds), case["end"]
    want = {"ret": 0, "exit 0": 0, "exit 3": 3}[case["end"]]
    if end is None or r.rc != want:
        j.fail("state exit", "the program ended with status %s instead of %d\n%r" % (r.rc, want, r.err[-500:]))
    else:
        dead = [i for i in objs if i >= 4 or i < 2 and case["end"] == "ret"]
        frees = any(objs[i]["dtor"] for i in dead)
        closes = [t for t in end if t[:2] == ["D", "dlclose"]]
        if [t for t in end if t[:2] != ["D", "dlclose"]]:
            j.fail("exit", "unexpected at exit: %r" % end)
        expc = [j.handle] if frees and j.handle else []
        if [t[2] for t in closes] != expc:
            j.fail("exit object", "closed at the end: %r, expected %r" % (closes, expc))
        j.labels.add("end-loaded" if j.handle else "end-unloaded")
        if frees:
            j.labels.add("end-frees")
    return j


# ---------------------------------------------------------------- minimal headers
MINC_DRIVER = """
static unsigned long ptr(int i) { switch (i) { %(ptrs)s } return 0; }
static int cmdno;
static void state(void)
{
    shim_log("S %%p", (void *)%(h)s);
    for (int i = 0; i < shim_count; i++) shim_log(" %%lx", ptr(i));
    shim_log("\\n");
}
static void cb(int c, char **v)
{
    (void)c;
    shim_log("C %%d %%s\\n", cmdno++, v[0]);
    if (!strcmp(v[0], "l")) {
        XCHAR *f = XUNHEX(v[1]);
        %(load)s
        free(f);
    }
    else if (!strcmp(v[0], "f")) %(free)s();
    else return;
    shim_log("R 1\\n");
    state();
}
int main(void)
{
    state();
    shim_script(cb);
    shim_log("X\\n");
    return 0;
}
"""


def minimal_driver(shape, out):
    up, lo = shape["pfx"].upper(), shape["pfx"].lower()
    ns = names(shape)
    cxx = shape["lang"] == "minimal-c++"
    raw = (lo + "::" + up + "_PTR_%s") if cxx else (lo + "_hndl." + up + "_PTR_%s")
    ptrs = " ".join("case %d: return (unsigned long)%s;" % (i, raw % n) for i, n in enumerate(ns))
    if cxx:
        load = """try { %(l)s::load_library_and_symbols(f); shim_log("M ok -\\n"); }
        catch (const %(l)s::LibraryError &e) { shim_log("M lib %%s\\n", shim_hex(e.what())); }
        catch (const %(l)s::SymbolError &e) { shim_log("M sym %%s\\n", shim_hex(e.what())); }
        catch (const std::exception &e) { shim_log("M other %%s\\n", shim_hex(e.what())); }
        catch (...) { shim_log("M other -\\n"); }""" % dict(l=lo)
    else:
        load = "const char *m = %s_load_library_and_symbols(f); shim_log(\"M msg %%s\\n\", shim_hex(m));" % lo
    d = dict(ptrs=ptrs, h=lo + "::handle" if cxx else lo + "_hndl.handle", load=load, free=lo + ("::" if cxx else "_") + "free_library")
    return pre_macros(shape) + '#include "%s"\n' % out + DRIVER_HEAD + names_table(shape) + MINC_DRIVER % d


@st.composite
def minimal_script(draw, shape, max_cmds=12):
    libs = draw(libraries(shape, dflt=False))
    pick = st.sampled_from([l[0] for l in libs] * 3 + [None, "", "nosuch.so", "./x%s.so", "filename is empty"])
    setup = fault_lines(draw, False) if draw(st.booleans()) else []
    if draw(st.integers(0, 3)) == 0:
        setup.append("nulls 1")
    body = []
    for _ in range(draw(st.integers(1, max_cmds))):
        k = draw(st.sampled_from(["l", "l", "l", "f", "f", "faults", "stale"]))
        if k == "l":
            body.append("l " + hexs(draw(pick)))
        elif k == "faults":
            body += fault_lines(draw, True)[:2]
        else:
            body.append(k)
    return dict(shape=shape, libs=libs, maps=None, setup=setup, body=body, end="end")


def judge_minimal(case, r):
    j = Judge(case, "minimal")
    j.hlib, j.openh = {}, set()
    cxx = case["shape"]["lang"] == "minimal-c++"
    cmds, end = parse_log(r.out)
    body = [l for l in case["body"] if l.split()[0] not in ("faults", "stale")]
    script = ["start"] + body + ["end"]
    if r.rc == 88 or b"Sanitizer" in r.err or b"runtime error" in r.err:
        j.fail("state", "sanitizer report: %r" % r)
        return j
    for n, c in enumerate(cmds):
        a = script[n].split()
        j.n, j.cur = n, a[0]
        if a[0] == "end":
            continue
        if c.s is None or n and c.r is None:
            j.fail("state", "the program died (status %s) in %s" % (r.rc, script[n][:200]))
            return j
        j.scan(c)
        j.opened(c)
        old = j.handle
        closes = j.calls(c, {"dlclose"})
        opens = j.calls(c, OPENS)
        for d in closes:
            if closes.count(d) > 1:
                j.fail("state", "closed twice: %r" % d)
            j.openh.discard(d[1])   # a failing close is given up
        if a[0] == "start":
            pass
        elif a[0] == "f":
            if [d[1] for d in closes] != ([old] if old else []) or opens:
                j.fail("state", "free made the calls %r, %s was loaded" % (c.dl, old))
            j.handle, j.ptrs = None, [0] * len(j.ns)
            j.labels.add("free-loaded" if old else "free-unloaded")
        else:
            name = unhex(a[1])
            m = [t for t in c.other if t[0] == "M"]
            kind, msg = (m[0][1], unhex(m[0][2])) if m else ("none", None)
            ok = kind == "ok" if cxx else msg is None
            if old:
                j.labels.add("load-while-loaded")
                if [d[1] for d in closes].count(old) != 1:
                    j.fail("state", "%s was loaded and was not closed by the next load" % old)
            j.handle, j.ptrs = None, [0] * len(j.ns)
            if not name:
                if opens:
                    j.fail("state", "opened %r for an empty name" % opens)
                want = ("<NULL>" if name is None else "<EMPTY>") if cxx else ("null" if name is None else "empty")
                if ok:
                    j.fail("state", "success for an empty name")
                elif cxx and (kind != "lib" or msg != want):
                    j.fail("state", "%s(%r) for an empty name, expected LibraryError(%r)" % (kind, msg, want))
                elif not cxx and want not in msg.lower():
                    j.fail("state", "message %r for an empty name" % msg)
                j.labels.add("empty-name")
            else:
                if len(opens) != 1 or unhex(opens[0][1]) != name or opens[0][2] != str(1 | 0x40000 if case["shape"].get("plat") == "aix" else 1) or opens[0][0] != "dlopen":
                    j.fail("state", "expected dlopen(%r, RTLD_LAZY), got %r" % (name, opens))
                h = opens[0][3] if opens else "0"
                if h == "0":
                    j.labels.add("open-fails")
                    if j.calls(c, {"dlsym"}):
                        j.fail("state", "symbols were looked up although nothing was opened")
                    if ok:
                        j.fail("state", "success although the library could not be opened")
                    elif cxx and (kind != "lib" or msg != name):
                        j.fail("state", "%s(%r), expected LibraryError(%r)" % (kind, msg, name))
                    elif not cxx and ("library" not in msg or any(re.search(r"\b%s\b" % x, msg) for x in j.ns)):
                        j.fail("state", "message %r does not tell that the library could not be loaded" % msg)
                else:
                    syms = j.calls(c, {"dlsym"})
                    bad = [d for d in syms if d[3] == "0"]
                    if any(d[1] != h for d in syms):
                        j.fail("state", "looked up in a wrong handle: %r" % syms)
                    if bad:
                        j.labels.add("symbol-missing")
                        w = unhex(bad[0][2])
                        if h not in [d[1] for d in closes]:
                            j.fail("state", "%s was not closed after symbol %s was missing" % (h, w))
                        if ok:
                            j.fail("state", "success although symbol %s is missing" % w)
                        elif cxx and (kind != "sym" or msg != w):
                            j.fail("state", "%s(%r), expected SymbolError(%r)" % (kind, msg, w))
                        elif not cxx and [x for x in j.ns if re.search(r"(?<!\w)%s(?!\w)" % x, msg)] != [w]:
                            j.fail("state", "message %r does not name the first missing symbol %s" % (msg, w))
                    else:
                        got = {}
                        for d in syms:
                            got[unhex(d[2])] = int(d[3], 16)
                        if set(got) != set(j.ns):
                            j.fail("state", "looked up %r instead of %r" % (sorted(got), sorted(j.ns)))
                        if not ok:
                            j.fail("state", "failure (%s %r) although everything was loaded" % (kind, msg))
                        j.handle = h
                        j.ptrs = [got.get(x, 0) for x in j.ns]
                        j.labels.add("loaded")
        p = [int(x, 16) for x in c.s[1:]]
        if (c.s[0] != "(nil)") != (j.handle is not None):
            j.fail("state", "handle is %s, but %s is loaded" % (c.s[0], j.handle))
        if p != j.ptrs:
            j.fail("state", "pointers are %r instead of %r" % (p, j.ptrs))
        j.check_leak()
    j.n, j.cur = len(cmds), "end"
    if end is None or r.rc != 0:
        j.fail("state", "the program died: %r" % r)
    elif any(t[0] == "D" for t in end):
        j.fail("state", "linker calls at the end: %r" % end)
    return j


# ---------------------------------------------------------------- plugins
PLUGIN_WRAPS = "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup", "strndup"))
PLUGIN_DRIVER = """
int shim_handle(void *p);
#define NLIST 3
/* bookkeeping of the memory that the plugin code asks for */
#define MAXMEM 4096
static void *blocks[MAXMEM]; static int nblocks; static int armed;
static void note(void *p) { if (armed && p) blocks[nblocks++] = p; }
static int forget(void *p) { for (int i = 0; i < nblocks; i++) if (blocks[i] == p) { blocks[i] = blocks[--nblocks]; return 1; } return 0; }
#ifdef TRACK
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n); void __real_free(void *p); char *__real_strdup(const char *s); char *__real_strndup(const char *s, size_t n);
/* fresh memory is never zero */
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) memset(p, 0xA5, n); note(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); note(p); return p; }
void *__wrap_realloc(void *p, size_t n) { void *q; if (armed) forget(p); q = __real_realloc(p, n); note(q); return q; }
void __wrap_free(void *p) { if (armed && p && !forget(p)) shim_log("BADFREE\\n"); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); note(p); return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); note(p); return p; }
#endif
static %(l)s_plugin_t *lists[NLIST];
static unsigned long ptr(%(l)s_handle_t *h, int i) { switch (i) { %(ptrs)s } return 0; }
static int cmdno;
static void state(void)
{
    for (int k = 0; k < NLIST; k++) {
        if (!lists[k]) continue;
        shim_log("L %%d %%lu\\n", k, (unsigned long)lists[k]->num);
        for (size_t n = 0; n < lists[k]->num; n++) {
            %(l)s_handle_t *h = &lists[k]->list[n];
            shim_log("N %%d %%lu %%s %%d", k, (unsigned long)n, XHEX(h->filename), shim_handle((void *)h->handle));
            for (int i = 0; i < shim_count; i++) shim_log(" %%lx", ptr(h, i));
            shim_log("\\n");
        }
    }
    shim_log("M %%d\\n", nblocks);
}
static size_t xlen(const XCHAR *s) { size_t n = 0; while (s[n]) n++; return n; }
static void cb(int c, char **v)
{
    int r = 0;
    shim_log("C %%d %%s\\n", cmdno++, v[0]);
    if (!strcmp(v[0], "load")) {
        int k = atoi(v[1]);
        size_t n = 0, cap = c > 2 ? strlen(v[2]) : 0;
        XCHAR **f = (XCHAR **)malloc((cap + 2) * sizeof(XCHAR *));
        char *save = NULL;
        if (c > 2) for (char *t = strtok_r(v[2], ",", &save); t; t = strtok_r(NULL, ",", &save)) {
            /* every other time a repeated name is one string, passed again */
            XCHAR *x = XUNHEX(t);
            for (size_t i = 0; x && i < n && n %% 2; i++) if (f[i] && xlen(f[i]) == xlen(x) && !memcmp(f[i], x, xlen(x) * sizeof(XCHAR))) { free(x); x = f[i]; break; }
            f[n++] = x;
        }
        f[n] = (XCHAR *)16; /* not an entry */
        armed = 1;
        lists[k] = %(l)s_load_plugins((const %(l)s_char_t **)f, n);
        armed = 0;
        r = lists[k] != NULL;
        for (size_t i = 1; lists[k] && i < lists[k]->num; i++)
            for (size_t m = 0; m < i; m++) if (lists[k]->list[i].filename && lists[k]->list[i].filename == lists[k]->list[m].filename) shim_log("SAMECOPY %%lu %%lu\\n", (unsigned long)i, (unsigned long)m);
        for (size_t i = 0; i < n; i++) {
            if (lists[k] && i < lists[k]->num && f[i] && lists[k]->list[i].filename == f[i]) shim_log("SAMECOPY %%lu\\n", (unsigned long)i);
            if (f[i]) memset(f[i], 'X', xlen(f[i]) * sizeof(XCHAR));
        }
        for (size_t i = 0; i < n; i++) {
            for (size_t m = i + 1; m < n; m++) if (f[m] == f[i]) f[m] = NULL;
            free(f[i]);
        }
        free(f);
    }
    else if (!strcmp(v[0], "null")) { armed = 1; r = %(l)s_load_plugins(NULL, (size_t)strtoul(v[1], NULL, 10)) != NULL; armed = 0; }
    else if (!strcmp(v[0], "end")) return;
    else if (!strcmp(v[0], "rel")) { int k = atoi(v[1]); armed = 1; %(l)s_release_plugins(lists[k]); armed = 0; lists[k] = NULL; }
    else return;
    shim_log("R %%d\\n", r);
    state();
}
int main(void)
{
    state();
    shim_script(cb);
    shim_log("X\\n");
    return 0;
}
"""


def plugin_driver(shape, out):
    up, lo = shape["pfx"].upper(), shape["pfx"].lower()
    ptrs = " ".join("case %d: return (unsigned long)h->ptr.%s;" % (i, n) for i, n in enumerate(names(shape)))
    return pre_macros(shape) + '#include "%s"\n' % out + DRIVER_HEAD + ("" if shape["asan"] else "#define TRACK 1\n") + names_table(shape) + PLUGIN_DRIVER % dict(l=lo, u=up, ptrs=ptrs)


def build_plugin(env, shape):
    return build(env, shape, plugin_driver, extra=[] if shape["asan"] else [PLUGIN_WRAPS])


@st.composite
def plugin_script(draw, shape):
    libs = draw(libraries(shape, dflt=False))
    pick = st.sampled_from([l[0] for l in libs] * 4 + [None, "", "nosuch.so", "./x%s.so", "l" * 5000])
    body, used = [], {}
    setup = fault_lines(draw, False) if draw(st.booleans()) else []
    if draw(st.integers(0, 3)) == 0:
        setup.append("nulls 1")
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 9))
        free = [x for x in range(3) if x not in used]
        if k < 5 and free:
            s = draw(st.sampled_from(free))
            n = draw(st.sampled_from([0, 1, 1, 2, 3, 5, 9, 30, 30, 300]))
            fs = [draw(pick) for _ in range(min(n, 30))]
            if n > 30:
                # not all of the very same length of period
                fs = [fs[(i + i // 30) % 30] if len(fs[(i + i // 30) % 30] or "") < 100 else "nosuch.so" for i in range(n)]
            body.append("load %d %s" % (s, ",".join(hexs(f) for f in fs)))
            if n:
                used[s] = 1
        elif k < 7 and used:
            s = draw(st.sampled_from(sorted(used)))
            used.pop(s)
            body.append("rel %d" % s)
        elif k == 7:
            body.append("null %d" % draw(st.sampled_from([0, 1, 3])))
        elif k == 8:
            body += fault_lines(draw, True)[:2]
        elif k == 9:
            body.append(draw(st.sampled_from(["stale", "rel %d" % free[0] if free else "stale"])))
    for s in sorted(used):
        body.append("rel %d" % s)
    return dict(shape=shape, libs=libs, maps=None, setup=setup, body=body, end="end")


def judge_plugin(case, r):
    j = Judge(case, "plugin")
    j.cur = "start"
    sh = case["shape"]
    cmds, end = parse_log(r.out)
    script = [["start"]] + [l.split(" ") for l in case["body"] if l.split()[0] not in ("faults", "stale")]
    if r.rc == 88 or b"Sanitizer" in r.err or b"runtime error" in r.err:
        j.fail("state", "sanitizer report: %r" % r)
        return j
    lists = {}
    script.append(["end"])
    for n, c in enumerate(cmds):
        if script[n][0] == "end":
            break
        a = script[n]
        j.n, j.cur = n, " ".join(a)[:300]
        if n and c.r is None or not any(t[0] == "M" for t in c.other):
            j.fail("state", "the program died (status %s)\n%r" % (r.rc, r.err[-500:]))
            return j
        j.scan(c)
        opens = j.calls(c, OPENS)
        closes = [d[1] for d in j.calls(c, {"dlclose"})]
        for t in c.other:
            if t[0] in ("BADFREE", "SAMECOPY"):
                j.fail("state", "memory: %s" % " ".join(t))
        if a[0] == "start":
            continue
        if a[0] == "load":
            fs = [unhex(x) for x in a[2].split(",")] if len(a) > 2 and a[2] else []
            if closes:
                j.fail("state", "closed %r while loading" % closes)
            if [unhex(d[1]) for d in opens] != [f for f in fs if f]:
                j.fail("state", "opened %r, the list is %r" % ([unhex(d[1]) for d in opens], fs))
                return j
            if any(int(d[2]) != default_flags(sh) or d[0] != "dlopen" for d in opens):
                j.fail("state", "wrong flags or function: %r" % opens[:2])
            if bool(c.r) != bool(fs):
                j.fail("state", "returned %d for a list of %d names" % (c.r, len(fs)))
                return j
            if fs:
                syms = {}
                for d in j.calls(c, {"dlsym"}):
                    syms.setdefault(d[1], {})[unhex(d[2])] = 0 if d[3] == "0" else int(d[3], 16)
                ent, k = [], 0
                for f in fs:
                    h = -1
                    if f:
                        h = int(opens[k][3][1:]) if opens[k][3] != "0" else -1
                        k += 1
                        j.labels.add("loads" if h >= 0 else "open-fails")
                    else:
                        j.labels.add("empty-entry")
                    got = syms.get("h%d" % h, {})
                    if h >= 0 and set(got) != set(j.ns):
                        j.fail("state", "looked up %r of entry %r instead of %r" % (sorted(got), f, j.ns))
                    if h >= 0 and 0 in got.values():
                        j.labels.add("symbol-missing")
                    ent.append([f or None, h, [got.get(x, 0) for x in j.ns] if h >= 0 else [0] * len(j.ns)])
                for x in syms:
                    if x not in ["h%d" % e[1] for e in ent]:
                        j.fail("state", "looked up a symbol in %s" % x)
                lists[int(a[1])] = ent
                if len(set(fs)) < len(fs):
                    j.labels.add("same-name-twice")
                if len(lists) > 1:
                    j.labels.add("several-lists")
        elif a[0] == "null":
            if c.r or c.dl:
                j.fail("state", "list NULL: returned %d, calls %r" % (c.r, c.dl))
            j.labels.add("null-list")
        elif a[0] == "rel":
            ent = lists.pop(int(a[1]), [])
            want = sorted("h%d" % e[1] for e in ent if e[1] >= 0)
            if sorted(closes) != want or opens or j.calls(c, {"dlsym"}):
                j.fail("state", "released a list with the handles %r, calls: %r" % (want, c.dl))
            j.labels.add("release")
        # the visible state of every list
        nums = {int(t[1]): int(t[2]) for t in c.other if t[0] == "L"}
        if nums != {k: len(e) for k, e in lists.items()}:
            j.fail("state", "lists have %r entries, expected %r" % (nums, {k: len(e) for k, e in lists.items()}))
        rows = [t for t in c.other if t[0] == "N"]
        for t in rows:
            k, i = int(t[1]), int(t[2])
            if k not in lists or i >= len(lists[k]):
                continue
            f, h, p = lists[k][i]
            if unhex(t[3]) != f or int(t[4]) != h:
                j.fail("state", "list %d entry %d: name %r, handle %s; expected %r, %d" % (k, i, (unhex(t[3]) or "-")[:200], t[4], f and f[:200], h))
            if [int(x, 16) for x in t[5:]] != p:
                j.fail("state", "list %d entry %d: pointers %r; its library gave %r" % (k, i, t[5:], ["%x" % x for x in p]))
        m = [int(t[1]) for t in c.other if t[0] == "M"][0]
        if not lists and m and not sh["asan"]:
            j.fail("state", "%d blocks of memory are still allocated though every list is released" % m)
    j.n, j.cur = len(cmds), "end"
    if end is None or r.rc != 0 or end:
        j.fail("state", "the program died or called the linker at its end: %r" % r)
    return j


# ---------------------------------------------------------------- the real dynamic linker
def build_real(env, shape, driver=driver_source):
    """program of the shape with the real dynamic linker"""
    if not os.path.exists(env.root + "/real.o"):
        o = env.root + "/real.o.%d" % os.getpid()
        r = run(["gcc", "-O1", "-w", "-c", VERIF + "/lib/real.c", "-o", o])
        if r.rc != 0:
            raise InfraError("real.c: %r" % r)
        os.rename(o, env.root + "/real.o")
    return build(env, dict(shape, real=1), driver, shim=False, extra=[env.root + "/real.o"])


def real_tree(env, shape):
    """a directory with libraries that define the symbols of the shape, or some of them"""
    d = os.path.join(env.root, "tree-" + shape_hash(shape["ds"]))
    if os.path.exists(d):
        return d
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp + "/sub dir/deep")
    ns = names(shape)
    for fn, drop in (("full.so", None), ("sub dir/full2.so", None), ("sub dir/deep/full3.so", None), ("missfirst.so", 0), ("misslast.so", len(ns) - 1), ("dflt.so", None)):
        src = "".join("%s real_%d%s;\n" % ("int" if d["k"] != "func" else "int", i, "(void) { return %d; }" % i if d["k"] == "func" else "[64] = {%d}" % i) for i, d in enumerate(shape["ds"]))
        src = "".join(("int %s(void) { return %d; }\n" if x["k"] == "func" else "int %s[64] = { %d };\n") % (x["n"], i) for i, x in enumerate(shape["ds"]) if i != drop)
        src = "int the_library_is_not_empty;\n" + src
        r = run(["gcc", "-shared", "-fPIC", "-O0", "-w", "-fno-builtin", "-x", "c", "-", "-o", tmp + "/" + fn], stdin=src.encode())
        if r.rc != 0:
            raise InfraError("library: %r" % r)
    os.symlink("full.so", tmp + "/link.so")
    with open(tmp + "/text.so", "w") as f:
        f.write("not a library\n")
    os.mkdir(tmp + "/dir.so")
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


REAL_NAMES = ["./full.so", "full2.so", "sub dir/full2.so", "./sub dir/../full.so", "@/full.so", "@/sub dir/deep/full3.so", "./missfirst.so", "@/misslast.so", "./link.so", "@/link.so",
              "./text.so", "./dir.so", "./nosuch.so", "nosuch.so", "../full.so", "./full2.so", "deep/full3.so", None, "", "./full.so%s%n"]


@st.composite
def real_script(draw, shape, obj=""):
    """obj: the object number for C++"""
    o = obj + " " if obj else ""
    ns = names(shape)
    body = []
    if obj:
        body.append("new " + obj)
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["a", "a", "a", "la", "lp", "lp", "fr", "ff", "cd", "sy"]))
        if k == "a":
            n = draw(st.sampled_from(REAL_NAMES))
            if obj and n is None:
                n = ""
            new = int(draw(st.integers(0, 9)) == 0)   # glibc: no RTLD_GLOBAL in a new namespace
            body.append(["a", n, draw(st.sampled_from([1, 2, 1 if new else 0x101])), new])
        elif k == "cd":
            body.append(["cd", draw(st.sampled_from([".", "sub dir", "sub dir/deep"]))])
        elif k == "sy":
            body.append("sy %s%d" % (o, draw(st.integers(0, len(ns) - 1))))
        else:
            body.append((k + " " + obj).strip())
    return dict(shape=dict(shape, asan=False), real=True, body=body, obj=obj)


def judge_real(env, case, exe):
    """the same rules with the real dynamic linker: results and library paths"""
    sh, obj = case["shape"], case["obj"]
    tree = real_tree(env, sh)
    t, cwd = [], tree
    steps = []
    for b in case["body"]:
        if b[0] == "cd":
            cwd = os.path.join(tree, b[1])
            t.append("cd " + hexs(cwd))
            continue
        if b[0] == "a":
            n = b[1].replace("@", tree) if b[1] else b[1]
            t.append("a %s%s %d %d" % (obj + " " if obj else "", hexs(n), b[2], b[3]))
            steps.append(["a", n, cwd])
        else:
            t.append(b)
            steps.append(b.split())
    t.append("ret")
    r = run([exe], stdin=("\n".join(t) + "\n").encode(), cwd=tree, env={"LD_LIBRARY_PATH": "sub dir"}, timeout=60)
    bad, labels = [], set()
    cmds, end = parse_log(r.out)
    if end is None or r.rc != 0 or len(cmds) != len(steps) + 2:
        return [("state error path", "the program died: %r\n%s" % (r, "\n".join(t)))], labels, r
    loaded = None
    drop = None
    ns = names(sh)
    for c, s in zip(cmds[1:], steps):
        err = c.e[0] if not obj else unhex(c.objs[int(obj)][0]) if c.objs.get(int(obj)) else None
        def fail(a, m):
            bad.append((a, "%r: %s" % (s, m)))
        ok = None
        if s[0] == "a":
            n = s[1]
            if loaded or not n:
                ok = False
            else:
                if "/" in n:
                    p = os.path.join(s[2], n)
                else:
                    p = os.path.join(s[2], "sub dir", n)   # LD_LIBRARY_PATH=sub dir
                good = os.path.isfile(p) and not p.endswith(("text.so",))
                # a library that the process has open already is found by its soname or name as well: none of these has a soname
                ok = good
                if good:
                    loaded = p
                    drop = 0 if p.endswith("missfirst.so") else len(ns) - 1 if p.endswith("misslast.so") else None
                else:
                    labels.add("real-open-fails")
                    if "E" != "" and n not in err and os.path.basename(n) not in err:
                        fail("error", "error text %r does not name the file" % err)
        elif s[0] == "la":
            ok = bool(loaded) and drop is None
            if loaded and not ok and ns[drop] not in err:
                fail("error", "error text %r does not name the missing symbol %s" % (err, ns[drop]))
        elif s[0] == "sy":
            i = int(s[-1])
            ok = bool(loaded) and drop != i
            if loaded and not ok and ns[i] not in err:
                fail("error", "error text %r does not name the missing symbol %s" % (err, ns[i]))
        elif s[0] in ("fr", "ff"):
            ok = True
            loaded = None
        elif s[0] == "lp":
            ok = bool(loaded)
            v = c.p
            if loaded:
                labels.add("real-path")
                if not v or not os.path.isabs(v) or not os.path.exists(v) or not os.path.samefile(v, loaded):
                    fail("path", "library path is %r, the loaded library is %r" % (v, loaded))
            elif v:
                fail("path", "library path %r though nothing is loaded" % v)
        if s[0] in ("new", "newf"):
            ok = True
        if bool(c.r) != ok:
            fail("state" if s[0] != "lp" else "path", "returned %s, expected %s (error text %r)" % (c.r, ok, err))
        if (err == "no error") != ok or not err:
            fail("error", "result %s with error text %r" % (ok, err))
    return bad, labels, r
