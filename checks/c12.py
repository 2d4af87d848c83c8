"""C12: generated code compiles and declares the exact input types."""
import os, re, shutil
from hypothesis import strategies as st
from core import Violation, Result, run
import decl as D
import cgen

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "property-based differential testing: generated declarations through the tool and both compilers; type identity decided by the compiler against declarations rendered by the model"
LEVEL_NOTE = "gcc 13 and clang 18, C99 to C17 and C++11 to C++20, POSIX flavour (the Win32 flavour is compiled in C30)."
RULE = ("A case is a list of declarations with types from a C type header (scalars, qualifiers, pointers, arrays, function pointers with nested parameters, structs, unions, "
        "enums, variadic functions), an output format, a parameter mode, a configuration (any set of static linkage, wrapped functions with or without visibility and hooks, eager or lazy "
        "autoload, aliasing or warnings disabled, set with -D or before the #include), header guard kind and prefix. The header is included twice by a unit that asserts, for every symbol, that raw pointer, "
        "alias and wrapper have the type of the same declaration written down by the model, that aliases exist exactly unless disabled, that a call through the alias "
        "with parameters of the declared types compiles, and that the documented API functions have the documented types. The unit is compiled by gcc (code generation) and "
        "clang, as C and/or C++ of a generated standard. Non-trivial: at least one symbol that is not 'int f(void)'-like, or a configuration macro.")
ASSUMPTIONS = ["GNU dialects for C", "param=skip excludes wrapped functions (documented)", "symbol names do not clash with generated names"]
BUDGET = {"quick": (400, 35), "thorough": (8000, 1200)}

C_API = """
bool (*t1)(const %(l)s_char_t *) = %(l)s_load_lib_name; bool (*t2)(const %(l)s_char_t *) = %(l)s_load_lib_name_and_symbols;
bool (*t3)(const %(l)s_char_t *, int, bool) = %(l)s_load_lib_args; bool (*t4)(void) = %(l)s_lib_is_loaded; bool (*t5)(void) = %(l)s_free_lib;
void (*t6)(void) = %(l)s_force_free_lib; bool (*t7)(void) = %(l)s_enable_autorelease; bool (*t8)(void) = %(l)s_load_all_symbols;
bool (*t9)(int) = %(l)s_load_symbol; bool (*t10)(const char *) = %(l)s_load_symbol_name; bool (*t11)(void) = %(l)s_all_symbols_loaded;
bool (*t12)(void) = %(l)s_no_symbols_loaded; bool (*t13)(void) = %(l)s_any_symbol_loaded; const %(l)s_char_t *(*t14)(void) = %(l)s_last_error;
const %(l)s_char_t *(*t15)(void) = %(l)s_library_path;
"""
C_API_LIB = "bool (*t16)(void) = %(l)s_load_lib; bool (*t17)(void) = %(l)s_load_lib_and_symbols;\n"
CXX_API = """
void api(void) {
  %(l)s::dl a; %(l)s::dl b("x"); %(l)s::dl c(std::string("x"), %(l)s::default_flags, false); const %(l)s::dl &k = b;
  static_assert(std::is_same<decltype(a.load("x", 1, true)), bool>::value, ""); static_assert(std::is_same<decltype(a.load("x")), bool>::value, "");
  static_assert(std::is_same<decltype(a.load()), bool>::value, ""); static_assert(std::is_same<decltype(a.load_lib_and_symbols()), bool>::value, "");
  static_assert(std::is_same<decltype(%(l)s::dl::lib_loaded()), bool>::value, ""); static_assert(std::is_same<decltype(k.flags()), int>::value, "");
  static_assert(std::is_same<decltype(a.load_all_symbols()), bool>::value, ""); static_assert(std::is_same<decltype(a.load_symbol(1)), bool>::value, "");
  static_assert(std::is_same<decltype(a.load_symbol("x")), bool>::value, ""); static_assert(std::is_same<decltype(k.all_symbols_loaded()), bool>::value, "");
  static_assert(std::is_same<decltype(k.no_symbols_loaded()), bool>::value, ""); static_assert(std::is_same<decltype(k.any_symbol_loaded()), bool>::value, "");
  static_assert(std::is_same<decltype(a.free()), bool>::value, ""); static_assert(std::is_same<decltype(a.free(true)), bool>::value, "");
  a.free_lib_in_dtor(false); static_assert(std::is_same<decltype(k.free_lib_in_dtor()), bool>::value, "");
  static_assert(std::is_same<decltype(a.library_path()), std::string>::value, ""); static_assert(std::is_same<decltype(k.filename()), std::string>::value, "");
  static_assert(std::is_same<decltype(k.error()), std::string>::value, "");
  static_assert(std::is_same<decltype(%(l)s::make_libname(std::string("x"), 1)), std::string>::value, ""); const char *e = %(l)s::libext; (void)e; c.free();
}
"""
MACROS = ["STATIC", "WRAP_FUNCTIONS", "WRAP_FUNCTIONS", "ENABLE_AUTOLOAD", "ENABLE_AUTOLOAD_LAZY", "DISABLE_ALIASING", "DISABLE_WARNINGS", "WRAP_VISIBILITY", "HOOKS"]


def prepare(env):
    env.use_gendlopen()


@st.composite
def strategy_(draw):
    fmt = draw(st.sampled_from(["c", "c", "c", "c++", "c++", "c++", "minimal", "minimal-c++", "plugin"]))
    both = fmt in ("c++", "minimal-c++") or draw(st.booleans())
    many = draw(st.integers(0, 6))
    ds = draw(cgen.decls(both, max_size=5) if many else cgen.decls(both, min_size=4, max_size=16, kinds=("func", "arr", "fptr", "obj", "arr", "fptr")))
    return dict(fmt=fmt, both=both, ds=ds, param=draw(st.sampled_from(["read", "read", "create", "skip"])),
                macros=draw(st.lists(st.sampled_from(MACROS), max_size=3, unique=True)), where=draw(st.booleans()), guard=draw(st.booleans()),
                pfx=draw(st.sampled_from(["gdo", "gdo", "gdo", "Foo", "xy_1"])), lib=draw(st.sampled_from([None, "libx.so", "api:3:x", "ext:x", 'nq:"a" ".so"'])),
                gnu=draw(st.booleans()), line=draw(st.integers(0, 5)) == 0,
                cstd=draw(st.sampled_from(["gnu99", "gnu11", "gnu17"])), xstd=draw(st.sampled_from(["c++11", "gnu++11", "c++14", "c++17", "c++20"])), opt=draw(st.sampled_from(["-O0", "-O2"])))


def strategy(env):
    return strategy_()


def check(env, case):
    fmt, ds = case["fmt"], case["ds"]
    main_fmt = fmt in ("c", "c++")
    up, lo = case["pfx"].upper(), case["pfx"].lower()
    mac = list(case["macros"])
    param = case["param"]
    if fmt.startswith("minimal") or fmt == "plugin":
        mac = [m for m in mac if m in ("STATIC", "DISABLE_ALIASING", "DISABLE_WARNINGS")]
        if fmt == "minimal-c++" or fmt == "plugin":
            mac = [m for m in mac if m != "STATIC" or fmt == "plugin"]
    wrapped = "WRAP_FUNCTIONS" in mac or "ENABLE_AUTOLOAD" in mac or "ENABLE_AUTOLOAD_LAZY" in mac
    if wrapped and param == "skip":
        param = "read"
    if not wrapped:
        mac = [m for m in mac if m not in ("WRAP_VISIBILITY", "HOOKS")]
    if fmt == "c++":
        mac = [m for m in mac if m != "STATIC"]
    lib = case["lib"]
    auto = "ENABLE_AUTOLOAD" in mac or "ENABLE_AUTOLOAD_LAZY" in mac
    if auto and lib is None:
        lib = "libx.so"
    vis = "WRAP_VISIBILITY" in mac
    d = env.path("c")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    with open(d + "/types.h", "w") as f:
        f.write(D.TYPES_H)
    text = D.render(ds, named=param != "create", spell=False)
    out = "gen.hpp" if fmt in ("c++", "minimal-c++") else "gen.h"
    a = ["-format=" + fmt, "-param=" + param, "-out=" + out, "-include=types.h"]
    if case["pfx"] != "gdo":
        a.append("-prefix=" + case["pfx"])
    if lib:
        a.append("-library=" + lib)
    if case["guard"]:
        a.append("-no-pragma-once")
    if case["line"]:
        a.append("-line")
    defs = []
    for m in mac:
        if m == "HOOKS":
            for x in ds:
                if x["k"] == "func":
                    # C hooks are part of an expression, or of a statement
                    defs.append(("%s_HOOK_%s(...)" % (up, x["n"]), "hook_count(#__VA_ARGS__)"))
        elif m == "WRAP_VISIBILITY":
            defs.append((up + "_WRAP_VISIBILITY", '__attribute__((visibility("default")))' if case["where"] else ""))
        else:
            defs.append((up + "_" + m, None))
    pre = ""
    hooks = "HOOKS" in mac
    if hooks:
        with open(d + "/types.h", "w") as f:
            f.write(D.TYPES_H.replace("#endif\n", "static inline int hook_count(const char *s) { static int n; (void)s; return n++; }\n#endif\n"))
    for n, v in defs:
        if case["where"] and "(" not in n:
            a.append("-D" + n + ("=" + v if v is not None else ""))
        else:
            pre += "#define %s %s\n" % (n, v or "")
    if case["gnu"]:
        pre = "#define _GNU_SOURCE 1\n" + pre
    r = env.gdo(a + ["-"], stdin=text.encode(), cwd=d)
    if r.rc != 0:
        raise Violation("refused: %r %s\n%r" % (a, text, r))
    alias = "DISABLE_ALIASING" not in mac and fmt != "plugin"
    raw = {"c": up + "_RAWPTR_%s", "c++": up + "_RAWPTR_%s", "minimal": lo + "_hndl." + up + "_PTR_%s", "minimal-c++": lo + "::" + up + "_PTR_%s",
           "plugin": "((" + lo + "_handle_t *)0)->ptr.%s"}[fmt]
    langs = ["c++"] if fmt in ("c++", "minimal-c++") else (["c", "c++"] if case["both"] and "STATIC" not in mac else ["c"])  # GDO_STATIC: "C only"
    for lang in langs:
        cxx = lang == "c++"
        T = ['#include "types.h"']
        if cxx:
            T.append("#include <type_traits>\n#include <string>\n#define SAME(a, b) static_assert(std::is_same<decltype(a), decltype(b)>::value, #a)")
        else:
            T.append("#define SAME(a, b) _Static_assert(__builtin_types_compatible_p(__typeof__(a), __typeof__(b)), #a)")
        for i, x in enumerate(ds):
            T.append("extern %s;" % cgen.ref_decl(x, "ref_%d" % i))
        T.append(pre)
        T.append('#include "%s"\n#include "%s"' % (out, out))
        for i, x in enumerate(ds):
            n = x["n"]
            T.append("SAME(%s, &ref_%d);" % (raw % n, i))
            isalias = alias and not (vis and x["k"] == "func")
            T.append("#if%s %s\n#error alias of %s\n#endif" % ("ndef" if isalias else "def", n, n))
            if x["k"] != "func":
                if alias:
                    T.append("SAME(&(%s), &ref_%d);" % (n, i))
                continue
            fn = n if alias else (up + "_WRAP_" + n if wrapped and not vis else raw % n)
            if vis:
                fn = n if not cgen.is_va(x) else (up + "_RAWPTR_" + n)
            if wrapped:
                w = n if vis else up + "_WRAP_" + n
                if not cgen.is_va(x):
                    T.append("SAME(&%s, &ref_%d);" % (w, i))
            elif alias:
                T.append("SAME(%s, &ref_%d);" % (n, i))
            T.append(cgen.user_function(x, i, fn))
        if fmt != "plugin" and fmt in ("c", "c++"):
            # one enumeration value per symbol, in any order, all different and below the last
            T.append("int sw(int v) { switch (v) { %s default: return 0; } }" % " ".join("case %s_LOAD_%s:" % (up, x["n"]) for x in ds) + "")
            T.append("enum { all_below = 1 / (%s) };" % " && ".join("%s_LOAD_%s < %s_ENUM_LAST && %s_LOAD_%s >= 0" % (up, x["n"], up, up, x["n"]) for x in ds))
            T.append("enum { count = 1 / (%s_ENUM_LAST == %d) };" % (up, len(ds)))
        if fmt == "c":
            T.append((C_API + (C_API_LIB if lib else "")) % dict(l=lo))
        elif fmt == "c++":
            T.append(CXX_API % dict(l=lo))
        elif fmt == "minimal":
            T.append("void (*t1)(void) = %s_free_library; const char *(*t2)(const char *) = %s_load_library_and_symbols;" % (lo, lo))
        elif fmt == "minimal-c++":
            T.append("void (*t1)(void) = %s::free_library; void (*t2)(const char *) = %s::load_library_and_symbols;" % (lo, lo))
            T.append("static_assert(std::is_base_of<std::runtime_error, %s::LibraryError>::value && std::is_base_of<std::runtime_error, %s::SymbolError>::value, \"\");" % (lo, lo))
        else:
            T.append("%(l)s_plugin_t *(*t1)(const %(l)s_char_t **, size_t) = %(l)s_load_plugins; void (*t2)(%(l)s_plugin_t *) = %(l)s_release_plugins;" % dict(l=lo))
        src = "t.cpp" if cxx else "t.c"
        with open(d + "/" + src, "w") as f:
            f.write("\n".join(T) + "\n")
        for clang in (False, True):
            c = cgen.comp(cxx, clang, case["xstd"] if cxx else case["cstd"], case["opt"])
            c += ["-I.", "-Wno-all", "-Werror=return-type", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=implicit-function-declaration"] if not cxx else ["-I.", "-Werror=return-type"]
            if clang:
                c += ["-Wno-unknown-warning-option", "-fsyntax-only", src]
            else:
                c += ["-c", "-o", "t.o", src]
            r = run(c, cwd=d, timeout=120)
            if r.rc != 0 or b"redefined" in r.err:
                raise Violation("does not compile: %r\noptions %r, before the include: %s\n%s\n%s" % (c, a, pre, text, r))
    labels = ["fmt=" + fmt] + ["macro=" + m for m in mac] + ["param=" + param] + ["kind=" + x["k"] for x in ds] + ["lang=" + l for l in langs]
    if any(cgen.is_va(x) for x in ds):
        labels.append("variadic")
    nt = bool(mac) or any(x["k"] != "func" or cgen.fparams(x) or x["t"] != ["int"] for x in ds)
    return Result(labels, nt, sample=dict(fmt=fmt, macros=mac, param=param, decls=text[:600]))
