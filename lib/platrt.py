"""The generated loaders as other systems with dlopen() see them: AIX, macOS, Android, musl, the BSDs, Solaris and
dlfcn-win32. The headers are compiled with the predefined macros of that system and models of its own headers
(lib/plat), against the simulated linker of shim.c."""
from hypothesis import strategies as st
from core import VERIF
import rt
from rt import unhex, names, BUFLEN, WINBUF

HEADERS_C = ["stdio", "stdlib", "string", "stdbool", "stdint", "inttypes", "stddef", "wchar", "limits", "unistd", "stdarg", "errno", "dlfcn", "link"]
HEADERS_CXX = ["iostream", "string", "sstream", "algorithm", "memory", "stdexcept", "cstdlib", "cstring", "vector", "utility", "type_traits"]

# the macros of the system, and where it can tell the path of a library
PLATS = {
    "linux6.11": (None, ["dlinfo", "dladdr"]),
    "musl": ("#define __linux__ 1\n", ["dladdr"]),
    "android": ("#define __linux__ 1\n#define __ANDROID__ 1\n", ["dladdr"]),
    "macos": ("#define __APPLE__ 1\n", ["dladdr"]),
    "freebsd": ("#define __FreeBSD__ 14\n", ["dlinfo", "dladdr"]),
    "dragonfly": ("#define __DragonFly__ 1\n", ["dlinfo", "dladdr"]),
    "netbsd": ("#define __NetBSD__ 1\n#define _NETBSD_SOURCE 1\n", ["dlinfo", "dladdr"]),
    "openbsd": ("#define __OpenBSD__ 1\n", ["dladdr"]),
    "sun": ("#define __sun 1\n", ["dlinfo", "dladdr"]),
    "aix": ("#define _AIX 1\n#define RTLD_MEMBER 0x40000\n", ["loadquery"]),
    "dlfcnwin": ("#define _WIN32 1\n", ["modname", "dladdr"]),
    "dlfcnwin-mingw": ("#define _WIN32 1\n#define __MINGW32__ 1\n", ["modname", "dladdr"]),
}


def prelude(shape):
    plat = shape["plat"]
    t = "#ifndef PLAT_PRELUDE\n#define PLAT_PRELUDE\n#define _GNU_SOURCE 1\n" + "".join("#include <%s.h>\n" % h for h in HEADERS_C)
    if shape["lang"] in ("c++", "minimal-c++"):
        t += "".join("#include <%s>\n" % h for h in HEADERS_CXX)
    if PLATS[plat][0] is not None:
        t += "#undef __GLIBC__\n#undef __linux__\n#undef __gnu_linux__\n" + PLATS[plat][0]
    if shape.get("unicode"):
        t += "#define UNICODE 1\n#define _UNICODE 1\n"
    if shape.get("auto"):
        t += "#define win_buffers() 0\n"
        if shape.get("userlib"):
            t += "#define %s_DEFAULT_LIB %s\n" % (shape["pfx"].upper(), rt.cstr(shape["userlib"]))
    return t + "#endif\n"


def libname(plat, name, api):
    if plat == "dlfcnwin":
        return "%s-%s.dll" % (name, api)
    if plat == "dlfcnwin-mingw":
        return "lib%s-%s.dll" % (name, api)
    if plat == "macos":
        return "lib%s.%s.dylib" % (name, api)
    if plat == "aix":
        return "lib%s.a(shr_64.o)" % name
    if plat == "android":
        return "lib%s.so" % name
    return "lib%s.so.%s" % (name, api)


def dflt_name(lib, plat):
    if lib.startswith("api:"):
        _, a, n = lib.split(":", 2)
        return libname(plat, n, a)
    if lib.startswith("ext:"):
        return lib[4:] + {"dlfcnwin": ".dll", "dlfcnwin-mingw": ".dll", "macos": ".dylib", "aix": ".a"}.get(plat, ".so")
    if lib.startswith("nq:"):
        return libname(plat, "bar", "3")
    return lib


@st.composite
def shapes(draw, lang, plat, max_syms=5):
    macros = {"c": ("STATIC", "WRAP_FUNCTIONS", "DISABLE_ALIASING"), "c++": ("WRAP_FUNCTIONS", "DISABLE_ALIASING"), "plugin": ("STATIC",), "minimal": ("STATIC",), "minimal-c++": ()}[lang]
    s = draw(rt.shapes(lang, max_syms, macros=macros))
    s["plat"] = plat
    if plat.startswith("dlfcnwin"):
        s["macros"].append("USE_DLOPEN")
        s["unicode"] = draw(st.booleans())
        s["cc"] = ["-I" + VERIF + "/lib/plat/dlfcnwin"]
    elif plat == "aix":
        s["cc"] = ["-I" + VERIF + "/lib/plat/aix"]
    elif plat == "linux6.11":
        s["cc"] = ["-I" + VERIF + "/lib/plat/procmap"]
    return s


@st.composite
def adapt(draw, case):
    """other paths, and the layout of the list of modules"""
    plat = case["shape"]["plat"]
    for i, l in enumerate(case["libs"]):
        k = draw(st.integers(0, 5))
        if plat == "aix" and k < 3:
            l[2] = ["/usr/lib/libx%d.a(shr.o)", "rel/liby%d.a(shr_64.o)", "/opt/a b/libz(%d).a(%%s.o)"][k] % i
        elif plat.startswith("dlfcnwin") and k < 3:
            l[2] = ["C:\\x%d.dll" % i, "D:\\" + "q" * (WINBUF - 6 + draw(st.integers(0, 5))), "E:\\" + "r" * 20000][k]
    if plat == "linux6.11":
        # relative names of the libraries make the map necessary
        for i, l in enumerate(case["libs"]):
            if draw(st.booleans()):
                l[2] = ["rel/x%d.so", "./y %d.so", "z%d.so"][draw(st.integers(0, 2))] % i
        case["setup"].append("pq %d" % draw(st.sampled_from([0, 0, 0, 1, 2])))
    if plat == "aix":
        case["setup"].append("ldmode %d" % draw(st.integers(0, 15)))
        for _ in range(draw(st.integers(0, 2))):
            case["body"].insert(draw(st.integers(0, len(case["body"]))), "ldmode %d" % draw(st.integers(0, 15)))
    return case


@st.composite
def auto_shapes(draw, lang, plat):
    """programs that load the default library with the first call"""
    import winrt
    s = draw(winrt.auto_shapes(lang))
    del s["win"], s["cc"]
    s["plat"] = plat
    if plat.startswith("dlfcnwin"):
        s["macros"].append("USE_DLOPEN")
        s["unicode"] = draw(st.booleans())
        s["cc"] = ["-I" + VERIF + "/lib/plat/dlfcnwin"]
    else:
        s["macros"] = [m for m in s["macros"] if m != "USE_MESSAGE_BOX"]
        if plat == "aix":
            s["cc"] = ["-I" + VERIF + "/lib/plat/aix"]
    return s


def script(shape):
    import winrt
    lang = shape["lang"]
    if shape.get("auto"):
        return winrt.auto_script(shape).map(lambda c: dict(c, setup=[x for x in c["setup"] if x != "nofmt 1"]))
    if lang == "c":
        return st.sampled_from(["state", "error", "error", "error"]).flatmap(lambda f: rt.c_script(shape, f)).flatmap(adapt)
    if lang == "c++":
        return rt.cxx_script(shape, "state").flatmap(adapt)
    return rt.plugin_script(shape) if lang == "plugin" else rt.minimal_script(shape)


class PlatJudge(rt.Judge):
    def __init__(self, case, lang):
        super().__init__(case, lang)
        self.plat = case["shape"]["plat"]
        self.sources = PLATS[self.plat][1]
        self.has_dlmopen = self.plat in ("sun", "linux6.11")
        self.buflen = WINBUF if self.plat.startswith("dlfcnwin") else BUFLEN
        self.errlimit = self.buflen - 1

    def make_libname(self, name, api):
        return libname(self.plat, name, api)

    def do_path(self, c, value):
        if self.plat == "linux6.11":
            for d in c.dl:
                if d[0] in ("mapsfd", "query"):
                    self.labels.add("%s=%s" % (d[0], d[1]))
                if d[0] == "query" and d[1] == "BAD":
                    self.fail("path", "ioctl(PROCMAP_QUERY) with wrong arguments")
            return super().do_path(c, value)
        if self.handle is None:
            return super().do_path(c, value)
        self.no_calls(c, rt.OPENS | {"dlclose", "dlsym"}, "the path is asked for")
        p = self.libs[self.hlib[self.handle]][2]
        told = {d[0] for d in c.dl if d[0] in ("dlinfo", "modname") and d[2] == "1" and d[3:] not in (["-"], ["="]) or d[0] in ("dladdr", "loadquery") and d[1] == "1"}
        asked = {d[0] for d in c.dl}
        if value is not None:
            self.labels.add("path")
            if value != p:
                self.fail("path", "library path %r (length %d), but the loaded library is %r" % (value[:200], len(value), p[:200]))
            return True, None
        self.labels.add("path-unknown")
        fits = len(p.encode()) < self.buflen or self.lang != "c"
        if self.plat.startswith("dlfcnwin") and len(p.encode()) >= self.buflen:
            told.discard("modname")
        if fits and told & set(self.sources):
            self.fail("path", "no library path although %s told it" % sorted(told))
        if not fits:
            self.labels.add("path-too-long")
        for s in self.sources:
            if s not in asked and not told and (s in ("dlinfo", "modname") or any(self.ptrs)):
                self.fail("path", "no library path, and %s() was not tried" % s)
        return False, ("any",)


def run_case(env, case):
    sh = case["shape"]
    lang = sh["lang"]
    if sh.get("auto"):
        import winrt
        r = rt.execute(env, case, rt.build(env, sh, winrt.auto_driver))
        j = PlatJudge(case, lang)
        bad, j.labels = winrt.judge_auto(case, r)
        j.bad = [("auto", b) for b in bad]
        return j, r
    if lang in ("c", "c++"):
        r = rt.execute(env, case, rt.build(env, sh))
        j = (rt.judge_c if lang == "c" else rt.judge_cxx)(case, r, PlatJudge)
        if b"LEAK mapsfd" in r.out:
            j.bad.append(("path", "the file descriptor of /proc/self/maps was not closed"))
        return j, r
    if lang == "plugin":
        r = rt.execute(env, case, rt.build_plugin(env, sh))
        return rt.judge_plugin(case, r), r
    r = rt.execute(env, case, rt.build(env, sh, rt.minimal_driver))
    return rt.judge_minimal(case, r), r
