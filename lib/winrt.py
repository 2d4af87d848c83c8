"""The Win32 flavour of the generated loaders, compiled against a model of the Win32 loader API (lib/win) and
driven by the scripts of rt.py. Names written in the script with '/' reach the library list under either slash."""
import os
from hypothesis import strategies as st
from core import InfraError, Violation, run, VERIF
import rt
from rt import hexs, unhex, names, WINBUF

WRAPS = "-Wl,--wrap=atexit"
DONE = "The operation completed successfully. "
INVALID_NAME = "The filename, directory name, or volume label syntax is incorrect. "

HEADERS_C = ["stdio", "stdlib", "string", "stdbool", "stdint", "inttypes", "stddef", "wchar", "limits", "unistd", "stdarg", "errno", "locale"]
HEADERS_CXX = ["iostream", "string", "sstream", "algorithm", "memory", "stdexcept", "cstdlib", "cstring", "vector", "utility", "type_traits"]


def prelude(shape):
    w = shape["win"]
    cxx = shape["lang"] in ("c++", "minimal-c++")
    t = "#ifndef WIN_PRELUDE\n#define WIN_PRELUDE\n#define _GNU_SOURCE 1\n"
    t += "".join("#include <%s.h>\n" % h for h in HEADERS_C)
    if cxx:
        t += "".join("#include <%s>\n" % h for h in HEADERS_CXX)
    # from here on this is Windows
    t += "#undef __GLIBC__\n#undef __linux__\n#define _WIN32 1\n"
    if w.get("wide"):
        t += "#define UNICODE 1\n#define _UNICODE 1\n"
    if w.get("mingw"):
        t += "#define __MINGW32__ 1\n"
    t += '#include "%s/lib/win/windows.h"\n' % VERIF
    if w.get("wide") and shape["lang"] in ("c", "plugin"):
        t += r'''
extern const char *shim_hex(const char *s); extern char *shim_unhex(const char *t);
#define XCHAR wchar_t
static const char *XHEX(const wchar_t *w) { static char b[400000]; if (!w) return shim_hex(NULL); size_t n = wcstombs(b, w, sizeof b); return n == (size_t)-1 ? "=3f3f3f" : shim_hex(b); }
static wchar_t *XUNHEX(const char *t) { char *n = shim_unhex(t); if (!n) return NULL; size_t l = mbstowcs(NULL, n, 0); if (l == (size_t)-1) abort(); wchar_t *w = (wchar_t *)malloc((l + 1) * sizeof(wchar_t)); mbstowcs(w, n, l + 1); free(n); return w; }
'''
    if shape.get("userlib"):
        t += "#define %s_DEFAULT_LIB %s%s\n" % (shape["pfx"].upper(), "L" if w.get("wide") else "", rt.cstr(shape["userlib"]))
    t += "#define WIN_STATE shim_log(\"W %d\\n\", win_buffers());\n"
    if shape["lang"] == "c++":
        t += r'''
#define CONSTW
static std::wstring widen(const char *t) { extern_unhex u(t); size_t l = mbstowcs(NULL, u.p, 0); if (l == (size_t)-1) abort(); std::wstring w(l, L'x'); mbstowcs(&w[0], u.p, l); return w; }
static std::string narrowed(const std::wstring &w) { std::string r; for (wchar_t c : w) { char b[16]; int n = c ? wctomb(b, c) : 0; if (!c) { b[0] = '@'; n = 1; } if (n < 0) { b[0] = '?'; n = 1; } r.append(b, n); } return r; }
#define WIN_NEW if (!strcmp(v[0], "newfw")) { if (c > 3) put(k, new Dl(widen(v[2]), atoi(v[3]))); else put(k, new Dl(widen(v[2]))); } \
    else { extern_unhex f(v[3]); if (c > 4) put(k, new Dl(v[2][0] == '1', std::string(f.p), atoi(v[4]))); else put(k, new Dl(v[2][0] == '1', std::string(f.p))); } r = 1;
#define WIN_CMDS \
    else if (!strcmp(v[0], "aw")) { if (c > 3) r = o.load(widen(v[2]), atoi(v[3])); else r = o.load(widen(v[2])); } \
    else if (!strcmp(v[0], "ac")) { extern_unhex f(v[3]); if (c > 4) r = o.load(v[2][0] == '1', std::string(f.p), atoi(v[4])); else r = o.load(v[2][0] == '1', std::string(f.p)); } \
    else if (!strcmp(v[0], "lpw")) { std::wstring p = o.library_path_w(); shim_log("P %s\n", shim_hex(narrowed(p).c_str())); r = !p.empty(); } \
    else if (!strcmp(v[0], "qe")) { std::wstring p = o.error_w(); shim_log("P %s\n", shim_hex(narrowed(p).c_str())); r = 1; } \
    else if (!strcmp(v[0], "qf")) { std::wstring p = o.filename_w(); shim_log("P %s\n", shim_hex(narrowed(p).c_str())); r = 1; } \
    else if (!strcmp(v[0], "mkw")) { std::wstring p = %(l)s::make_libname(widen(v[2]), (size_t)strtoul(v[3], NULL, 10)); shim_log("P %s\n", shim_hex(narrowed(p).c_str())); r = 1; }
'''.replace("%(l)s", shape["pfx"].lower()).replace("static std::wstring widen", 'extern "C" { char *shim_unhex(const char *t); const char *shim_hex(const char *s); void shim_log(const char *fmt, ...); }\nnamespace { struct extern_unhex { char *p; extern_unhex(const char *t) : p(shim_unhex(t)) {} ~extern_unhex() { ::free(p); } }; }\nstatic std::wstring widen', 1)
    else:
        t += "#define CONSTW const\n#define WIN_CMDS\n#define WIN_NEW\n"
    t += "#endif\n"
    return t


def build_shim(env):
    o = env.root + "/win.o"
    if not os.path.exists(o):
        t = o + ".%d" % os.getpid()
        r = run(["gcc", "-O1", "-w", "-c", VERIF + "/lib/win/win.c", "-o", t])
        if r.rc != 0:
            raise InfraError("win.c: %r" % r)
        os.rename(t, o)
    return o


DFLT = [None, "dflt.dll", "dflt.dll", "dir/my lib.dll", "100%s%d%n.dll", "api:12:foo", "nq:GDO_LIBNAME(bar, 3)", "ext:plug", "C:/x y\\\\lib#1.dll", "l\u00e9.dll"]   # C string text
LIBNAMES = ["a.dll", "./rel/b.dll", "C:/dir\\sub/c.dll", "we ird%s%n.dll", "\u00fcber.dll", "l" * 9000]


@st.composite
def shapes(draw, lang, max_syms=5):
    w = dict(wide=draw(st.booleans()), mingw=draw(st.booleans()))
    macros = {"c": ("CONVERT_FILENAME", "CONVERT_FILENAME", "STATIC", "WRAP_FUNCTIONS", "DISABLE_ALIASING"), "c++": ("WRAP_FUNCTIONS", "DISABLE_ALIASING"), "plugin": (), "minimal": ("STATIC",), "minimal-c++": ()}[lang]
    s = draw(rt.shapes(lang, max_syms, macros=macros, lib=DFLT))
    s["win"] = w
    s["macros"] = sorted(set(s["macros"]))
    s["cc"] = ["-I" + VERIF + "/lib/win"]
    s["flags"] = draw(st.sampled_from([None, None, "0x8"]))
    if s["lib"] and s["lib"].startswith("nq:"):
        s["lib"] = "nq:%s_LIBNAME(bar, 3)" % s["pfx"].upper()
    return s


@st.composite
def libraries(draw, shape, dflt=True):
    n = len(shape["ds"])
    res = []
    ns = draw(st.lists(st.sampled_from(LIBNAMES), min_size=1, max_size=4, unique=True))
    dn = rt.dflt_name(shape.get("lib"), shape["win"])
    if dflt and dn and draw(st.integers(0, 4)) > 0:
        ns.append(dn)
    for i, name in enumerate(ns):
        k = draw(st.integers(0, 3))
        bits = ["1"] * n
        if k == 1:
            bits = [draw(st.sampled_from("01")) for _ in range(n)]
        elif k == 2:
            bits[draw(st.integers(0, n - 1))] = "0"
        elif k == 3 and draw(st.booleans()):
            bits = ["0"] * n
        path = draw(st.sampled_from(["C:\\x%d.dll" % i, "C:\\with space\\%%s%%n\\x%d.dll" % i, "C:\\" + "p" * (WINBUF - 4), "C:\\" + "q" * (WINBUF - 5), "C:\\" + "r" * (WINBUF - 3), "D:\\" + "s" * 40000, "C:\\\u00fc%d.dll" % i] if draw(st.integers(0, 2)) == 0 else ["C:\\x%d.dll" % i, "C:\\\u00fc%d.dll" % i]))
        res.append([name, "".join(bits), path])
    return res


def winify(draw, case, dflt):
    """turn a script of rt.py into one for Win32: other libraries, no POSIX-only commands"""
    sh = case["shape"]
    old = [l[0] for l in case["libs"]]
    new = draw(libraries(sh, dflt))
    case["libs"] = new
    case["maps"] = None
    sub = {hexs(o): hexs(new[i % len(new)][0]) for i, o in enumerate(old)}
    bad = hexs("bad\udcff\udcc3/x.dll")
    wide = sh["win"]["wide"] and sh["lang"] in ("c", "plugin")

    def line(l):
        w = l.split(" ")
        if w[0] in ("n", "ns", "a", "l", "newf", "load"):
            w = [",".join(sub.get(y, y) for y in x.split(",")) for x in w]
            if w[0] in ("n", "ns", "a") and not wide and draw(st.integers(0, 9)) == 0:
                w[-1 if w[0] != "a" else (2 if sh["lang"] == "c++" else 1)] = bad
        return " ".join(w)
    drop = ("lname", "nulls", "stale")
    case["setup"] = [l for l in case["setup"] if l.split(" ")[0] not in drop and not l.startswith("faults addr")]
    case["body"] = [line(l) for l in case["body"] if l.split(" ")[0] not in drop and not l.startswith("faults addr")]
    if draw(st.integers(0, 5)) == 0:
        case["setup"].append("nofmt 1")
    return case


@st.composite
def c_script(draw, shape):
    return winify(draw, draw(rt.c_script(shape, draw(st.sampled_from(["state", "error", "error"])))), True)


@st.composite
def cxx_script(draw, shape):
    case = winify(draw, draw(rt.cxx_script(shape, "state")), False)
    pick = st.sampled_from([l[0] for l in case["libs"]] * 3 + ["", "nosuch.dll", "./x%s.dll", "dir/\u20ac.dll"])
    body = []
    for l in case["body"]:
        w = l.split(" ")
        if w[0] in ("newf", "a"):
            k = draw(st.integers(0, 3))
            fl = [] if draw(st.booleans()) else [str(draw(st.sampled_from([0, 1, 8, -1])))]
            if k == 1:
                l = " ".join([w[0] + "w", w[1], hexs(draw(pick))] + fl)
            elif k == 2:
                f = draw(pick) if draw(st.integers(0, 5)) else "bad\udcff\udcc3/x.dll"
                l = " ".join([{"newf": "newfc", "a": "ac"}[w[0]], w[1], draw(st.sampled_from("011")), hexs(f)] + fl)
        elif w[0] == "lp" and draw(st.booleans()):
            l = "lpw " + w[1]
        elif w[0] == "mk" and draw(st.booleans()):
            l = "mkw " + " ".join(w[1:])
        body.append(l)
        if w[0] in ("a", "ll", "ls", "la", "sn", "sy", "si", "lp", "fr", "newf") and draw(st.integers(0, 4)) == 0:
            body.append("%s %s" % (draw(st.sampled_from(["qe", "qe", "qe", "qf"])), w[1]))
    case["body"] = body
    return case


@st.composite
def minimal_script(draw, shape):
    return winify(draw, draw(rt.minimal_script(shape)), False)


@st.composite
def plugin_script(draw, shape):
    return winify(draw, draw(rt.plugin_script(shape)), False)


class WinJudge(rt.Judge):
    def __init__(self, case, lang):
        super().__init__(case, lang)
        sh = case["shape"]
        self.wide = bool(self.win["wide"]) and lang == "c"
        if lang == "c":
            self.aw = "W" if self.wide or "CONVERT_FILENAME" in sh["macros"] else "A"
        self.nofmt = "nofmt 1" in case["setup"]

    def lib_of(self, name):
        for i, l in enumerate(self.libs):
            if l[0].replace("/", "\\") == name.replace("/", "\\"):
                return i
        return None

    # a narrow name that is no valid multibyte string cannot be converted
    def win_scan_open(self, c, name):
        if self.handle is not None or not name or "\ufffd" not in name:
            return False
        if self.aw == "AW":
            # both are right: taken from what happened
            self.aw = "A" if self.calls(c, rt.OPENS) else "W"
        if self.aw == "W":
            self.no_calls(c, rt.OPENS | {"dlclose", "dlsym"}, "the file name cannot be converted")
            self.labels.add("convert-fails")
            return True
        return False

    def win_error(self, a, exp):
        def system(t):
            """the texts for a system error"""
            if self.nofmt:
                n = 20000 + int(t[1:t.index(":")])
                return ["error code: %d" % n]
            return [t]

        def ends(a, t):
            return a == t or a.endswith(": " + t) or (len(a) >= 16000 and self.lang == "c" and a[:16000].find(t[:50]) >= 0)
        stale = [n for n in rt.re.findall(r"\bE(\d+):", a) if not any(m.startswith("E%s:" % n) for m in self.msgs)]
        if stale:
            self.fail("error", "the error text is a message of another operation: %r (messages %r)" % (a[:300], [m[:80] for m in self.msgs]))
            return
        done = "error code: 0" if self.nofmt and self.cur != "start" else DONE
        if exp is None:
            if a != done:
                self.fail("error", "the operation succeeded, but the error text is %r" % a[:300])
            return
        if a == done:
            self.fail("error", "the operation failed, but the error text is %r (%r)" % (a, exp))
            return
        if exp[0] == "msg":
            if exp[1] and not any(ends(a, t) for m in exp[1] for t in system(m)):
                self.fail("error", "error text %r, but the system said %r" % (a[:300], [m[:300] for m in exp[1]]))
        elif exp[0] == "convert":
            if "convert" not in a or not ends(a, "error code: 123" if self.nofmt else INVALID_NAME):
                self.fail("error", "error text %r does not tell that the file name could not be converted (invalid name)" % a[:300])
        elif exp[0] == "text":
            if exp[1] == "no library":
                if not ends(a, "error code: 6" if self.nofmt else "The handle is invalid. "):
                    self.fail("error", "error text %r does not tell the reason (invalid handle)" % a[:300])
            elif exp[1] not in a.lower():
                self.fail("error", "error text %r does not tell the reason (%s)" % (a[:300], exp[1]))
            elif exp[1] == "name" and not ends(a, "error code: 123" if self.nofmt else INVALID_NAME):
                self.fail("error", "error text %r, expected an invalid name" % a[:300])
        elif exp[0] == "unknown":
            g = exp[1]
            if ends(a, done):
                self.fail("error single", "the symbol was refused, but the error text tells of success: %r" % a[:300])
            if isinstance(g, int):
                if str(g) not in a:
                    self.fail("error single", "error text %r does not name the number %d" % (a[:300], g))
            elif g and g[:4000].rstrip("\ufffd") not in a:
                self.fail("error single", "error text %r does not name the symbol %r" % (a[:300], g[:300]))

    def extra(self, c):
        w = [t for t in c.other if t[0] == "W"]
        if not w or w[0][1] != "0":
            self.fail("state", "%s buffers of the system were not freed" % (w and w[0][1]))

    # -- the C++ class
    def cxx_new(self, a, df):
        if a[0] == "newfw":
            return dict(file=unhex(a[2]), flags=int(a[3]) if len(a) > 3 else df, ns=False, dtor=True, aw="W", conv=False)
        if a[0] == "newfc":
            return dict(file=unhex(a[3]), flags=int(a[4]) if len(a) > 4 else df, ns=False, dtor=True, aw="W" if a[2] == "1" else "A", conv=a[2] == "1")
        return dict(super().cxx_new(a, df), aw="A", conv=False)

    def cxx_load(self, c, a, o):
        if a[0] == "aw":
            o["file"], o["flags"], o["aw"] = unhex(a[2]), int(a[3]) if len(a) > 3 else rt.default_flags(self.case["shape"]), "W"
        elif a[0] == "ac":
            o["file"], o["flags"] = unhex(a[3]), int(a[4]) if len(a) > 4 else rt.default_flags(self.case["shape"])
            o["conv"] = a[2] == "1"
            o["aw"] = "W" if o["conv"] else "A"
        elif a[0] in ("a", "self"):
            # after a converting call a plain load may convert too
            o["aw"] = "AW" if o["conv"] else "A"
        self.aw = o["aw"]

    def command(self, c, a, o):
        if a[0] == "lpw":
            return self.do_path(c, c.p or None), "path"
        if c.dl:
            self.fail("state", "a query calls the loader: %r" % c.dl[:2])
        if a[0] == "mkw":
            want = "%s%s-%s.dll" % ("lib" if self.win.get("mingw") else "", unhex(a[2]), a[3])
            if c.p != want:
                self.fail("object", "make_libname gave %r instead of %r" % (c.p, want))
            return (True, "keep"), "object"
        if a[0] == "qf":
            want = o["file"]
            o["aw"] = "AW"      # the name is known in both forms now
            if c.p != want and not ("\ufffd" in want and not c.p):
                self.fail("object", "filename_w() is %r instead of %r" % (c.p[:200], want[:200]))
            return (True, "keep"), "object"
        if a[0] == "qe":
            e = unhex(c.objs[int(a[1])][0])
            if c.p != e and not (("\ufffd" in e or "\ufffd" in o["file"]) and (e.endswith(c.p) or c.p.endswith(e))):
                self.fail("error", "error_w() is %r, but error() is %r" % (c.p[:300], e[:300]))
            return (True, "keep"), "error"
        raise InfraError("unknown command %r" % a)


def run_case(env, case):
    """-> (violations [(aspect, text)], labels)"""
    build_shim(env)
    sh = case["shape"]
    lang = sh["lang"]
    if sh.get("auto"):
        exe = rt.build(env, sh, auto_driver)
        r = rt.execute(env, case, exe)
        j = WinJudge(case, lang)
        bad, j.labels = judge_auto(case, r)
        j.bad = [("auto", b) for b in bad]
        return j, r
    if lang in ("c", "c++"):
        exe = rt.build(env, sh)
        r = rt.execute(env, case, exe)
        j = rt.judge_c(case, r, WinJudge) if lang == "c" else rt.judge_cxx(case, r, WinJudge)
    elif lang == "plugin":
        exe = rt.build_plugin(env, sh)
        r = rt.execute(env, case, exe)
        j = rt.judge_plugin(case, r)
    else:
        exe = rt.build(env, sh, rt.minimal_driver)
        r = rt.execute(env, case, exe)
        j = rt.judge_minimal(case, r)
    return j, r


# ---------------------------------------------------------------- autoload
AUTO_DRIVER = r"""
static int cmdno;
%(funcs)s
%(ec)s void *shim_real(int lib, int sym) { (void)lib; switch (sym) { %(reals)s } return 0; }
static void cb(int c, char **v)
{
    int r = -1;
    (void)c;
    shim_log("C %%d %%s\n", cmdno++, v[0]);
    switch (atoi(v[1])) { %(calls)s }
    shim_log("R %%d\nW %%d\n", r, win_buffers());
}
int main(void) { shim_script(cb); shim_log("X\n"); return 0; }
"""


def auto_driver(shape, out):
    up, lo = shape["pfx"].upper(), shape["pfx"].lower()
    ns = names(shape)
    cxx = shape["lang"] == "c++"
    d = dict(funcs="\n".join("static int real_%d(void) { return 1000 + %d; }" % (i, i) for i in range(len(ns))),
             reals=" ".join("case %d: return (void *)real_%d;" % (i, i) for i in range(len(ns))),
             calls=" ".join("case %d: r = %s_WRAP_%s(); break;" % (i, up, n) for i, n in enumerate(ns)), ec='extern "C"' if cxx else "")
    return rt.pre_macros(shape) + '#include "%s"\n' % out + rt.DRIVER_HEAD + rt.names_table(shape) + AUTO_DRIVER % d


@st.composite
def auto_shapes(draw, lang):
    s = draw(rt.shapes(lang, big=True, macros=("ENABLE_AUTOLOAD_LAZY", "USE_MESSAGE_BOX"), lib=["dflt.dll", "d/my lib.dll", "100%s%d%n.dll", None]))
    s["ds"] = s["ds"][:draw(st.integers(1, 4))]
    for d in s["ds"]:
        d["ret"] = "int"
    s["win"] = dict(wide=draw(st.booleans()), mingw=draw(st.booleans()))
    s["cc"] = ["-I" + VERIF + "/lib/win"]
    s["macros"] += ["ENABLE_AUTOLOAD"]
    s["auto"] = 1
    s["flags"] = None
    if s["lib"] is None:
        s["userlib"] = "us%ser.dll"
    return s


@st.composite
def auto_script(draw, shape):
    n = len(shape["ds"])
    lib = shape.get("userlib") or shape["lib"]
    libs = [[lib, "".join(draw(st.sampled_from("1110")) for _ in range(n)), "C:\\x.dll"]] if draw(st.integers(0, 3)) else []
    return dict(shape=shape, libs=libs, maps=None, setup=draw(st.sampled_from([[], [], ["nofmt 1"], ["faults open 1"]])),
                body=["call %d" % draw(st.integers(0, n - 1)) for _ in range(draw(st.integers(1, 4)))], end="end 99")


def judge_auto(case, r):
    sh = case["shape"]
    ns, lib = names(sh), sh.get("userlib") or sh["lib"]
    bad, labels = [], {"auto"}
    lazy = "ENABLE_AUTOLOAD_LAZY" in sh["macros"]
    if r.rc == 88:
        return ["sanitizer report: %r" % r], labels
    cmds, end = rt.parse_log(r.out)
    loaded, box = set(), [l for l in r.out.decode("utf-8", "replace").split("\n") if l.startswith("BOX ")]
    here = bool(case["libs"]) and "faults open 1" not in case["setup"]
    died = False
    for i, l in enumerate(case["body"]):
        if i + 1 >= len(cmds):
            bad.append("no output for command %d" % i)
            break
        c, k = cmds[i + 1], int(l.split()[1])
        want = {k} if lazy else set(range(len(ns)))
        ok = here and all(case["libs"][0][1][x] == "1" for x in want) or k in loaded
        if ok:
            loaded |= want
            labels.add("call")
            if c.r != 1000 + k:
                bad.append("call of %s returned %r (status %d, %r)" % (ns[k], c.r, r.rc, r.err[:300]))
                break
        else:
            died = True
            labels.add("auto-fails")
            msg = unhex(box[0].split(" ")[1]) if box else r.err.decode("utf-8", "replace")
            if bool(box) != ("USE_MESSAGE_BOX" in sh["macros"]) or len(box) > 1:
                bad.append("message boxes: %r" % box)
            if r.rc != 1 or end is not None or c.r is not None:
                bad.append("autoload of %s failed, but the program went on (status %d)" % (ns[k], r.rc))
            # lazy: the symbol asked for; otherwise the one that is missing
            if lib not in (msg or "") or ns[k] not in (msg or ""):
                bad.append("the message %r does not name library %r and function %r" % (msg, lib, ns[k]))
            break
    if not died and (r.rc != 0 or end is None) and not bad:
        bad.append("status %d" % r.rc)
    return bad, labels
