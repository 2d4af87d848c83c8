"""C04: no input, option list or template crashes or hangs the tool."""
import base64, os, random, re, shutil, subprocess, time, hashlib
from hypothesis import strategies as st
from core import Violation, Result, InfraError, VERIF, BASE_ENV, NWORK, build_gendlopen
import core
import decl as D
import noise as N

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = "fuzzing: structured generation with byte/token mutation and scaling under ASan/UBSan/assertions, plus coverage-guided AFL++ campaigns"
LEVEL_NOTE = ("No crash, sanitizer report, uncaught exception, odd exit status, silent failure or hang in the inputs explored; memory errors "
              "that the sanitizers cannot see are not excluded.")
RULE = ("A case is an option list (valid, invalid, repeated, contradictory), an optional custom template and an input (valid declarations, "
        "Clang AST dump, or noise) to which token and byte mutations were applied, or one of the constructs scaled to up to 1 MB. It runs in an "
        "ASan+UBSan build with libstdc++ assertions (scaled ones in a plain build): the exit status must be 0 or 1, with a message if it is 1, "
        "within the time limit. The AFL++ campaign then mutates such cases guided by coverage of the tool. Non-trivial: the tool got "
        "past option parsing (or the case is mutated input with default options); for AFL: inputs in the queue, each of which "
        "reached new coverage.")
ASSUMPTIONS = ["the time limit of 60 s (300 s for scaled inputs) is far above the normal run time (0.05 s)"]
BUDGET = {"quick": (400, 18), "thorough": (8000, 900)}
AFL_SECONDS = {"quick": 12, "thorough": 1500}


def prepare(env):
    env.use_gendlopen()
    env.use_gendlopen("asan")


VALID_OPTS = ["-format=c", "-format=c++", "-format=minimal", "-format=minimal-c++", "-format=plugin", "-line", "-no-date", "-no-pragma-once",
              "-param=read", "-param=skip", "-param=create", "-print-symbols", "-separate", "-ignore-options", "-ast-all-symbols", "-prefix=abc",
              "-prefix=gdo_x", "-Pfoo", "-Px", "-Sfoo", "-P", "-S", "foo", "-D", "-DX=1", "-D=", "-DX", "-include=a.h", "-include=<a.h>", "-include=nq:A",
              "-library=foo", "-library=ext:foo", "-library=api:1:foo", "-library=nq:FOO", "-library=api:", "-library=n", "-library=ext:", "-help",
              "-?", "-full-help", "-version", "--format=C", "--line", "-format", "-param", "-prefix=", "-format=", "-", "--", "-x", "---", "-include=",
              "-library", "-templates-path=/nonexistent", "-templates-path=.", "-template=/nonexistent", "-template=.", "-prefix", "/", "",
              "-prefix=1", "-prefix=%", "-library=\"", "-library=\"x\"", "-include=\"", "-include=<", "-D%s%n", "-prefix=%s", "--P", "--Dx", "-S%s"]

TPL = ["%%type%%", "%%func_symbol%%", "%%func_symbol_pad%%", "%%args%%", "%%param_names%%", "%%return%%", "%%return%% ", "%%obj_type%%",
       "%%obj_symbol%%", "%%obj_symbol_pad%%", "%%sym_type%%", "%%symbol%%", "%PARAM_SKIP_REMOVE_BEGIN%", "%PARAM_SKIP_USE_BEGIN%", "%PARAM_SKIP_END%",
       "%PARAM_SKIP_", "%%", "%", "@\n", "@\r\n", "\n", "\r\n", "GDO_", "gdo_", "gdo", " ", "text", "#line 5", "\x00", "\xff", "@"]

AST = ["TranslationUnitDecl 0x55d <<invalid sloc>> <invalid sloc>\n", "|-FunctionDecl 0x1 <a.h:1:1, col:5> col:5 foo 'int (int, char *)'\n",
       "| |-ParmVarDecl 0x2 <col:5> col:5 a 'int'\n", "| `-ParmVarDecl 0x2 <col:5> col:5 a 'void (*)(int)'\n", "`-VarDecl 0x3 <x> col:1 v 'int[3]' extern\n",
       "|-VarDecl 0x3 <x> col:1 xf 'void (*)(int)'\n", "|-FunctionDecl 0x1 <a.h:1:1> col:5 foov 'void (void)' extern\n", "\x1b[0;1;32mTranslationUnitDecl\x1b[0m\x1b[0;33m 0x5\x1b[0m\n",
       "\x1b[0;34m|-\x1b[0m\x1b[0;1;32mFunctionDecl\x1b[0m\x1b[0;33m 0x1\x1b[0m <x> col:5\x1b[0;1;36m xg\x1b[0m \x1b[0;32m'int ()'\x1b[0m\n", "| `-NoThrowAttr 0x4 <x>\n",
       "|-FunctionDecl 0x1 '", "|-FunctionDecl 0x1 foo '(", "|-VarDecl 0x1 ''", "|-FunctionDecl 0x1 f 'int (*(int))(int)'\n", "'", "(", ")", "*", " ", "...", "\r\n", "\x1b[",
       # placeholders where a type is expected
       "|-VarDecl 0x3 <x> col:1 xp '%%sym_type%% *'\n", "|-VarDecl 0x3 <x> col:1 xq '%%obj_type%%[%%obj_symbol%%]'\n", "|-FunctionDecl 0x1 <x> col:5 xr '%%type%% (%%args%%)'\n",
       "| |-ParmVarDecl 0x2 <x> col:5 a '%%param_names%% (*)(%%args%%)'\n", "%%type%%", "%%symbol%%", "%%sym_type%%"]

OPTL = ["%option ", "line", "no-date", "format=c++", "format=", "D=X", "include=a.h", "library=ext:x", "library=", "param=skip", "prefix=ab", "prefix=",
        "\\\n", " ", "\n", "foo", "\\", "no-pragma-once", "\"", "format=plugin"]

SCALES = ["paren", "paren_fn", "ptr", "params", "dims", "decls", "name", "type", "comment", "block", "pp", "optline", "line_cont", "ast_line",
          "ast_decls", "ast_color", "ast_parms", "fp_nest", "lib_api", "inc", "defs", "prefix", "tpl_line", "tpl_kw", "tpl_at", "spaces", "string", "symbols",
          "bytes", "nul", "pfx_opts", "ast_quotes", "obj_decls", "tpl_gdo"]


@st.composite
def mutations(draw):
    return draw(st.lists(st.tuples(st.sampled_from(["del", "dup", "ins", "swap", "byte", "cut"]), st.integers(0, 5000), st.integers(0, 5000), st.integers(0, 60)),
                         max_size=6))


INS = ["(", ")", "[", "]", "*", ",", ";", "...", "{", "}", "=", "int", "void", "struct", "extern", "typedef", "/*", "*/", "//", "\\\n", "\n#", "\n%option ", "\"", "'",
       "\x00", "\xff", "\xef\xbb\xbf", "9", "_", "%%", "const", "union", "enum", " ", "\n", "(*", ")(", "[]", "()", ",,", "void)", "%", "@", "\\", "\r", "\x1b[", "static", ";;", "TranslationUnitDecl 0x"]


@st.composite
def strategy_(draw):
    k = draw(st.integers(0, 24))
    opts = draw(st.lists(st.one_of(st.sampled_from(VALID_OPTS), st.sampled_from(VALID_OPTS[:12])), max_size=4))
    if k == 0:
        return dict(k="scale", what=draw(st.sampled_from(SCALES)), n=draw(st.sampled_from([1000, 20000, 100000])),
                    opts=draw(st.sampled_from([[], ["-format=c++"], ["-prefix=xy"], ["-print-symbols"], ["-param=create"], ["-line"]])))
    src = draw(st.sampled_from(["decl", "decl", "ast", "frag", "opt"]))
    if src == "decl":
        cfg = D.text_cfg()
        text = D.render(draw(D.decls(cfg, 1, 4)), draw(st.lists(st.integers(0, 8), max_size=6)))
    elif src == "ast":
        text = "".join([AST[draw(st.sampled_from([0, 0, 0, 7]))]] + draw(st.lists(st.sampled_from(AST), max_size=10)))
        opts = draw(st.sampled_from([["-ast-all-symbols"], ["-ast-all-symbols"], ["-Px", "-Sfoo"], ["-Sv"], []])) + opts
    elif src == "opt":
        text = "".join(draw(st.lists(st.sampled_from(OPTL), max_size=10))) + "\nint foo(int a);\n"
    else:
        text = "".join(draw(st.lists(st.one_of(st.sampled_from(INS), st.sampled_from(N.FRAG_NL), N.noise().map(lambda x: x[2] if isinstance(x, (list, tuple)) else x)), max_size=14)))
    c = dict(k="in", text=text, mut=draw(mutations()), opts=opts)
    if draw(st.integers(0, 3)) == 0:
        c["tpl"] = "".join(draw(st.lists(st.sampled_from(TPL), max_size=12)))
    if draw(st.integers(0, 5)) == 0:
        c["garbage"] = draw(st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=10))
    return c


def strategy(env):
    return strategy_()


def explicit(env):
    for w in SCALES:
        yield dict(k="scale", what=w, n=200000, opts=["-prefix=xy"] if w.startswith("tpl") or w == "decls" else [])
    for f in ("c++", "minimal", "plugin"):
        yield dict(k="scale", what="params", n=100000, opts=["-format=" + f])
    for t in ("", "\x00", ";", "\xef\xbb\xbf", "\xef\xbb\xbfint f(void);", "%option", "int f(int a)", "int f(int a);\x00int g(int a);"):
        yield dict(k="in", text=t, mut=[], opts=[])
        yield dict(k="in", text=t, mut=[], opts=[], tpl="")
    for o in VALID_OPTS:
        yield dict(k="in", text="int foo(int a);", mut=[], opts=[o])


def apply_mut(text, mut):
    """token-wise then byte-wise mutations"""
    for op, a, b, i in mut:
        t = re.findall(r"\w+|\s+|.", text, re.S)
        if op == "ins":
            t.insert(a % (len(t) + 1), INS[i % len(INS)])
        elif not t:
            continue
        elif op == "del":
            del t[a % len(t)]
        elif op == "dup":
            x = a % len(t)
            t[x:x] = t[x:x + 1 + i % 8]
        elif op == "swap":
            x, y = a % len(t), b % len(t)
            t[x], t[y] = t[y], t[x]
        elif op == "cut":
            t = t[:a % len(t)]
        elif op == "byte":
            s = "".join(t)
            x = a % len(s)
            t = [s[:x], chr(b % 256), s[x + 1:]]
        text = "".join(t)
    return text


def scaled(what, n):
    """-> (input, extra options, template or None); up to about 1 MB"""
    A, o, t = AST[0], [], None
    if what in ("paren", "paren_fn", "ptr", "dims", "spaces"):  # quadratic by design of the parser, but they end
        n = min(n, 15000)
    n1 = min(n, 120000)  # a single argument is limited by the system
    s = "int foo(int a);\n"
    if what == "paren":
        s = "int " + "(" * n + "foo" + ")" * n + "(int a);"
    elif what == "paren_fn":
        s = "int foo" + "(" * n + "int a" + ")" * n + ";"
    elif what == "ptr":
        s = "int " + "*" * n + "foo(int " + "*" * n + "a);"
    elif what == "params":
        s = "int foo(" + ", ".join("int a%d" % i for i in range(n // 20)) + ");"
    elif what == "dims":
        s = "int foo" + "[4]" * (n // 4) + ";"
    elif what == "decls":
        s = "".join("int foo%d(int a);\n" % i for i in range(n // 50))
        o = ["-param=skip"]
    elif what == "obj_decls":
        s = "".join("int foo%d;\n" % i for i in range(n // 50))
    elif what == "name":
        s = "int " + "f" * n + "(int " + "a" * n + ");"
    elif what == "type":
        s = "t" * n + " foo(" + "const " * (n // 6) + "int a);"
    elif what == "comment":
        s = "/*" + "*/ /*" * (n // 5) + "*" * n + "/ //" + "x" * n + "\n" + s
    elif what == "block":
        s = "struct a " + "{ int x; " * (n // 9) + "};" * (n // 9) + ";\n" + s
    elif what == "pp":
        s = "#define X \\\n" * (n // 12) + "\n" + "#x\n" * (n // 3) + s
    elif what == "optline":
        s = "%option " + "include=a.h " * (n // 12) + "\n" + s
    elif what == "line_cont":
        s = "// " + "\\\n" * (n // 2) + "\nint" + " " + s
    elif what == "ast_line":
        s, o = A + "|-FunctionDecl 0x1 <x> col:5 foo 'int (" + "x" * n + ")'\n| `-ParmVarDecl 0x1 <x> col:1 a '" + "y" * n + "'\n", ["-ast-all-symbols"]
    elif what == "ast_quotes":
        s, o = A + "|-FunctionDecl 0x1 <x> col:5 foo 'int ()'" + " '" * n + "\n" + "|-VarDecl 0x1" + " ;'" * (n // 3) + "\n", ["-ast-all-symbols"]
    elif what == "ast_decls":
        s, o = A + "".join("|-FunctionDecl 0x1 <x> col:5 foo%d 'int (int)'\n| `-ParmVarDecl 0x1 <x> col:1 a 'int'\n" % i for i in range(n // 80)), ["-ast-all-symbols"]
    elif what == "ast_parms":
        s, o = A + "|-FunctionDecl 0x1 <x> col:5 foo 'int (int)'\n" + "| |-ParmVarDecl 0x1 <x> col:1 a 'int'\n" * (n // 40), ["-ast-all-symbols"]
    elif what == "ast_color":
        s, o = A + "|-FunctionDecl 0x1 <x> col:5 foo 'int (int)'" + "\x1b[0;1m" * (n // 6) + "\x1b[" + "1;" * n + "\n", ["-ast-all-symbols"]
    elif what == "fp_nest":
        m = n // 20
        s = "void foo(" + "int (*f)(" * m + "int" + ")" * m + ");"
    elif what == "lib_api":
        o = ["-library=api:" + "a" * n1 + ":" + "b" * 1000]
    elif what == "inc":
        o = ["-include=" + "i" * n1]
    elif what == "defs":
        o = ["-D" + "d" * n1 + "=" + "1"]
    elif what == "prefix":
        o, t = ["-prefix=" + "p" * min(n1, 20000)], "gdo_foo GDO_X gdo\n"
    elif what == "pfx_opts":
        o = ["-P" + "q%d" % i for i in range(n // 200)] + ["-Sfoo"]
    elif what == "symbols":
        o = ["-S" + "q%d" % i for i in range(n // 200)]
    elif what == "tpl_line":
        t = "x" * n + "%%symbol%%" + " " * n + "gdo_" + "\n"
    elif what == "tpl_kw":
        t = "%%func_symbol%%" * (n // 15) + "\n"
    elif what == "tpl_at":
        t = "%%symbol%%@\n" * (n // 12) + "\n"
    elif what == "tpl_gdo":
        t = "gdo GDO_ gdo_" * (n // 13) + "\n"
    elif what == "spaces":
        s = "int" + " " * n + "foo" + "\n" * n + "(int\t" + "\t" * n + "a);"
    elif what == "string":
        s = "#define X \"" + "a" * n + "\\\n" * 20 + "b\"\n" + s
    elif what == "bytes":
        s = "int foo(int a);" + "\x80\xff" * n
    elif what == "nul":
        s = "int foo(int a);" + "\x00" * n
    return s, o, t


BAD = (b"AddressSanitizer", b"runtime error:", b"LeakSanitizer", b"UndefinedBehaviorSanitizer", b"terminate called", b"Assertion '")
SAN_ENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=0", UBSAN_OPTIONS="exitcode=99:halt_on_error=1")


def judge(what, r):
    if r.timeout:
        raise Violation("%s: did not end in time" % what)
    for b in BAD:
        if b in r.err:
            raise Violation("%s: %s\n%r" % (what, b.decode(), r))
    if r.rc not in (0, 1):
        raise Violation("%s: exit status %s\n%r" % (what, r.rc, r))
    if r.rc == 1 and not r.err.strip():
        raise Violation("%s: failed without any message" % what)


def check(env, case):
    if case["k"] == "afl":
        return check_afl(env, case)
    d = env.path("run")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if case["k"] == "scale":
        text, o, tpl = scaled(case["what"], case["n"])
        opts, exe, tmo = o + case["opts"], env.cache["exe"], 150
        extra = ["-template=tpl"] if tpl is not None else []
    else:
        text = apply_mut(case["text"], case["mut"])
        opts, tpl, exe, tmo = list(case["opts"]), case.get("tpl"), env.cache["exe-asan"], 40
        g = case.get("garbage")
        if g and not any(x in g for x in ("out", "dump", "force", "\x00")):
            opts.insert(len(opts) // 2, g)
        extra = ["-template=tpl"] if tpl is not None else []
    if tpl is not None:
        with open(d + "/tpl", "wb") as f:
            f.write(tpl.encode("latin-1"))
    data = text.encode("latin-1", "replace")
    with open(d + "/in", "wb") as f:
        f.write(data)
    args = [x.encode("latin-1", "replace") for x in extra + opts + ["in"]]
    r = core.run([exe] + args, cwd=d, env=SAN_ENV, timeout=tmo)
    judge("gendlopen %r (input of %d bytes)" % ([x[:80] for x in args], len(data)), r)
    left = sorted(os.listdir(d))
    if [x for x in left if x not in ("in", "tpl")]:
        raise Violation("files were written without -out: %r (options %r)" % (left, opts))
    labels = ["kind=" + case["k"] + (":" + case["what"] if case["k"] == "scale" else ""), "exit=%d" % r.rc]
    past = not (r.rc == 1 and b"-help" in r.err) and not (r.rc == 0 and (r.out.startswith(b"usage") or r.out.startswith(b"gendlopen 1")))
    return Result(labels, past and bool(data), sample=dict(opts=[x[:60] for x in opts[:5]], input=text[:300], tpl=tpl and tpl[:100], exit=r.rc))


# ------------------------------------------------------------------ AFL++
def check_afl(env, case):
    exe = build_gendlopen("aflsan")
    data = base64.b64decode(case["data"])
    e = dict(SAN_ENV)
    e["ASAN_OPTIONS"] += ":abort_on_error=1:symbolize=1"
    r = core.run([exe], stdin=data, cwd=env.scratch, env=e, timeout=40)
    if r.rc == 77:
        raise core.Inconclusive("memfd")
    judge("fuzz input %r" % data[:400], r)
    return Result(["kind=afl"], True)


SEEDS = [
    b"-format=c\x1e\x1eint foo(int a, char *b, ...);\nextern void (*fp)(int);\nint arr[3][4];\n",
    b"-format=c++\n-line\x1e\x1e// c\n#define X \\\n 1\n/* x */ unsigned long (*xfoo(void));struct s { int a; };\n",
    b"-print-symbols\n-param=create\x1e\x1e%option format=c++ D=X\nint f(int, void (*)(int), char *[]);\n",
    b"-ast-all-symbols\x1e\x1e" + "".join(AST[:7]).encode("latin-1"),
    b"-Px\n-Sfoo\n-prefix=ab\x1e\x1e" + (AST[7] + AST[8] + AST[1] + AST[2] + AST[3]).encode("latin-1"),
    b"-prefix=ab\x1e%%return%% %%type%% %%func_symbol_pad%%(%%args%%) %%param_names%%@\ngdo_x GDO_\n%%obj_type%% %%obj_symbol%%\n%%sym_type%% %%symbol%%\n"
    b"%PARAM_SKIP_REMOVE_BEGIN%\nx\n%PARAM_SKIP_END%\n\x1eint foo(int a);\nchar *v;\n",
    b"-library=api:2:foo\n-include=<a.h>\n-DX=1\n-no-pragma-once\x1e\x1eint foo(void);",
    b"-library=ext:foo\n-format=plugin\x1e\x1eint foo(const char *restrict a, int b[static 4], int (*cb)(void *, int (*)(int)));",
    b"-format=minimal-c++\n-param=skip\x1e\x1e\xef\xbb\xbfint (((foo)))(int a);\nconst char * const bar;\n",
]


def campaign(env, tier):
    exe = build_gendlopen("afl")
    build_gendlopen("aflsan")
    d = os.path.join(env.root, "afl")
    os.makedirs(d + "/in")
    for i, s in enumerate(SEEDS):
        with open("%s/in/s%02d" % (d, i), "wb") as f:
            f.write(s)
    e = dict(BASE_ENV, AFL_NO_UI="1", AFL_SKIP_CPUFREQ="1", AFL_NO_AFFINITY="1", AFL_I_DONT_CARE_ABOUT_MISSING_CRASHES="1", AFL_HANG_TMOUT="10000",
             AFL_FORKSRV_INIT_TMOUT="60000", ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:symbolize=0", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1", AFL_NO_STARTUP_CALIBRATION="1")
    e.pop("ASAN_OPTIONS"), e.pop("UBSAN_OPTIONS")
    ps = []
    secs = AFL_SECONDS[tier]
    for w in range(NWORK):
        argv = ["afl-fuzz", "-i", d + "/in", "-o", d + "/out", "-M" if w == 0 else "-S", "f%d" % w, "-V", str(secs), "-s", str(env.seed * 100 + w + 1), "-m", "none", "-t", "5000",
                "-x", os.path.join(VERIF, "fuzz", "afl.dict"), "--", exe]
        ps.append(subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=open("%s/log%d" % (d, w), "wb"), stderr=subprocess.STDOUT, env=e, cwd=d, start_new_session=True))
    t0 = time.time()
    for p in ps:
        try:
            p.wait(timeout=max(1, t0 + secs + 90 - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
    res = dict(evals=0, keys=set(), samples=[], counters=dict(), fails=[])
    cand, corpus = {}, set()
    started = 0
    for w in range(NWORK):
        o = "%s/out/f%d" % (d, w)
        try:
            for line in open(o + "/fuzzer_stats"):
                if line.startswith("execs_done"):
                    res["evals"] += int(line.split(":")[1])
                    started += 1
        except OSError:
            continue
        for sub in ("queue", "crashes", "hangs"):
            for f in sorted(os.listdir(o + "/" + sub)) if os.path.isdir(o + "/" + sub) else []:
                if not f.startswith("id:"):
                    continue
                data = open("%s/%s/%s" % (o, sub, f), "rb").read()
                if sub == "queue":
                    corpus.add(data)
                    res["keys"].add("afl" + hashlib.sha1(data).hexdigest())
                    if f.startswith("id:0000") is False and len(res["samples"]) < 2:
                        res["samples"].append(dict(afl=data[:300].decode("latin-1")))
                else:
                    cand[data] = sub
    if started == 0:
        raise InfraError("no afl-fuzz instance worked: " + open(d + "/log0", errors="replace").read()[-1500:])
    res["counters"] = dict(afl_execs=res["evals"], afl_queue=len(res["keys"]), afl_candidates=len(cand), afl_instances=started)
    # replay under the sanitizers: everything suspicious, and the corpus
    from concurrent.futures import ThreadPoolExecutor

    t1 = time.time()
    found = []

    def replay(data):
        # one confirmed failure is enough once the time is used up (each hang takes 40 s)
        if found and time.time() > t1 + 60:
            return None
        case = dict(k="afl", data=base64.b64encode(data).decode())
        try:
            check_afl(env, case)
        except core.Inconclusive:
            pass
        except Violation as x:
            found.append(1)
            return data, str(x)
        return None
    corpus = sorted(corpus)
    rnd = random.Random(env.seed)
    rnd.shuffle(corpus)
    corpus = corpus[:1500 if tier == "quick" else 100000]
    with ThreadPoolExecutor(NWORK) as ex:
        bad = [x for x in ex.map(replay, sorted(cand, key=len)[:50] + corpus) if x]
    res["counters"]["afl_corpus_replayed_with_sanitizers"] = len(corpus)
    if bad:
        data, msg = min(bad, key=lambda x: len(x[0]))
        res["fails"].append((shrink(env, data), msg))
    return res


def shrink(env, data, budget=30):
    """delta debugging on bytes"""
    def bad(x):
        try:
            check_afl(env, dict(k="afl", data=base64.b64encode(x).decode()))
        except Violation:
            return True
        except core.Inconclusive:
            pass
        return False
    t0, n = time.time(), 2
    while len(data) >= 2 and time.time() < t0 + budget:
        size = max(1, len(data) // n)
        for i in range(0, len(data), size):
            x = data[:i] + data[i + size:]
            if time.time() > t0 + budget:
                break
            if bad(x):
                data, n = x, max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(data), n * 2)
    return dict(k="afl", data=base64.b64encode(data).decode())
