"""C03: unsupported input is refused loudly; no output is produced or altered."""
import os, re, shutil
from hypothesis import strategies as st
from core import Violation, Result
import decl as D
import noise as N

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = "property-based mutation testing: one generated defect per input must be refused with status 1 and a message and no output"
LEVEL_NOTE = 'A mutant counts only if the model says it is outside the supported language; accepted-valid inputs act as controls.'
RULE = ("A case is a valid list of declarations into which exactly one defect is planted (illegal character, initialiser, function "
        "body, unbalanced, missing or mismatched bracket, missing semicolon, attribute or second declarator behind a declaration, unreadable "
        "parameter, empty parameter, number or keyword as a name, duplicate symbol, unterminated comment or block, nothing declared) "
        "at a generated place, for a random format and output mode. The run has to exit 1 with a message (with the right line for an illegal "
        "character), an empty stdout, and no created or changed file. Non-trivial: the defect stands beside at least one valid declaration.")
ASSUMPTIONS = ["only defects that no reading of the documented input language permits are planted"]
BUDGET = {"quick": (1200, 30), "thorough": (25000, 1200)}

ILLEGAL = list("\"'!$%&+-./:<>?@^|~`\\#") + ["\x01", "\x00", "\x7f", "\x80", "\xff", "\xe9", "\xef", "\x1b"]


def prepare(env):
    env.use_gendlopen()


KINDS = ["char", "char", "char", "init", "body", "drop_bracket", "extra_bracket", "no_semi", "trailer", "second", "unnamed", "emptyparam",
         "badname", "dup", "dup", "unterminated", "nothing", "onetoken", "startptr", "paramword", "curly", "wrong_bracket"]


@st.composite
def strategy_(draw):
    cfg = D.text_cfg()
    ds = draw(D.decls(cfg, 1, 5))
    kind = draw(st.sampled_from(KINDS))
    c = dict(ds=ds, kind=kind, pos=draw(st.integers(0, 400)), which=draw(st.integers(0, 40)),
             mode=draw(st.sampled_from(["read", "read", "skip", "create"])),
             out=draw(st.sampled_from(["stdout", "stdout", "new", "force", "template", "print", "separate", "force-separate"])),
             fmt=draw(st.sampled_from(["c", "c++", "minimal", "minimal-c++", "plugin"])),
             nl=draw(st.lists(st.integers(0, 30), max_size=5)), pre=draw(st.lists(N.noise(), max_size=2)), eol=draw(st.booleans()))
    if kind == "char":
        c["ch"] = draw(st.sampled_from(ILLEGAL))
    return c


def strategy(env):
    return strategy_()


UNNAMED = [["int"], ["unsigned", "int"], ["char", "*"], ["foo_t"], ["const", "foo_t", "*"], ["struct", "foo"], ["const", "foo_t"],
           ["int", "[", "4", "]"], ["char", "*", "const"], ["int", "(", "*", ")", "(", "int", ")"], ["struct", "foo", "*"],
           ["long", "long"], ["void", "*", "restrict"], ["char", "*", "[", "]"], ["enum", "e"], ["const", "struct", "foo"],
           ["4"], ["int", "4"], ["int", "*", "*"], ["union", "u"], ["volatile", "foo_t"], ["const", "union", "u"],
           ["foo_t", "volatile"], ["volatile", "enum", "e"], ["char", "*", "volatile"], ["const", "volatile", "foo_t"], ["foo_t", "const", "volatile"], ["struct", "s", "const"], ["short"],
           ["signed", "char"], ["unsigned", "short"], ["long", "double"], ["unsigned", "long"], ["signed"], ["const", "float"], ["_Bool"], ["const", "_Bool"]]
TRAILERS = [["__attribute__", "(", "(", "nothrow", ")", ")"], ["noexcept"], ["const"], ["asm", "(", "x", ")"], ["foo"], ["(", "int", "b", ")"],
            [",", "other"], [",", "*", "other2"], [",", "g", "(", "int", "y", ")"], [",", "h", "[", "3", "]"], ["*"], ["[", "]"]]


def plant(case):
    """-> (token lists incl. semicolons or raw text, mode) of the defective input; None if it cannot be planted"""
    ds, kind, pos, which = case["ds"], case["kind"], case["pos"], case["which"]
    mode = case["mode"]
    tls = [D.decl_tokens(d) + [";"] for d in ds]
    i = which % len(tls)
    t = tls[i]
    d = ds[i]
    if kind == "char":
        flat = sum(tls, [])
        return tls, mode, ("char", pos % (len(flat) + 1))
    if kind == "init":
        tls[i] = t[:-1] + ["="] + [["4"], ["{", "4", "}"], ["{", "0", ",", "1", "}"], ["NULL"]][pos % 4] + [";"]
    elif kind == "curly":
        p = pos % (len(t) + 1)
        tls[i] = t[:p] + [["{"], ["}"], ["="]][which % 3] + t[p:]
    elif kind == "body":
        tls[i] = t[:-1] + [["{", "}"], ["{", "return", ";", "}"], ["{", "return", "4", ";", "}", ";"]][pos % 3]
    elif kind in ("drop_bracket", "extra_bracket", "wrong_bracket"):
        br = [j for j, x in enumerate(t) if x in "()[]"]
        if not br:
            return None
        if kind == "wrong_bracket":
            # one of a pair is of the other kind
            j = br[pos % len(br)]
            tls[i] = t[:j] + [{"(": "[", ")": "]", "[": "(", "]": ")"}[t[j]]] + t[j + 1:]
        elif kind == "drop_bracket":
            j = br[pos % len(br)]
            tls[i] = t[:j] + t[j + 1:]
        else:
            j = pos % len(t)
            tls[i] = t[:j] + ["()[]"[which % 4]] + t[j:]
    elif kind == "no_semi":
        # two declarations run together; whatever the kinds, the first one ends in text behind a bracket
        if len(tls) < 2:
            return None
        if i == len(tls) - 1:
            i -= 1
        if tls[i][-2] not in (")", "]") and not any(x in "([" for x in tls[i + 1][:-1]):
            return None
        if tls[i][-2] not in (")", "]"):
            return None  # `int a  int (f)(x)' would read as one declaration with a longer type
        tls[i] = tls[i][:-1]
    elif kind == "trailer":
        tr = TRAILERS[pos % len(TRAILERS)]
        if d["k"] == "obj" and tr[0] not in (",", "[", "*"):
            return None
        if d["k"] == "obj" and tr[0] == "[":
            return None
        if d["k"] == "arr" and tr == ["[", "]"]:
            return None
        if tr[0] == "(" and len(t) > 3 and t[-4] == "(":
            return None  # `type x (y) (int b)' reads as a function y with a type of one more word
        tls[i] = t[:-1] + tr + [";"]
    elif kind == "second":
        tls[i] = t[:-1] + [",", "second_%d" % i, ";"]
    elif kind in ("unnamed", "paramword", "emptyparam"):
        fi = [j for j, x in enumerate(ds) if x["k"] == "func" and not isinstance(x["p"], str)]
        if not fi:
            return None
        i = fi[which % len(fi)]
        d = dict(ds[i], ext=False, par=0, pp=0, whole=0)
        ps = [D.param_tokens(p) for p in d["p"] if p["k"] != "va"]
        if kind == "unnamed":
            ps.insert(pos % (len(ps) + 1), UNNAMED[which % len(UNNAMED)])
            mode = "read"
        elif kind == "paramword":
            ps.insert(pos % (len(ps) + 1), [["int", "x", "(", ")"], ["int", "(", "*", "x", ")"], ["*", "x"], ["(", "int", ")", "x"], ["int", "x", "y", "[", "4", "]", "z"],
                                            ["*", "int", "x"]][which % 6])
            if mode == "skip":
                mode = "read"
        else:
            if not ps:
                ps = [["int", "a"]]
            ps.insert(pos % (len(ps) + 1), [])
        tls[i] = d["t"] + [d["n"], "("] + D.join_params(ps) + [")", ";"]
    elif kind == "badname":
        bad = ["4", "0x1", "int", "const", "void", "unsigned", "9a", "volatile", "restrict", "_Bool", "char", "long", "short", "signed", "double", "float"][pos % 16]
        if d["k"] not in ("obj", "arr"):
            d = dict(k="obj", t=["foo_t"], n="x", par=0, ext=False)
        tls[i] = D.decl_tokens(dict(d, n=bad)) + [";"]
    elif kind == "dup":
        j = pos % len(ds)
        # the same name again, as a possibly different kind of declaration
        new = dict(ds[i], n=ds[j]["n"])
        tls.insert((pos // 7) % (len(tls) + 1), D.decl_tokens(new) + [";"])
        # far apart, many symbols in front
        for q in range([0, 0, 0, 3, 17, 60][which % 6]):
            tls.insert((pos // 11 + q * which) % (len(tls) + 1), ["int", "many_%d" % q] + (["(", "void", ")"] if (q + which) % 3 else []) + [";"])
    elif kind == "onetoken":
        tls.insert(pos % (len(tls) + 1), [["foo_t"], ["int"], ["extern", "foo"], ["(", ")"], ["*"], ["..."], [",", ]][which % 7] + [";"])
    elif kind == "startptr":
        tls.insert(pos % (len(tls) + 1), [["*", "p"], ["(", "f", ")", "(", ")"], ["*", "f", "(", "int", "a", ")"], ["[", "4", "]", "x"], [",", "x", "y"],
                                          ["4", "x"], ["...", "x"]][which % 7] + [";"])
    elif kind == "unterminated":
        return tls, mode, ("append", [" /* open", " /* open \n int x;", " struct s { int a; ", "\n#define A /* x", " /*/", " enum { A, B = 2 \n int f(int a);",
                                      "\n#if X /* a \n*", " typedef union { struct { int a; };"][pos % 8])
    elif kind == "nothing":
        return [], mode, ("append", ["", "\n", "// nothing\n", "/* */", "struct foo { int x; };", "typedef int x;", ";;;", "#define A\n", "\ufeff"][pos % 9])
    return tls, mode, None


def snapshot(d):
    res = {}
    for root, ds, fs in os.walk(d):
        for f in fs + ds:
            p = os.path.join(root, f)
            s = os.lstat(p)
            res[os.path.relpath(p, d)] = (s.st_ino, s.st_size, s.st_mtime_ns, open(p, "rb").read() if os.path.isfile(p) else None)
    return res


def check(env, case):
    r = plant(case)
    if r is None:
        return Result(["not plantable"], False)
    tls, mode, how = r
    # valid noise in front (whole-line pieces only between declarations)
    enc = "utf-8"
    sep = ["\n" if (k in case["nl"]) else " " for k in range(31)]
    flat = sum(tls, [])
    gaps = 0
    pre = "".join(p[2] for p in case["pre"] if p[1] or True)
    pre = pre.lstrip("\n") if pre.startswith("\n") else pre
    head = (pre + " ") if pre else ""
    line = None
    if how and how[0] == "char":
        ch, at = case["ch"], how[1]
        if ch == "#":
            # only illegal behind something on the same line
            at = max(1, at)
        if ch == "%" and at == 0:
            pass
        out = []
        for i in range(len(flat) + 1):
            if i == at:
                s = sep[i % 31] if ch != "#" else " "
                out.append(s if i else "")
                prefix = (head + "".join(out))
                line = 1 + prefix.count("\n")
                out.append("\0CH\0")
                out.append(" ")
            elif i:
                out.append(sep[i % 31])
            if i < len(flat):
                out.append(flat[i])
        text = head + "".join(out)
        if case["eol"]:
            text = text.replace("\n", "\r\n")
        a, b = text.split("\0CH\0")
        chb = ch.encode("latin-1")
        data = a.encode(enc) + chb + b.encode(enc)
        if ch == "%" and (a == "" or a.endswith("\n")) and b.startswith("option"):
            return Result(["not plantable"], False)
    else:
        text = head
        for i, x in enumerate(flat):
            text += (sep[i % 31] if i else "") + x
        if how:
            text += how[1]
        if case["eol"]:
            text = text.replace("\n", "\r\n")
        data = text.encode(enc)
    d = env.path("c03")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    args = ["-format=" + case["fmt"], "-param=" + mode]
    o = case["out"]
    if o == "template":
        with open(env.path("t.tpl"), "w") as f:
            f.write("text\n%%func_symbol%%\n%%symbol%%\n")
        args += ["-template=" + env.path("t.tpl")]
        if case["pos"] % 2:
            args += ["-out=" + os.path.join(d, "o.h"), "-force"]
    elif o == "print":
        args.append("-print-symbols")
    elif o != "stdout":
        args.append("-out=" + os.path.join(d, "o.h"))
        if "force" in o:
            args.append("-force")
            for n in ("o.h", "o.c", "o.hpp", "o.cpp"):
                with open(os.path.join(d, n), "w") as f:
                    f.write("precious " + n)
        if "separate" in o:
            args.append("-separate")
    before = snapshot(d)
    r = env.gdo(["-"] + args, stdin=data, cwd=d)
    ctx = "%r\noptions %s\n%r" % (data[:3000], args, r)
    if r.rc != 1:
        raise Violation("defective input (%s) accepted: %s" % (case["kind"], ctx))
    if r.out:
        raise Violation("output on stdout: %s" % ctx)
    if not r.err.strip():
        raise Violation("no message: %s" % ctx)
    if snapshot(d) != before:
        raise Violation("files created or changed although the input was refused: %s" % ctx)
    if line is not None:
        m = re.search(rb"at line (\d+)", r.err)
        chs = case["ch"]
        want = ("[%s]" % chs if 0x21 <= ord(chs) <= 0x7e else "[0x%02X]" % ord(chs)).encode()
        if not m or int(m.group(1)) != line or want not in r.err:
            raise Violation("illegal character %s is at line %d: %s" % (want, line, ctx))
    return Result(["kind=" + case["kind"], "out=" + o, "mode=" + mode], bool(tls) and len(tls) > 1 or case["kind"] != "nothing",
                  sample=dict(input=data[:400].decode("latin-1"), kind=case["kind"], options=args[:3]))
