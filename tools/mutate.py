#!/usr/bin/env python3
"""tools/mutate.py <workdir> <seed> <count>: mutation campaign (development aid, no check uses it).
Copies /repo and /verif below <workdir>, plants random small changes into the sources there, drops those that do
not build or that the repository's own tests notice, and runs the related checks with a short budget against the
rest.  Survivors are appended to <workdir>/survivors.txt for review."""
import os, random, re, shutil, subprocess, sys, time
W, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
REPO, VER = W + "/repo", W + "/verif"
MAP = {
    "c.c": "C20 C21 C28 C29 C27 C30 C31 C26 C12 C13", "c.h": "C26 C12 C27 C13 C20 C30 C11", "common.h": "C12 C20 C21 C13 C30 C22 C17 C27 C31", "common.c": "C21 C22 C31 C12",
    "cxx.cpp": "C22 C28 C27 C26 C29 C30 C31 C12 C13", "cxx.hpp": "C22 C26 C12 C27 C13 C30 C11", "plugin.c": "C25 C30 C12", "plugin.h": "C25 C12 C30",
    "minimal.h": "C23 C12 C30 C31", "minimal_cxxeh.hpp": "C24 C12 C30 C31", "filename_macros.h": "C17 C31",
    "check_pattern.cpp": "C01 C03 C06 C04 C05 C07", "parse.cpp": "C01 C05 C03 C06 C02 C04", "tokenize.cpp": "C01 C02 C03 C12 C04 C07", "parameter_names.cpp": "C06 C03 C01 C12 C04",
    "clang_ast.cpp": "C07 C05 C04", "generate.cpp": "C17 C14 C16 C13 C12 C28 C11 C09 C15", "substitute.cpp": "C10 C27 C14 C06 C12 C26 C01", "data.cpp": "C15 C14 C16 C04",
    "gendlopen.cpp": "C14 C15 C17 C11 C10 C08 C01 C16", "options.cpp": "C08 C17 C16 C04", "utils.cpp": "C10 C01 C14 C11 C17 C05 C06 C12 C04 C15", "open_file.cpp": "C16 C09 C04 C03",
    "cio_ofstream.cpp": "C16 C09 C15", "gen_templates_data.c": "C15 C14 C10", "opt_parser.h": "C08 C04", "opt_parser++.hpp": "C08 C04", "utils.hpp": "C05 C17 C01 C11 C04 C10",
    "parse.hpp": "C01 C03", "main.cpp": "C16 C04 C03"}
SKIP = re.compile(r"_MSC_VER|UTILS_PROGNAME|__MINGW")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def candidates():
    res = []
    for d in (REPO + "/src", REPO + "/src/templates"):
        for f in sorted(os.listdir(d)):
            if f not in MAP:
                continue
            p = d + "/" + f
            tpl = d.endswith("templates")
            stack, com = [], False
            L = open(p, newline="").read().split("\n")
            for i, l in enumerate(L):
                s = l.strip()
                if com:
                    com = "*/" not in s
                    continue
                if s.startswith(("/*", "*")):
                    com = "*/" not in s
                    continue
                m = re.match(r"#\s*(if\w*|el\w+|else|endif)\b(.*)", s)
                if m:
                    k = m.group(1)
                    if k.startswith("if"):
                        stack.append(m.group(2))
                    elif k == "endif" and stack:
                        stack.pop()
                    elif k.startswith("el") and stack:
                        stack[-1] = m.group(2) or ("not " + stack[-1] if not SKIP.search(stack[-1]) else "")
                if any(SKIP.search(x) for x in stack) or (not tpl and any("_WIN32" in x and "not" not in x for x in stack)):
                    continue
                if not s or s.startswith(("//", "#include", "#error", "# error")):
                    continue
                for o, new in ops(l):
                    res.append((os.path.relpath(p, REPO), i, o, [l], [new]))
                for o, k, new in blocks(L, i):
                    res.append((os.path.relpath(p, REPO), i, o, L[i:i + k], new))
    return res


def blocks(L, i):
    """changes of more than one line: [(name, number of lines, new lines)]"""
    l = L[i]
    ind = len(l) - len(l.lstrip())
    st = re.compile(r"^\s+[^#/*].*;@?$")
    if i + 1 < len(L) and st.match(l) and st.match(L[i + 1]) and len(L[i + 1]) - len(L[i + 1].lstrip()) == ind and l != L[i + 1] and "return" not in L[i + 1] and hash(l + L[i + 1]) % 3 == 0 and not re.match(r"^\s+(return|const|auto|std::|size_t|int|char|bool|FILE|break|void)\b", l):
        yield "swap", 2, [L[i + 1], l]
    if re.match(r"^\s+(if|while|for) \(.*\{@?$", l):
        for j in range(i + 1, min(i + 25, len(L))):
            if len(L[j]) - len(L[j].lstrip()) == ind and L[j].strip() in ("}", "}@"):
                yield "noblock", j - i + 1, ["@" if x.endswith("@") else "" for x in L[i:j + 1]]
                if j > i + 1 and "@" not in l[-1:]:
                    yield "always", j - i + 1, [" " * ind + "{"] + L[i + 1:j + 1]
                break
    if re.match(r"^\s+case .*:$", l) and "@" not in l:
        yield "nocase", 1, [""]


def ops(l):
    for m in re.finditer(r"(?<![\w.\"'])([2-9]|[1-9][0-9]+)(?![\w.\"'])", l):
        yield "num", l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]
        yield "num", l[:m.start()] + str(int(m.group(1)) - 1) + l[m.end():]
    s = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group(0)), l)
    s = re.sub(r"/\*.*?\*/", lambda m: "\0" * len(m.group(0)), s)
    m = re.match(r"^(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{@?)$", l)
    if m and m.group(2).count("(") == m.group(2).count(")"):
        yield "neg", m.group(1) + "!(" + m.group(2) + ")" + m.group(3)
    for a, b in (("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"),
                 (" + 1", ""), (" - 1", ""), ("++", "--"), ("(0)", "(1)"), ("= 0", "= 1"), ("= 1", "= 0"), (" + 2", " + 1"), ("[0]", "[1]"), ("defined(", "!defined("), ("!defined(", "defined("),
                 ("#ifdef", "#ifndef"), ("# ifdef", "# ifndef"), ("_upper", "_lower"), ("_lower", "_upper"), (".front()", ".back()"), (".back()", ".front()"), (", 1", ", 0")):
        for m in re.finditer(re.escape(a), s):
            yield "rep", l[:m.start()] + b + l[m.end():]
    for m in re.finditer(r'"((?:\\.|[^"\\])+)"', l):
        if not s.strip().startswith(("std::cout", "printf")):
            t = m.group(1)
            if len(t) > 1 and not re.search(r"[A-Za-z)] [a-z(]", t):
                yield "str", l[:m.start(1)] + t[:-1 if t[-2] != "\\" else -2] + l[m.end(1):]
    if re.match(r"^\s+[\w:\.\->\*\[\]%!+()]+( [-+|&]?= .*|\(.*\)|\+\+|--);@?$", l) and not re.match(r"^\s+(return|const|auto|std::string \w+;|size_t|int|char|bool|FILE)\b", l):
        yield "del", re.match(r"^\s*", l).group(0) + ("/**/@" if l.endswith("@") else ";")
    if re.match(r"^\s+(break|continue);$", l):
        yield "del", re.match(r"^\s*", l).group(0) + ";"
    if re.match(r"^\s+(&&|\|\|) ", l):
        yield "del", ""
    if re.match(r'^\s*#\s*(define|undef) ', l) and not l.endswith("\\"):
        yield "del", ""


def main():
    os.makedirs(W, exist_ok=True)
    shutil.rmtree(REPO, ignore_errors=True)
    shutil.rmtree(VER, ignore_errors=True)
    sh("cp -a /repo %s && cp -a /verif %s && rm -rf %s/build %s/seeded" % (REPO, VER, VER, VER))
    c = candidates()
    print(len(c), "candidates")
    rnd = random.Random(SEED)
    # one file after the other gets the same weight, by square root of its size
    by = {}
    for x in c:
        by.setdefault(x[0], []).append(x)
    files = sorted(by)
    weights = [len(by[f]) ** 0.7 for f in files]
    done = 0
    log = open(W + "/log.txt", "a")
    stats = dict(build=0, tests=0, caught=0, survived=0)
    while done < COUNT:
        f = rnd.choices(files, weights)[0]
        x = rnd.choice(by[f])
        path, i, op, old, new = x
        full = REPO + "/" + path
        orig = open(full, newline="").read()
        lines = orig.split("\n")
        if lines[i:i + len(old)] != old:
            continue
        done += 1
        lines[i:i + len(old)] = new
        open(full, "w", newline="").write("\n".join(lines))
        try:
            r = sh("unshare -Urm bash -c 'mount --bind %s /repo; cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1 || exit 3; timeout 100 bash /opt/vp/test.sh %s/o.json | tail -1'" % (REPO, W))
            if r.returncode == 3:
                stats["build"] += 1
                continue
            if "28 passed, 0 failed" not in r.stdout:
                stats["tests"] += 1
                continue
            t0 = time.time()
            name = os.path.basename(path)
            got = None
            order = MAP[name].split()
            for chk in order:
                r = sh("cd %s && VERIF_SHRINK=3 VERIF_REPO=%s timeout 400 ./run.py %s --seconds %s" % (VER, REPO, chk, os.environ.get("SECS", "10")))
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    got = chk
                    break
                if r.returncode not in (0, 1):
                    log.write("?? %s rc=%d %s\n" % (chk, r.returncode, r.stdout[-300:]))
            stats["caught" if got else "survived"] += 1
            msg = "%s %s:%d %s\n  - %s\n  + %s\n" % (got or "SURVIVED", path, i + 1, op, "\n    ".join(x.strip() for x in old), "\n    ".join(x.strip() for x in new))
            log.write(msg)
            log.flush()
            if not got:
                open(W + "/survivors.txt", "a").write(msg)
            print(done, stats, "%.0f" % (time.time() - t0), flush=True)
        finally:
            open(full, "w", newline="").write(orig)
    print(stats)


main()
