"""Text that is not a declaration: comments, preprocessor lines, blocks."""
import re
from hypothesis import strategies as st

FRAG = ["x", " ", "int zz(void);", "/", "*", "//", "/*", "\"", "'", "don't", "#define Q 1", "%option line", "%option",
        "{", "}", ";", "=", ",", "(", ")", "[", "]", "\\", "\\n", "\\\\", "@", "$", "%%symbol%%", "\t", "\u00e9\u20ac",
        "struct s {", "typedef int t;", "extern", "...", "TranslationUnitDecl 0x55", "\f", "\v", "?", ":", "a\\ b",
        "int yy[3];", "***", "**/ x", "gdo_", "&", "1.5e-3", "<a.h>", "\x7f", "0"]
FRAG_NL = FRAG + ["\n", "\n", "\n\n", "\n#if 0\n", "\n%option no-date\n", "\\\n", "\n//x\n"]

SPLICES = ["\\\n", "\\ \n", "\\\t\n"]


@st.composite
def c_comment(draw):
    body = "".join(draw(st.lists(st.sampled_from(FRAG_NL), max_size=8)))
    body = re.sub(r"\*((\\[ \t\f\v]*\n)*)/", r"* \1 /", body)
    # a body beginning with splice+'/' would read "/*\<nl>/": fine, not closed; ending with '*' is fine
    op = draw(st.sampled_from(["/*"] * 6 + ["/\\\n*"]))
    cl = draw(st.sampled_from(["*/"] * 6 + ["*\\\n/"]))
    if body.endswith("\\") :
        body += " ."
    return op + body + cl


@st.composite
def line_comment(draw):
    parts = draw(st.lists(st.sampled_from(FRAG + SPLICES), max_size=8))
    body = "".join(parts)
    if re.search(r"\\[ \t\f\v]*$", body):
        body += "x"
    op = draw(st.sampled_from(["//"] * 6 + ["/\\\n/"]))
    return op + body + "\n"


PP_WORDS = ["define", "include", "ifdef", "if", "endif", "pragma", "error", "undef", "line", "else", " ", ""]
PP_FRAG = ["X", " ", "foo(a,b)", "a##b", "#a", "<stdio.h>", "1", "+", "-", ";", "{", "}", "int pp(void);", "=", "(", ")",
           "[", "!defined", "&&", "\\ x", "%", "@", "\t", "\u00fc", "int", "struct", "typedef", "a.b", "...", "0x1F", "?:"]
PP_LIT = ["\"abc\"", "\"/*\"", "\"//\"", "\"\\\"/*\"", "\"\\\\\"", "'x'", "'\"'", "'\\''", "\"it's\"", "\"\"", "'/*'", "\"a;b\"",
          "\"x\\\ny\"", "L\"w\""]


@st.composite
def preproc(draw):
    out = [draw(st.sampled_from(["", " ", "\t", "  "])), "#", draw(st.sampled_from(["", " "])), draw(st.sampled_from(PP_WORDS)), " "]
    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.integers(0, 9))
        if k < 5:
            out.append(draw(st.sampled_from(PP_FRAG)))
        elif k < 7:
            out.append(draw(st.sampled_from(PP_LIT)))
        elif k == 7:
            out.append(draw(st.sampled_from(SPLICES)))
        else:
            out.append(draw(c_comment()))
        out.append(draw(st.sampled_from([" ", " ", ""])) if k != 7 else "")
    s = "".join(out)
    end = draw(st.integers(0, 5))
    if end == 0:
        return "\n" + s + draw(line_comment())
    if end == 1:
        s += draw(st.sampled_from([" don't", " it's", " \"open"]))
    if re.search(r"\\[ \t\f\v]*$", s):
        s += "x"
    # '/' directly in front of a comment or slash would change the meaning
    return "\n" + s + "\n"


BLOCK_ITEMS = ["int a;", "char *b[3];", "struct { int c; } d;", "union { float f; long g; };", "enum { A, B = 2, C } e;",
               "void (*cb)(int, ...);", "const struct q *p;", ";", "A, B, C = 3", "unsigned x;", "typedef int foo;", "extern"]


@st.composite
def block(draw):
    """struct/union/enum/typedef statements which declare no symbol"""
    k = draw(st.integers(0, 7))
    inner = []
    for _ in range(draw(st.integers(0, 4))):
        inner.append(draw(st.sampled_from(BLOCK_ITEMS)))
        j = draw(st.integers(0, 6))
        if j == 0:
            inner.append(draw(c_comment()))
        elif j == 1:
            inner.append(draw(line_comment()))
        elif j == 2:
            inner.append(draw(preproc()))
        else:
            inner.append(draw(st.sampled_from([" ", "\n", ""])))
    body = " ".join(inner)
    # aggregates within aggregates
    for i in range(draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5]))):
        kw, ob = draw(st.sampled_from([("struct", "n%d" % i), ("union", "n%d" % i), ("struct", ""), ("enum", "n%d" % i), ("struct tag", "*n%d[2]" % i)]))
        if kw == "enum":
            body = "enum { A%d, B%d } %s; %s" % (i, i, ob, body)
        elif draw(st.booleans()):
            body = "%s { %s } %s; int z%d;" % (kw, body, ob, i)
        else:
            body = "char z%d; %s {\n%s\n} %s;" % (i, kw, body, ob)
    tag = draw(st.sampled_from(["", "foo", "s_1", "int_x"]))
    if k == 0:
        return "struct %s;" % (tag or "s")
    if k == 1:
        return "typedef %s;" % draw(st.sampled_from(["int foo_t", "struct foo foo_t", "void (*cb_t)(int, char *)", "int arr_t[4]",
                                                      "enum e e_t", "unsigned long long u64"]))
    if k in (2, 3):
        return "typedef %s %s { %s } %s;" % (draw(st.sampled_from(["struct", "union", "enum"])), tag, body, tag + "_t")
    return "%s %s\n{ %s } %s;" % (draw(st.sampled_from(["struct", "union", "enum", "extern struct"])), tag, body,
                                  draw(st.sampled_from(["", "", "var", "*ptr", "arr[2]"])))


@st.composite
def noise(draw):
    """[kind, anywhere?, text]"""
    k = draw(st.integers(0, 9))
    if k < 3:
        return ["c comment", True, draw(c_comment())]
    if k < 5:
        return ["line comment", True, draw(line_comment())]
    if k < 7:
        return ["preprocessor line", True, draw(preproc())]
    if k == 7:
        return ["white space", True, draw(st.sampled_from([" ", "\n", "\t", "\f", "\v", "\n\n\n", " \t \n"]))]
    if k == 8:
        return ["empty statement", False, draw(st.sampled_from([";", ";;", " ; "]))]
    return ["block", False, draw(block())]


def insert(token_lists, pieces, glue):
    """token_lists: one list per declaration (with the final ';'); pieces: [[pos, kind, anywhere, text]]
    glue: list of 0/1 deciding whether blanks stand around a piece"""
    gaps, bounds = {}, []
    toks, n = [], 0
    bounds.append(0)
    for tl in token_lists:
        toks += tl
        bounds.append(len(toks))
    for pos, kind, anywhere, text in pieces:
        g = pos % (len(toks) + 1) if anywhere else bounds[pos % len(bounds)]
        gaps.setdefault(g, []).append(text)
    out, gi = [], 0
    for i in range(len(toks) + 1):
        if i in gaps:
            for text in gaps[i]:
                gl = glue[gi % len(glue)] if glue else 1
                gi += 1
                if not out and text.startswith("\n"):
                    text = text[1:]
                # a piece that is only spliced or blank does not separate by itself
                out.append(" " if gl and out and not text.startswith("\n") else "")
                out.append(text)
            ws = all(t.strip(" \t\n\f\v") == "" for t in gaps[i])
            out.append("" if (gaps[i][-1][-1] in "/\n;" and glue and glue[gi % len(glue)] == 0 and not ws) else " ")
        elif i and i < len(toks):
            out.append(" ")
        if i < len(toks):
            out.append(toks[i])
    return "".join(out)
