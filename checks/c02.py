"""C02: comments, preprocessor lines, blocks, white space, BOM and line endings change nothing."""
from hypothesis import strategies as st
from core import Violation, Result
import decl as D
import noise as N

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "metamorphic property-based testing: comments, preprocessor lines and code blocks spliced into generated inputs must not change the result"
LEVEL_NOTE = 'Splices use supported characters and blocks that declare no symbol; the result is compared with that of the model and of the unspliced input.'
RULE = ("A case is a list of declarations, written once plainly and once with up to 12 generated pieces of non-declaration text "
        "(C and line comments with hostile bodies and splices, preprocessor lines with literals, comments and continuations, "
        "struct/union/enum/typedef blocks, empty statements, white space) inserted between arbitrary tokens, optionally with a "
        "byte order mark and LF, CRLF or mixed line endings. The tool must report the same for both, equal to the declaration "
        "model. Non-trivial: at least one inserted comment, preprocessor line or block.")
ASSUMPTIONS = ["blocks use only characters the documentation allows and declare no symbol of their own",
               "a splice between two tokens of a declaration (outside comments, preprocessor and %option lines) is refused loudly by the tool and not generated"]
BUDGET = {"quick": (900, 30), "thorough": (20000, 1200)}


def prepare(env):
    env.use_gendlopen()


@st.composite
def strategy_(draw):
    cfg = D.text_cfg()
    ds = draw(D.decls(cfg, 1, 4))
    mode = draw(st.sampled_from(["read", "skip", "create"]))
    pieces = [[draw(st.integers(0, 200))] + draw(N.noise()) for _ in range(draw(st.integers(1, 12)))]
    glue = draw(st.lists(st.integers(0, 1), max_size=6))
    return dict(ds=ds, mode=mode, pieces=pieces, glue=glue, bom=draw(st.booleans()), eol=draw(st.sampled_from(["lf", "lf", "crlf", "mixed"])),
                tail=draw(st.booleans()))


def strategy(env):
    return strategy_()


def build(case):
    ds = case["ds"]
    tls = [D.decl_tokens(d) + [";"] for d in ds]
    text = N.insert(tls, case["pieces"], case["glue"])
    if case.get("tail"):
        text += "\n"
    if case["eol"] == "crlf":
        text = text.replace("\n", "\r\n")
    elif case["eol"] == "mixed":
        parts = text.split("\n")
        text = "".join(p + (("\r\n" if i % 2 else "\n") if i + 1 < len(parts) else "") for i, p in enumerate(parts))
    data = text.encode("utf-8")
    if case["bom"]:
        data = b"\xef\xbb\xbf" + data
    return data


def explicit(env):
    f = dict(k="func", n="foo", ext=False, par=0, t=["int"], p=[dict(k="obj", t=["int"], n="a")], pp=0, whole=0)
    g = dict(k="obj", n="bar", ext=False, par=0, t=["char", "*"])
    base = dict(ds=[f, g], mode="read", glue=[], bom=False, eol="lf", tail=True)
    for eol in ("lf", "crlf"):
        for bom in (False, True):
            for text in ["// x \\\n\n", "\n#define A \\\n\n", "\n#define A /* \n */ int x;\n", "\n#define S \"/*\"\n", "\n#define S '\"' /* \" */\n",
                         "\n#define A /\\\n* x *\\\n/ int y;\n", "/*/ x */", "/***/", "/*\\\n/*/", "\n#error don't\n", "/" + "*" + "x" * 20000 + "*/",
                         "//" + "y" * 40000 + "\n", "\n#define " + "z" * 70000 + "\n", "/*" + "\n" * 5000 + "*/", "\n" * 3000,
                         "struct s { " + "int a;\n" * 4000 + "};", "/*" + "*" * 9000 + "/"]:
                anywhere = not text.startswith("struct")
                for pos in (0, 1, 5, 8):
                    yield dict(base, pieces=[[pos, "explicit", anywhere, text]], eol=eol, bom=bom)


def check(env, case):
    ds, mode = case["ds"], case["mode"]
    data = build(case)
    want = D.meaning(ds, mode, True)
    if mode == "create":
        # named parameters get another name appended: compare with the plain text only
        want = None
    opts = [] if mode == "read" else ["-param=" + mode]
    plain = D.render(ds).encode("latin-1")
    ref = D.observe(env, plain, opts)
    if mode == "create" and not isinstance(ref, tuple):
        opts, want = [], D.meaning(ds, "read", True)
        ref = D.observe(env, plain, opts)
    if not isinstance(ref, tuple):
        raise Violation("plain input refused\n%r" % ref)
    got = D.observe(env, data, opts)
    if not isinstance(got, tuple):
        raise Violation("input with inserted text was refused\n%r\n%r" % (data[:3000], got))
    d = D.diff_meaning(got, want if want is not None else ref)
    if d:
        raise Violation("inserted text changes the result\n%s\n%r" % (d, data[:3000]))
    labels = set(p[1] for p in case["pieces"]) | {"eol=" + case["eol"]}
    if case["bom"]:
        labels.add("bom")
    nt = bool(labels & {"c comment", "line comment", "preprocessor line", "block", "explicit"})
    return Result(sorted(labels), nt, sample=dict(input=data[:500].decode("utf-8", "replace"), mode=mode))
