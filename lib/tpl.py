"""Template directories: the files behind each output format, marked copies whose lines tell where they
come from, an interpreter for #line directives."""
import os, re, shutil
from core import SRC

FORMATS = {"c": ("c.h", "c.c"), "c++": ("cxx.hpp", "cxx.cpp"), "plugin": ("plugin.h", "plugin.c"), "minimal": ("minimal.h",), "minimal-c++": ("minimal_cxxeh.hpp",)}


def files():
    """template file names, as listed in list.h"""
    t = open(SRC + "/list.h").read() if os.path.exists(SRC + "/list.h") else open(SRC + "/templates/list.h").read()
    return re.findall(r"^TEMPLATE\(([^,]+),", t, re.M)


def used(fmt):
    l = ["license.h", "filename_macros.h"]
    if fmt in ("c", "c++", "plugin"):
        l += ["common.h", "common.c"]
    return l + list(FORMATS[fmt])


def order(fmt, part):
    """the order of template files in the header ('h', separate), the body ('b') or the single file ('s')"""
    f = FORMATS[fmt]
    if len(f) == 1:
        return ["license.h", "filename_macros.h", f[0]]
    if part == "s":
        return ["license.h", "filename_macros.h", "common.h", "common.c", f[0], f[1]]
    if part == "h":
        return ["license.h", "filename_macros.h", "common.h", f[0]]
    return ["license.h", "common.c", f[1]]


MARK = re.compile(rb"~([A-Za-z_.+]+):(\d+)~")
SKIPLINE = re.compile(rb"^%PARAM_SKIP_(REMOVE_BEGIN|USE_BEGIN|END)%\r?$")


LITERAL = ("license.h", "filename_macros.h")  # copied without looking for placeholders


def mark(data, name, blanks=True, fmt="~%s:%d~", first=1):
    """append a marker to every line of a template, except keyword lines"""
    out = []
    parts = data.split(b"\n")
    last = len(parts) - 1
    for i, l in enumerate(parts):
        if i == last and l == b"":
            out.append(l)
            continue
        m = (fmt % (name, i + first)).encode()
        cr = b"\r" if l.endswith(b"\r") and i < last else b""
        if cr:
            l = l[:-1]
        if (SKIPLINE.match(l) and name not in LITERAL) or (l == b"" and not blanks):
            pass
        elif l.endswith(b"@"):
            l = l[:-1] + b" " + m + b"@"
        elif l.endswith(b"\\"):
            l = l[:-1] + b" " + m + b" \\"
        else:
            l = l + b" " + m
        out.append(l + cr)
    return b"\n".join(out)


def marked_dir(dst, blanks=True):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for f in files():
        with open(SRC + "/templates/" + f, "rb") as h:
            data = h.read()
        with open(os.path.join(dst, f), "wb") as h:
            h.write(mark(data, f, blanks))


LINE = re.compile(rb'^#line (\d+)(?: "((?:[^"\\]|\\.)*)")?$')


def unescape(b):
    return re.sub(rb"\\(.)", rb"\1", b, flags=re.S)


def attribute(data):
    """-> [(physical line number, text, file or None, line number)] of the lines that are no #line directives"""
    res = []
    name, no = None, 1
    lines = data.split(b"\n")
    if lines and lines[-1] == b"":
        lines.pop()
    for i, l in enumerate(lines):
        m = LINE.match(l)
        if m:
            no = int(m.group(1))
            if m.group(2) is not None:
                name = unescape(m.group(2))
        else:
            res.append((i + 1, l, name, no))
            no += 1
    return res


def strip(data):
    """the text without its #line directives"""
    return b"\n".join(l for l in data.split(b"\n") if not LINE.match(l))
