"""C18: opt-out comments apply to their string only."""
from harness.files import *

# strings: (text, kind); kinds: s the SQL is to be changed and invalid, c to be changed, i invalid, o in order, n no SQL, f an f-string, e cannot be parsed
STRINGS = [
    ("'select @, 1 from @ limit -1'", "s"),
    ("'select @ from @'", "c"),
    ('"""\nSELECT 1\nLIMIT \'x\'\n"""', "i"),
    ("'SELECT 1'", "o"),
    ("'@'", "n"),
    ('f"select @ from @"', "f"),
    ("'select @ from'", "e"),
    ("'''\n  select @\n  from @ where 1\n'''", "s"),
    ("'SELECT @'", "i"),
    ('"# nosqlformat nosqlvalidation"', "n"),
]
COMMENTS = ["# @", "# nosqlformat", "#nosqlvalidation", "# @ nosqlvalidation, nosqlformat @", "# nosql format", "# NOSQLFORMAT", "#nosqlformat:nosqlvalidation", "#"]
# how the strings and comments follow one another: digits strings, letters comments
SHAPES = [
    "0", "0a", "0\na", "0\n\n\n  a\n", "a\n0", "0 ;1a", "0a\n1b", "0\n1a", "0\na\n1", "0a\nb\n1", "f(0, 1)a", "f(0,a\n  1)b", "f(\n a\n 0,\n 1)\nx = 2 b", "x = 0 1a", "x = (0 a\n  1 b\n 2)", "0\n1\n2a", "0a\n1\n2b",
    "def f(x):\n    y = 0 % x\n    a\n    return 1.g()\nb", "x = 0\nif x:\n    a\n    pass\nelse:\n    y = 1 b", "0\nx = [3, 4]  a\ny = 1", "0a\nb\nc\n1",
]


def fill(ctx, text):
    out = ""
    for i, p in enumerate(text.split("@")):
        out = out + (ctx.word(1, 9, 0) if i else "") + p
    return out


SHAPES = [s.replace("def f", "D").replace("pass", "P").replace("else", "E").replace("return", "R") for s in SHAPES]
FULL = {"D": "def f", "P": "pass", "E": "else", "R": "return"}


def pieces(shape):
    """(kind, number or text)."""
    out = []
    for c in shape:
        if c in "012":
            out.append(("s", int(c)))
        elif c in "abc":
            out.append(("c", "abc".index(c)))
        else:
            out.append(("t", FULL.get(c, c)))
    return out


def h(ctx, case):
    shape, option, few = case
    parts = pieces(SHAPES[shape])
    strings = {}
    comments = {}
    ns = len([1 for k, n in parts if k == "s"])
    for k, n in parts:
        if k == "s":
            strings[n] = ctx.pick(STRINGS if ns == 1 else STRINGS[:8] if ns == 2 and not few else [STRINGS[0], STRINGS[4], STRINGS[5], STRINGS[7]] if ns == 2 else [STRINGS[0], STRINGS[4], STRINGS[5]])
        if k == "c":
            comments[n] = ctx.pick(COMMENTS if not few else COMMENTS[:4])
    text = ""
    items = []
    for k, n in parts:
        if k == "s":
            t = fill(ctx, strings[n][0])
            row = 1 + len([c for c in cells(text) if char(c) and c == "\n"])
            items.append((strings[n][1], t, row))
        elif k == "c":
            t = fill(ctx, comments[n])
            items.append(("#", comments[n], 0))
        else:
            t = n
            items.append(("", t, 0))
        text = text + t
    w = world(ctx)
    w.file("a.py", text)
    check_model(ctx, w, text)
    r = run(ctx, w, option + ["a.py"])
    ctx.require(r.error is None, ["an exception escaped", r.error, text])
    ctx.require("error analysing" not in r.out and "could not analyse" not in r.out, ["not analysed", r.out, text])
    new = w.read("a.py")
    ctx.observe("new", new)
    ctx.observe("out", r.out)
    cs = cells(new)
    i = 0
    changed = 0
    invalid = []
    for j, (kind, t, row) in enumerate(items):
        comment = ""
        if kind in "sciofne" and kind:
            for k2, t2, _ in items[j + 1 :]:
                if k2 == "#":
                    comment = t2
                    break
                if k2:
                    break
        if kind in ("s", "c", "i", "o", "e"):
            if kind in ("s", "c") and "nosqlformat" not in comment:
                changed += 1
            if kind in ("s", "i", "e") and "nosqlvalidation" not in comment:
                invalid.append(row)
            e = literal_end(cs, i)
            ctx.require(e > 0, ["no string any more", t, text, new])
            if "--format" in option:
                if kind in ("s", "c") and "nosqlformat" not in comment:
                    ctx.require("".join(cs[i:e]) != t, ["not rewritten", t, text, new])
                else:
                    ctx.require("".join(cs[i:e]) == t, ["rewritten", t, text, new])
            i = e
        elif kind == "#":
            i += comment_length(cs, i)
        else:
            i += len(cells(t))
    if "--format" in option:
        said(ctx, "reformatted a.py (", changed, r.out, text)
    elif "--check-format" in option:
        said(ctx, "would reformat a.py (", changed, r.out, text)
    if "--validate" in option or "--verbose-validate" in option:
        line = "invalid queries in a.py (" + str(len(invalid)) + " invalid SQL)\n"
        ctx.require((line in r.out) if invalid else "invalid queries in" not in r.out, ["number of invalid queries", invalid, r.out, text])
    if "--verbose-validate" in option:
        rows = []
        for l in lines_of(r.out):
            if l.startswith("L"):
                rows.append(l[1 : l.index(" - ")])
        ctx.require(rows == [str(x) for x in invalid], ["lines of invalid queries", invalid, r.out, text])
    if "--format" not in option:
        ctx.require(new == text, ["written without --format", text, new])


def said(ctx, start, n, out, text):
    line = start + str(n) + " changed SQL)\n"
    ctx.require((line in out) if n else "changed SQL)" not in out, ["number of changed queries", n, out, text])


def comment_length(cs, i):
    j = i
    while j < len(cs) and not (char(cs[j]) and cs[j] == "\n"):
        j += 1
    return j - i


OPTIONS = [["--format", "--verbose-validate"], ["--format"], ["--check-format", "--validate"], ["--validate"], ["--check-format"], ["--verbose-validate"], ["--format", "--validate"], ["--check-format", "--verbose-validate"]]


def cases(quick):
    out = []
    for s in range(len(SHAPES)):
        out.append([s, OPTIONS[0], 1 if quick else 0])
        out.append([s, OPTIONS[2], 1 if quick else 0])
        if s in (1, 6) or not quick:
            out += [[s, o, 0 if s == 1 else 1] for o in OPTIONS[1:2] + OPTIONS[3:]]
    return out
