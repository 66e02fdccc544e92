"""C17: nothing but SELECT string literals of a file is rewritten."""
from harness.files import *

# kinds of strings: (prefix and opening quote, text, closing quote, whether it is a SELECT statement); @ a name
SELECTS = [
    ("'", "select @", "'"),
    ('"', "SELECT @", '"'),
    ("'", "select @ from @", "'"),
    ('"""', "\n  Select @,\n  @ from  @\n", '"""'),
    ("r'''", "select @ from @ where @ = 'x' ", "'''"),
    ("'''", "\nSELECT @\nFROM @\n", "'''"),
    ('"', "select @ from", '"'),
    ('b"', "select @, from @ limit 1;", '"'),
]
OTHERS = [("'", "@", "'"), ('"', "selected @", '"'), ('"""', "\n  @ select @ \n", '"""'), ("'", "", "'"), ("'''", "(select  @)", "'''"), ("R'", "x\tselect @", "'"), ('"', "# nosqlformat", '"'), ("f'", "select @ from @", "'")]
# 0 1 2: strings; # a comment or nothing
TEMPLATES = [
    "x = 0\n",
    "0",
    "x = [0,\n    1 ]  #\n",
    "def f(a):\n    0\n    return 0#\n\n\ny = f(1)\n",
    "x = 0 1\n",
    "x = (0\n     #\n     1)\n",
    "f( 0 ,1)#\n  \n#\n",
    "if  a :\n\tx=0 ; y = 1\nelse:\n\tz = 0.format(1)#\n",
    "x = \\\n    0 + \\\n  1\n",
    "\n\n#\nclass A:\n    a = 0\n\n    def b(self):  #\n        return  1  \n\n  #\nprint(0)",
    "x = {'k': 0, 0: 1}\t#\n",
    "x = 0 % ( a,b )#\r\ny\t=\t1\r\n",
    "x = 0if 1 else 2#\n",
    "@(0)\ndef f(x = 1) -> 'y': #\n    pass\n",
]
COMMENTS = ["", "# @", "# nosqlformat", "#nosqlvalidation @"]


def fill(ctx, text):
    out = ""
    for i, p in enumerate(text.split("@")):
        out = out + (ctx.word(1, 9, 0) if i else "") + p
    return out


def program(ctx, template, strings):
    """Segments of a file: (text, whether it is a SELECT string)."""
    out = [("", False)]
    for c in template:
        if c in "012":
            (a, b, e), sql = strings[int(c)]
            out.append((a + fill(ctx, b) + e, sql))
        elif c == "#":
            comment = ctx.pick(COMMENTS)
            out.append((" " + fill(ctx, comment) if comment else "", False))
        elif c == "@":
            out.append(("@", False))
        else:
            out.append((c, False))
    return out


def h(ctx, case):
    template, option = case
    t = TEMPLATES[template]
    strings = []
    for k in "012":
        if k not in t:
            strings.append(None)
            continue
        few = "1" in t
        if ctx.flag():
            strings.append((ctx.pick(SELECTS[:6] if few else SELECTS), True))
        else:
            strings.append((ctx.pick(OTHERS[:4] if few else OTHERS), False))
    parts = program(ctx, t, strings)
    if "\r" in t:
        parts = [(p if "\r" in p else p.replace("\n", "\r\n"), sql) for p, sql in parts if p != "\r"]
    look(ctx, parts, option)


def look(ctx, parts, option):
    text = "".join([p for p, _ in parts])
    w = world(ctx)
    w.file("a.py", text)
    check_model(ctx, w, text.replace("\r\n", "\n"))
    r = run(ctx, w, option + ["a.py"])
    ctx.require(r.error is None, ["an exception escaped", r.error, text])
    ctx.require("error analysing" not in r.out and "could not analyse" not in r.out, ["not analysed", r.out, text])
    new = w.read("a.py")
    ctx.observe("new", new)
    ctx.observe("out", r.out)
    # everything but the SELECT strings is where it was
    cs = cells(new)
    i = 0
    changed = 0
    for p, sql in parts:
        n = len(cells(p))
        if not sql:
            ctx.require("".join(cs[i : i + n]) == p, ["changed though it is no SELECT string", p, text, new])
            i += n
            continue
        j = literal_end(cs, i)
        ctx.require(j > 0, ["no string any more", p, text, new])
        if "".join(cs[i:j]) != p:
            changed += 1
        i = j
    ctx.require(i == len(cs), ["something follows", text, new])
    if "--format" in option:
        said = "reformatted a.py (" + str(changed) + " changed SQL)\n"
        ctx.require((said in r.out) if changed else "changed SQL)" not in r.out, ["number of changed queries", changed, r.out, text])
    else:
        ctx.require(changed == 0, ["written without --format", text, new])


def cases(quick):
    out = [[t, ["--format"]] for t in range(len(TEMPLATES))]
    out += [[t, o] for t in (range(len(TEMPLATES)) if not quick else (0, 2, 4)) for o in (["--check-format", "--verbose-validate"], ["--validate", "--format"])]
    return out
