"""C22: every Python file is analysed once, whatever happens to others."""
from harness.files import *

# files of the tree
PY = ["a.py", "d/b.py", "d/sub/c.py", "d/.e.py", "d/sub.py/f.py"]
OTHER = ["d/n.txt", "d/m.pyc", "d/py", "d/sub/o.py.bak", "d/p.PY~", "q"]
INPUTS = ["a.py", "./a.py", "%ROOT%/a.py", "d", "d/", "./d", "d/sub", ".", "d/b.py", "d/../d/b.py", "d//sub/c.py", "%ROOT%/d", "missing.py", "d/missing", "d/sub.py"]
BAD = ["", "syntax", "garbage", "dangling", "unreadable", "unwritable", "deep", "too deep"]


def below(path, inp):
    """Whether the input leads to the file."""
    p = inp.replace("%ROOT%/", "").replace("d/../", "").replace("//", "/")
    if p.startswith("./"):
        p = p[2:]
    if p.endswith("/"):
        p = p[: len(p) - 1]
    return p == "." or p == path or path.startswith(p + "/")


def missing(inp):
    return "missing" in inp


def h(ctx, case):
    inputs, bad, where, form = case
    if inputs is None:
        inputs = [ctx.pick(INPUTS) for _ in range(2)]
    w = world(ctx)
    texts = {}
    for p in PY:
        if p == where and bad:
            if bad == "garbage":
                w.file(p, "x = 0\n")
                w.garbage(p)
                w.settle()
                continue
            if bad == "dangling":
                w.mkdir("/".join(p.split("/")[:-1]) or ".")
                w.dangling(p)
                continue
            if bad == "syntax":
                text = "x = (\ny = 'select " + ctx.word(1, 9, 0) + "'\n"
            elif bad == "too deep":
                # beyond the recursion limit of Python
                ctx.steps(10)
                text = "x = 'select a'\ny = 'select " + "(" * 450 + "b" + ")" * 450 + "'\n"
            elif bad == "deep":
                text = "x = 'select a'\ny = 'select " + "f(" * 40 + ctx.word(1, 9, 0) + ")" * 40 + "'\n"
            else:
                text = "x = 'select " + ctx.word(1, 9, 0) + " limit -1'\n"
                w.fault(p, "r" if bad == "unreadable" else "w")
        else:
            text = "x = 'select " + ctx.word(1, 9, 0) + " limit -1'  # " + ctx.word(1, 9, 0) + "\n"
        texts[p] = text
        w.file(p, text)
    for p in OTHER:
        texts[p] = "x = 'select " + ctx.word(1, 9, 0) + " limit -1'\n"
        w.file(p, texts[p])
    w.mkdir("d/empty")
    before = w.listing()
    argv = (["--format", "--validate"] if form else ["--check-format", "--validate"]) + inputs
    r = run(ctx, w, argv)
    ctx.require(r.error is None, ["an exception escaped", r.error, argv, bad, where])
    ctx.observe("status", r.status)
    out = lines_of(r.out)
    ctx.require(w.listing() == before, ["files came or went", w.listing(), before])
    changed = 0
    invalid = 0
    start = "reformatted " if form else "would reformat "
    for p in PY:
        reached = len([i for i in inputs if below(p, i)]) > 0
        broken = p == where and bad not in ("", "deep")
        said = [l for l in out if l.startswith(start) and leads(l[len(start) :], p)]
        inval = [l for l in out if l.startswith("invalid queries in ") and leads(l[len("invalid queries in ") :], p)]
        fails = [l for l in out if (l.startswith("error analysing ") and leads(l[len("error analysing ") :], p)) or (l.startswith("could not analyse ") and leads(l[len("could not analyse ") :], p))]
        if p == where and bad == "unwritable" and not form:
            broken = False
        if reached and not broken:
            ctx.require(len(said) == 1, ["analysed once", p, argv, bad, where, r.out])
            ctx.require(len(fails) == 0, ["could not be analysed", p, argv, bad, where, r.out])
            changed += 2 if bad == "deep" and p == where else 1
            if not (bad == "deep" and p == where):
                ctx.require(len(inval) == 1, ["validated once", p, argv, bad, where, r.out])
                invalid += 1
            else:
                invalid += 2
        else:
            ctx.require(len(said) == 0 and len(inval) == 0, ["analysed though not asked for, or broken", p, argv, bad, where, r.out])
            ctx.require(len(fails) == 0 or reached, ["reported though not asked for", p, argv, r.out])
            if reached and not (bad == "dangling" and p in inputs):
                ctx.require(len(fails) == 1 or (bad == "dangling" and len(fails) > 0), ["failure not reported", p, argv, bad, where, r.out])
        if p in texts and not (p == where and bad == "garbage"):
            written = reached and not broken and form == 1
            ctx.require((w.read(p) != texts[p]) == written and w.written(p) == written, ["written or not", p, argv, bad, where, r.out])
    for p in OTHER:
        ctx.require(w.read(p) == texts[p] and not w.written(p), ["a file which is no Python file was written", p, argv])
    ctx.require("n.txt" not in r.out and "m.pyc" not in r.out and "d/py " not in r.out and "o.py" not in r.out and "p.PY" not in r.out, ["a file which is no Python file was analysed", argv, r.out])
    absent = len([i for i in inputs if missing(i)])
    ctx.require(len([l for l in out if "rror" in l and "nvalid input" in l]) >= (1 if absent else 0), ["a missing input is not reported", argv, r.out])
    ctx.require(r.status == (1 if (changed and not form) or invalid else 0), ["exit status", r.status, argv, bad, where, r.out])
    total = [l for l in out if l.endswith(" changed SQL queries).")]
    want = str(changed)
    ctx.require((len(total) == 1 and total[0].endswith("(" + want + " changed SQL queries).")) if changed else len(total) == 0, ["total", want, argv, bad, where, r.out])


def leads(rest, path):
    """Whether a line goes on with the path."""
    name = rest.split(" (")[0]
    p = name.replace("%ROOT%/", "").replace("d/../", "").replace("//", "/")
    if p.startswith("./"):
        p = p[2:]
    return p == path


def cases(quick):
    out = []
    firsts = INPUTS if not quick else INPUTS[:4] + ["./d", ".", "d//sub/c.py", "missing.py"]
    for a in firsts:
        for b in INPUTS:
            out.append([[a, b], "", "", 1 if not quick else len(out) % 2])
    out += [[[a], "", "", f] for a in INPUTS for f in (0, 1)]
    for bad in BAD[1:]:
        for p in PY:
            for f in (0, 1):
                for inputs in (["."], [p, "a.py"], ["d", "a.py", "."]) if quick else (["."], [p, "a.py"], ["d", "a.py", "."], ["a.py", "d/b.py", "%ROOT%"], ["./" + p, "missing.py", p], ["d/sub", "d", "a.py"]):
                    out.append([inputs, bad, p, f])
    out += [[i, "", "", f] for f in (0, 1) for i in (["a.py", "a.py", "a.py"], ["d/sub", "d", "d/sub", "d/sub/c.py"], ["missing.py", "d", "d/missing", "a.py"], ["d/sub/c.py", "d"], ["d", "d/sub/c.py", "./d/sub/c.py", "%ROOT%/d/sub/c.py"])]
    return out
