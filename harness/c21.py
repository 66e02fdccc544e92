"""C21: exit status, counts and writes match the requested action."""
from harness.files import *

# one file: (text with @ for names, number of queries to change, number of invalid ones)
FILES = [
    ("x = 0\n", 0, 0),
    ("x = 'select @ from @'\n", 1, 0),
    ("x = 'SELECT 1'  # @\n", 0, 0),
    ("x = 'SELECT 1 LIMIT @'\n", 1, 1),
    ("x = '''\nSELECT 1\nLIMIT -1\n'''\n", 0, 1),
    ("x = 'select @ from'\ny = 'select @ from @'\n", 1, 1),
    ("f('select @ from @', 'select 1 where 2',\n   'SELECT 2')\n", 2, 1),
    ("x = 'select @ limit -1'  # nosqlformat\ny = 'select @ offset @'  # nosqlvalidation\n", 1, 1),
    ("", 0, 0),
    ("x = ['select 1 limit @', 'select 1 limit -1', 'SELECT 1 where 1', 'select @ from @', 'SELECT 1', 'select']", 4, 3),
]
FORMATS = [[], ["--check-format"], ["--format"]]
VALIDATES = [[], ["--validate"], ["--verbose-validate"]]


def fill(ctx, text):
    out = ""
    for i, p in enumerate(text.split("@")):
        out = out + (ctx.word(1, 9, 0) if i else "") + p
    return out


def number(out, start, end):
    """Numbers in the lines which start and end this way."""
    return [int(l[len(start) : len(l) - len(end)]) for l in lines_of(out) if l.startswith(start) and l.endswith(end) and l[len(start) : len(l) - len(end)].isdigit()]


def h(ctx, case):
    n, form, val, how = case
    few = n > 2
    w = world(ctx)
    names = ["a.py", "b.py", "d/c.py", "d/e.py"][:n]
    texts = []
    counts = []
    for name in names:
        text, changes, invalid = ctx.pick(FILES[1:7:2] + FILES[8:9] if few else FILES)
        text = fill(ctx, text)
        texts.append(text)
        counts.append((changes, invalid))
        w.file(name, text)
        check_model(ctx, w, text)
    options = form + val
    inputs = names if how == 0 else ["."] if how == 1 else [names[0], ".", names[-1]]
    argv = options + inputs if how != 2 else inputs + options
    r = run(ctx, w, argv)
    if how == 0:
        ctx.observe("out", r.out)
    ctx.observe("status", r.status)
    ctx.require(r.error is None, ["an exception escaped", r.error, texts])
    if not options:
        ctx.require(r.status == 2, ["exit status without an action", r.status])
        for name, text in zip(names, texts):
            ctx.require(not w.written(name), ["written without --format", name])
        return
    changes = sum([c for c, _ in counts])
    invalid = sum([v for _, v in counts])
    status = 0
    if form == ["--check-format"] and changes:
        status = 1
    if val == ["--validate"] and invalid:
        status = 1
    if val == ["--verbose-validate"]:
        # the same as without validation
        pass
    ctx.require(r.status == status, ["exit status", r.status, status, argv, texts, r.out])
    for name, text, (c, _) in zip(names, texts, counts):
        new = w.read(name)
        ctx.require(w.written(name) == (form == ["--format"] and c > 0), ["written or not", name, argv, texts, r.out])
        if form == ["--format"] and c > 0:
            ctx.require(new != text, ["not rewritten", name, texts])
        else:
            ctx.require(new == text, ["changed", name, argv, texts])
        ctx.observe("new", new)
    # summary
    files = len([c for c, _ in counts if c])
    bad = len([v for _, v in counts if v])
    done = "would be reformatted" if form == ["--check-format"] else "reformatted"
    lines = lines_of(r.out)
    if form:
        if changes:
            want = str(files) + (" files " if files > 1 else " file ") + done + " (" + str(changes) + " changed SQL queries)."
        else:
            want = "No file " + done + "."
        ctx.require(want in lines, ["summary of changes", want, r.out, texts])
    else:
        ctx.require("changed SQL" not in r.out, ["a summary nobody asked for", r.out])
    if val == ["--validate"]:
        if invalid:
            want = str(bad) + (" files" if bad > 1 else " file") + " detected with invalid SQL (" + str(invalid) + (" invalid SQL queries)." if invalid > 1 else " invalid SQL query).")
        else:
            want = "No invalid queries found."
        ctx.require(want in lines, ["summary of invalid queries", want, r.out, texts])
    elif not val:
        ctx.require("invalid SQL" not in r.out and "invalid queries" not in r.out, ["a summary nobody asked for", r.out])


def cases(quick):
    out = []
    for f in FORMATS:
        for v in VALIDATES:
            for n in (1, 2) if quick else (1, 2, 3):
                for how in (0, 1, 2):
                    out.append([n, f, v, how])
            if f or v:
                out.append([3 if quick else 4, f, v, 1])
    return out


USAGE = [
    ["--check-format", "--format"], ["--format", "--check-format"], ["--validate", "--verbose-validate"], ["--verbose-validate", "--validate"], ["--check-format", "--format", "--validate"],
    ["--format", "--validate", "--verbose-validate"], ["--format", "--validate", "--check-format"], ["--format", "--no-such-option"], ["--format", "--validate=x"], ["--format", "--verbose-validate", "--check-format"], [],
]


def usage(ctx, case):
    """Nothing is analysed without an action, with conflicting ones, or without an input."""
    options, how = case
    w = world(ctx)
    texts = []
    for name in ("a.py", "d/b.py"):
        text = fill(ctx, ctx.pick(["x = 'select @ from @ limit -1'\n", "x = 'SELECT 1'\n"]))
        w.file(name, text)
        texts.append(text)
    argv = options + ["a.py", "d"] if how == 0 else ["a.py"] + options + ["d"] if how == 1 else ["a.py", "d"] + options if how == 2 else options or ["--format"]
    r = run(ctx, w, argv)
    ctx.observe("status", r.status)
    ctx.require(r.error is None, ["an exception escaped", r.error, argv])
    ctx.require(r.status == 2, ["exit status", r.status, argv])
    ctx.require(r.out == "", ["something was analysed", r.out, argv])
    for name, text in zip(("a.py", "d/b.py"), texts):
        ctx.require(not w.written(name) and w.read(name) == text, ["written", name, argv])


def cases_usage(quick):
    return [[o, how] for o in USAGE for how in range(4)]
