"""C23: with --verbose-validate each invalid query is listed once, with the line it starts on and its errors."""
import sqlvalidator

from harness.files import *

# before the literal, quotes, SQL (@ a name, % a number), after the literal, whether it is invalid
QUERIES = [
    ("x = ", "'", "select @ from @", "\n", 0),
    ("x = ", "'", "select @ limit -1", "\n", 1),
    ("x = f(a,\n  ", '"""', "\nselect @\nlimit -1\n", "\n)\n", 1),
    ("'''text\n@'''\nx = [", '"', "select @ from (select 1 v) where @ = 3 group by 7", "]\n", 1),
    ("# comment\n\nx = ", "'''", "select @,\n@ from @ join @", " \n", 1),
    ("x = (", '"', "select 1 where 'x' offset 1.5 limit -%", ")  # nosqlvalidation\n", 0),
    ("x = ", "'", "select @ from", "  # nosqlformat\n", 1),
    ("def f():\n    return ", 'r"', "select 1 order by %", "\n\n", 1),
    ("x = f'select y limit -1' + ", "'", 'select 1 limit "%"', " + '@'\n", 1),
    ("x = 'select 1 limit -1' ", "'", "select 2 having 3", "  # nosqlvalidation\n", -1),
    ("if x: y = '@ limit -1' \\\n  + ", '"', "SELECT 1 LIMIT ALL", "\n", 0),
    ("x = ", "'", "select w, w from (select 1 v) having w", "\n", 1),
    ("x = ", "'", "select @ limit -1", "; y = 'select 1 where 2 having 3 limit true'\n", 2),
]


def fill(ctx, text):
    out = ""
    start = 0
    for i, c in enumerate(text):
        if c == "@" or c == "%":
            out = out + text[start:i] + (ctx.word(3, 9) if c == "@" else ctx.num(2, 9999))
            start = i + 1
    return out + text[start:]


def errors(sql):
    query = sqlvalidator.parse(sql)
    query.is_valid()
    return ", ".join(query.errors)


def build(ctx, ks):
    """Text of a file, and the lines the report is to have for it."""
    text = ""
    line = 1
    report = []
    for k in ks:
        before, quotes, sql, after, bad = QUERIES[k]
        sql = fill(ctx, sql)
        before = ctx.pick(["", "\n", "\n# select @\n\n"]) + fill(ctx, before)
        after = fill(ctx, after)
        end = quotes[1:] if quotes[0] == "r" else quotes
        line += before.count("\n")
        if bad == -1:
            # the first of two literals on the line
            report.append("L" + str(line) + " - " + errors("select 1 limit -1"))
        if bad > 0:
            report.append("L" + str(line) + " - " + errors(sql))
        if bad == 2:
            report.append("L" + str(line) + " - " + errors("select 1 where 2 having 3 limit true"))
        piece = before + quotes + sql + end + after
        line += (sql + after).count("\n")
        text = text + piece
    return text, report


def h(ctx, case):
    files, form = case
    w = world(ctx)
    want = []
    names = ["a.py", "b.py", "c.py"][: len(files)]
    for name, ks in zip(names, files):
        text, report = build(ctx, ks)
        check_model(ctx, w, text)
        w.file(name, text)
        want.append((name, report))
    r = run(ctx, w, form + ["--verbose-validate"] + names)
    ctx.observe("out", r.out)
    ctx.require(r.error is None, ["an exception escaped", r.error])
    lines = lines_of(r.out)
    expected = []
    for name, report in want:
        if report:
            expected.append("invalid queries in " + name + " (" + str(len(report)) + " invalid SQL)")
            expected += report
    got = []
    for l in lines:
        if l.startswith("invalid queries in ") or l.startswith("L") and " - " in l:
            got.append(l)
        else:
            ctx.require("reformat" in l, ["a line which is no part of the report", l, r.out])
    ctx.require(len(got) == len(expected), ["another number of lines", expected, r.out, [w.read(n) for n in names]])
    for a, b in zip(got, expected):
        ctx.require(a == b, ["another line", a, b, r.out])


def cases(quick):
    out = []
    n = len(QUERIES)
    for i in range(n):
        out.append([[[i]], []])
        for j in range(n):
            out.append([[[i, j]], [[], ["--check-format"], ["--format"]][(i + j) % 3]])
            if not quick or (i + j) % 4 == 0:
                out.append([[[i, j, (i * j + 1) % n], [j]], []])
    out += [[[[1, 2, 3, 4, 6, 7]], f] for f in ([], ["--format"])] + [[[[0], [4, 5, 0, 6], [11, 1]], []], [[[10, 9], [0, 5]], ["--check-format"]]]
    if not quick:
        out += [[[[i, j, k]], []] for i in range(n) for j in range(n) for k in range(n)]
    return out
