"""C13: WHERE, HAVING, AND and OR take booleans.

Every generator returns (text, type, whether an operand of AND/OR inside of it is to be reported);
types: b boolean, n known and not boolean, u unknown."""
from harness.c10 import verdict
from harness.common import *


def word(ctx):
    return ctx.word(1, 9, "same")


LEAVES = 33


def leaf(ctx, cols, k):
    if k == 0:
        return ctx.num(0, 10**9), "n"
    if k == 1:
        return "'" + ctx.word(1, 9) + "'", "n"
    if k == 2:
        return ctx.num(0, 99) + "." + ctx.num(0, 99), "n"
    if k == 3:
        return ctx.pick(["null", "NULL"]), "n"
    if k == 4:
        return ctx.pick(["true", "FALSE"]), "b"
    if k == 5:
        return "-" + ctx.num(0, 99), "n"
    if k == 6:
        return col(ctx, cols)
    if k == 7:
        return word(ctx) + "(" + col(ctx, cols)[0] + ", " + ctx.num(0, 9) + ")", "u"
    if k == 8:
        return ctx.num(0, 9) + ctx.pick([" + ", " - ", " * ", " / ", " % "]) + col(ctx, cols)[0], "n"
    if k == 9:
        return "case when " + col(ctx, cols)[0] + " = 1 then 2 else 3 end", "u"
    if k == 10:
        return "(select 1)", "u"
    if k == 11:
        return "exists(select 1)", "u"
    if k == 12:
        return "cast(1 as " + ctx.pick(["int64", "string"]) + ")", "u"
    if k == 13:
        return "[1, 2]", "u"
    if k == 14:
        return "date '2020-01-01'", "n"
    if k == 15:
        return "`" + col(ctx, cols)[0] + "`" if cols is None else "f(1)[2]", "u"
    if k == 16:
        return "1 || 2", "u"
    if k == 17:
        return "count(*)", "u"
    if k == 18:
        return "r'" + ctx.word(1, 9) + "'", "n"
    # comparisons and the like
    a = operand(ctx, cols)
    if k == 19:
        return a + ctx.pick([" = ", " <> ", " < ", " >= ", " != "]) + operand(ctx, cols), "b"
    if k == 20:
        return a + ctx.pick([" is null", " is not null", " is true"]), "b"
    if k == 21:
        return a + ctx.pick([" like ", " not like "]) + "'x'", "b"
    if k == 22:
        return a + ctx.pick([" in ", " not in "]) + "(1, 2)", "b"
    if k == 23:
        return a + ctx.pick([" between ", " not between "]) + "1 and 2", "b"
    if k == 24:
        return "1 between " + a + " and 'z'", "b"
    if k == 25:
        return a + " in (select 1)", "b"
    if k == 26:
        return "not " + a, "b"
    if k == 27:
        return "not " + a + " = 1", "b"
    if k == 28:
        return "sum(1) over (partition by 2 order by 3)", "u"
    if k == 29:
        return "array_agg(1 order by 2)", "u"
    if k == 30:
        return "extract(day from '2020-01-01')", "u"
    if k == 31:
        return "f(1) filter (where true)", "u"
    if k == 32:
        return "1.", "n"
    raise ValueError(k)


def col(ctx, cols):
    """A column; cols: list of (reference, type), None for a real table."""
    if not cols:
        return word(ctx), "u"
    return ctx.pick(cols)


def operand(ctx, cols):
    return ctx.pick(["1", "'x'", "null", col(ctx, cols)[0]])


def wrap(ctx, cols, k, x):
    """x = (text, type, inside) within something else."""
    t, ty, bad = x
    if k == 0:
        return x
    if k == 1:
        return "(" + t + ")", ty, bad
    if k == 2:
        return "((" + t + "))", ty, bad
    if k == 3:
        return "not (" + t + ")", "b", bad
    if k == 4:
        return "f(1, " + t + ")", "u", bad
    if k == 5:
        return "(" + t + ") = true", "b", bad
    if k == 6:
        return "true in ((" + t + "))", "b", bad
    if k == 7:
        return "case when " + t + " then 1 end = 1", "b", bad
    if k == 8:
        return "(" + t + ") is true", "b", bad
    if k == 9:
        return "exists(select 1 from zt where " + t + ")", "u", bad or ty == "n"
    if k == 10:
        return "1 in (select za from zt group by za having " + t + ")", "b", bad or ty == "n"
    raise ValueError(k)


WRAPS = 11


def connect(ctx, xs):
    text = xs[0][0]
    bad = False
    for i, (t, ty, b) in enumerate(xs):
        if i:
            text = text + ctx.pick([" and ", " or ", " AND "]) + t
        bad = bad or b or ty == "n"
    return text, "b", bad


def scope(ctx, k, column):
    """FROM and its columns; column: whether the operand looked at is one of them."""
    if k == 0:
        return " from zt", None
    if column:
        a = word(ctx)
        b = word(ctx)
        x = word(ctx)
        ctx.assume(a != b)
        ea, ta = ctx.pick(TYPED)
    else:
        a, b, x = "pa", "Pb", "px"
        ea, ta = ctx.pick([("1", "n"), ("zd", "u")])
    eb, tb = ("2", "n") if ta != "n" else ("true", "b")
    inner = "select " + ea + ctx.pick([" as ", " "]) + a + ", " + eb + " as " + b + " from zt"
    if k == 1:
        return " from (" + inner + ")", [(a, ta), (b, tb)]
    if k == 2:
        return " from (" + inner + ") " + x, [(a, ta), (b, tb), (x + "." + a, ta)]
    if k == 3:
        return " from (select * from (" + inner + "))", [(a, ta), (b, tb)]
    if k == 4:
        return " from (select * from (" + inner + ") zz) as " + x, [(x + "." + b, tb), (a, ta)]
    if k == 5:
        c, y = (word(ctx), word(ctx)) if column else ("pc", "py")
        ctx.assume(x != y and a != c and b != c)
        return " from (" + inner + ") " + x + " join (select 'v' as " + c + " from zu) " + y + " using (zk)", [(c, "n"), (y + "." + c, "n"), (x + "." + b, tb), (a, ta)]
    raise ValueError(k)


TYPED = [
    ("1", "n"), ("'s'", "n"), ("1.5", "n"), ("null", "n"), ("true", "b"), ("zd", "u"), ("zd = 1", "b"), ("f(1)", "u"), ("(2)", "n"), ("zd + 1", "n"), ("zd is null", "b"), ("not zd", "b"), ("zd and ze", "b"), ("(zd or ze)", "b"),
    ("case when zd then 1 end", "u"), ("zt.zd", "u"), ("cast(zd as int64)", "u"), ("-3", "n"), ("zd between 1 and 2", "b"), ("zd in (1)", "b"), ("`zd`", "u"), ("count(*)", "u"),
]
PLACES = {
    "where": "select 1#where @",
    "where2": "select 1#where @ group by 1 having true order by 1 limit 3",
    "having": "select 1#group by 1 having @",
    "having2": "select 1#where true group by 1 having @ order by 1",
}
AROUND = [
    "^", "select zx from (^ ) as zy where zy.zx or true", "with zw as (^ ) select 1 from zw where true", "with zw as (select 1) ^", "select 1 union all ^", "^ union all select 2", "select zx from zt where zx in (^ )",
    "select (^ ) as zx, 2 from zt", "select 1 from zt join (^ ) zy on zy.zx", "select f((^ )) from zt",
]


def finish(ctx, place, around, frm, x):
    t, ty, bad = x
    sql = place.replace("#", frm + " ").replace("@", t)
    if around.startswith("select zx from (^"):
        around = "select 1 from (^ ) as zy where true"
    verdict(ctx, around.replace("^", sql), not (bad or ty == "n"))


def one(ctx, case):
    """One operand, wrapped or not."""
    place, sc, w = case
    k = ctx.choose(LEAVES)
    frm, cols = scope(ctx, sc, k == 6)
    t, ty = leaf(ctx, cols, k)
    finish(ctx, PLACES[place], "^", frm, wrap(ctx, cols, w, (t, ty, False)))


def several(ctx, case):
    """Operands of AND and OR; the one at the position i is any."""
    place, sc, n, i, w = case
    k = ctx.choose(LEAVES)
    frm, cols = scope(ctx, sc, k == 6 and n == 2)
    xs = []
    for j in range(n):
        if j == i:
            t, ty = leaf(ctx, cols, k)
        else:
            t, ty = col(ctx, cols) if j % 2 else ("zf(1)", "u")
        xs.append((t, ty, False))
    finish(ctx, PLACES[place], "^", frm, wrap(ctx, cols, w, connect(ctx, xs)))


def deep(ctx, case):
    """AND and OR nested in one another, in any query."""
    place, around, w1, w2 = case
    frm, cols = " from zt", None
    t, ty = leaf(ctx, cols, ctx.pick([0, 1, 3, 4, 6, 7, 8, 19, 23, 26]))
    x = wrap(ctx, cols, w1, (t, ty, False))
    xs = [x, ("zg = 1", "b", False)]
    if ctx.flag():
        xs = [xs[1], x]
    y = wrap(ctx, cols, w2, connect(ctx, xs))
    finish(ctx, PLACES[place], around, frm, y)


def cases_one(quick):
    out = []
    for p in PLACES:
        for s in range(6):
            for w in range(WRAPS):
                if not quick or w == 0 and (p in ("where", "having") or s < 2) or s == 0 and p == "where":
                    out.append([p, s, w])
    return out


def cases_several(quick):
    out = []
    for p in PLACES:
        for s in range(6):
            for n in (2, 3) if quick else (2, 3, 4):
                for i in range(n):
                    for w in range(WRAPS):
                        if quick and not (p == "where" and (s == 0 and n == 2 and w in (0, 2, 3, 7) or s in (0, 1) and n == 3 and w == 0 or s == 4 and n == 2 and w == 1) or p == "having" and s < 2 and n == 2 and w == 0):
                            continue
                        if w and s == 5 and not quick and n > 2:
                            continue
                        out.append([p, s, n, i, w])
    return out


def cases_deep(quick):
    out = []
    for p in ["where", "having"] if quick else PLACES:
        for a in AROUND:
            if not quick or a == "^":
                ws = [(i, j) for i in range(WRAPS) for j in range(WRAPS) if not quick or i in (0, 1, 3) or j in (0, 2)]
            else:
                ws = [(0, 0), (3, 0)] if p == "having" else [(1, 2), (0, 7)]
            out += [[p, a, i, j] for i, j in ws]
    return out
