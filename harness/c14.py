"""C14: every join but CROSS and the comma has ON or USING."""
from harness.c10 import verdict
from harness.common import *

NEED = ["join", "inner join", "left join", "right join", "full join", "left outer join", "right outer join", "full outer join", "join each", "inner join each", "left join each"]
FREE = ["cross join", ","]
CONDS = [
    "",
    " on @ = zq",
    " using (@)",
    " on zx.@ = zy.zr and (zs > 1 or zu is null)",
    " on true",
    " on (@ = 1)",
    " using (@, zl)",
    " on @ in (select zi from zj)",
    " on f(@) = case when zm then 1 end",
    " on @ between 1 and 2 or zn",
    "\nON not @",
    " Using(`@`)",
]


def word(ctx):
    return ctx.word(1, 9, "same")


TABLES = 12


def table(ctx, k):
    """A table, derived table and the like without a missing condition; text, whether one is missing inside."""
    w = word(ctx)
    if k == 0:
        return w
    if k == 1:
        return w + " as zta"
    if k == 2:
        return w + ".ztb ztc"
    if k == 3:
        return "`" + w + "`"
    if k == 4:
        return "(select " + w + " from ztd)"
    if k == 5:
        return "(select 1 from zte) " + w
    if k == 6:
        return "(select 1 from ztf cross join " + w + ") as ztg"
    if k == 7:
        return "unnest(" + w + ") as zth"
    if k == 8:
        return "(zti cross join " + w + ")"
    if k == 9:
        return "(ztj, " + w + ") as ztk"
    if k == 10:
        return "(ztl join " + w + " using (ztm))"
    if k == 11:
        return "(select 1 from ztn left join zto on ztn.ztp = zto.ztp where " + w + ") ztq"
    raise ValueError(k)


def join(ctx, left, j, right, cond):
    """left, right: (text, whether a condition is missing in them)."""
    if j == ",":
        text = left[0] + ", " + right[0]
        return text, left[1] or right[1]
    text = left[0] + " " + j + " " + right[0]
    if j == "cross join":
        return text, left[1] or right[1]
    return text + CONDS[cond].replace("@", word(ctx)) if cond else text, left[1] or right[1] or cond == 0


# ^ stands for FROM and what follows it
AROUND = [
    "select 1^",
    "select za, zb^ where zc group by 1 having zd order by 2 limit 3",
    "select * from (select za^)",
    "select * from (select za^) as zb",
    "select * from ((select za^)) zb where za",
    "select 1 from za, (select zb^) zc",
    "select 1 from za join (select zb^) zc on zd",
    "select 1 from (select zb^) zc left join za using (zd)",
    "select 1 from (select zb from (select zb^) zc) as zd",
    "with zz as (select zb^) select 1",
    "with zz as (select 1 zb), zy as (select zc^) select zc from zy",
    "with zz as (select 2) select zc^",
    "select za^ union all select 3",
    "select 4 union distinct select zb^",
    "select za from (select za^ except distinct select zb from zt)",
    "select 1 from zt where za in (select zb^)",
    "select 1 from zt where exists(select zb^) and za",
    "select 1 from zt where za = (select zb^) group by 1",
    "select (select zb^), 2 from zt",
    "select 1 from zt group by 1 having za > (select zb^)",
]


def finish(ctx, around, x):
    verdict(ctx, AROUND[around].replace("^", " from " + x[0]), not x[1])


def one(ctx, case):
    """One join of any type between tables of any form."""
    l, r = case
    left = table(ctx, l), False
    right = table(ctx, r), False
    j = ctx.pick(NEED + FREE)
    cond = ctx.choose(len(CONDS)) if j in NEED else 0
    finish(ctx, 0, join(ctx, left, ctx.kw(j), right, cond) if j in NEED else join(ctx, left, j, right, 0))


def chain(ctx, case):
    """Joins one after the other; those the case leaves open are of any type."""
    around, n, tables, types = case
    x = table(ctx, tables[0]), False
    for i in range(n):
        if types == "all":
            j = ctx.pick(NEED + FREE)
        else:
            j = ctx.pick(["join", "left outer join", "cross join", ","])
        cond = ctx.choose(3) if j in NEED else 0
        x = join(ctx, x, j, (table(ctx, tables[i + 1]), False), cond)
    finish(ctx, around, x)


def parens(ctx, case):
    """A join in parentheses or in a derived table on either side of joins."""
    around, shape, side = case

    def some(lite=False):
        j = ctx.pick(["join", "right join", "cross join", ","] if not lite else ["full outer join", ","])
        return j, (ctx.choose(3) if not lite else ctx.choose(2)) if j in NEED else 0

    j, c = some()
    inner = join(ctx, ("zta", False), j, (word(ctx), False), c)
    if shape in (3, 4):
        j, c = some(True)
        inner = join(ctx, inner, j, ("ztz", False), c)
    t, bad = inner
    t = {
        0: "(" + t + ")",
        1: "((" + t + ")) zpa",
        2: "(" + t + ") as zpb",
        3: "(select zpc from " + t + ")",
        4: "(" + t + ") zpd",
        5: "(select zpe from (" + t + ")) as zpf",
        6: "(select * from zpg where zph in (select zpi from " + t + ")) zpj",
        7: "(with zpk as (select zpl from " + t + ") select zpl from zpk)",
        8: "(select zpm from " + t + " union all select zpn from zpo) as zpp",
    }[shape]
    x = t, bad
    j, c = some()
    if side == 0:
        x = join(ctx, x, j, ("ztb", False), c)
    elif side == 1:
        x = join(ctx, ("ztb ztc", False), j, x, c)
    elif side == 2:
        j2, c2 = some(True)
        x = join(ctx, join(ctx, ("ztb", False), j, x, c), j2, ("ztd", False), c2)
    elif side == 3:
        j2, c2 = some(True)
        x = join(ctx, join(ctx, ("ztb", False), j, ("ztd", False), c), j2, x, c2)
    finish(ctx, around, x)


def cases_one(quick):
    return [[l, r] for l in range(TABLES) for r in range(TABLES) if not quick or l in (0, 1) or r == 0 or l == r]


def cases_chain(quick):
    out = []
    for a in range(len(AROUND)):
        if not quick or a in (0, 1):
            out += [[a, 2, t, "all"] for t in ([0, 0, 0], [1, 5, 2], [5, 4, 7], [3, 11, 9])]
            out += [[a, 3, t, "some"] for t in ([0, 0, 0, 0], [8, 6, 10, 1])]
        else:
            out += [[a, 1, [0, 0], "all"], [a, 2, [5, 1, 5], "some"]]
        if not quick:
            out += [[a, 4, [0, 1, 0, 2, 5], "some"]]
    return out


def cases_parens(quick):
    return [[a, s, d] for a in range(len(AROUND)) for s in range(9) for d in range(4) if not quick or a == 0 or s < 2 and d < 2]
