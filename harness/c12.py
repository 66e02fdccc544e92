"""C12: LIMIT and OFFSET take integers which are not negative."""
from harness.c10 import verdict
from harness.common import *

GOOD = ["@", "(@)", "((@))", "0@", "(00@)"]
BAD = [
    "-^", "(-^)", "((-^))", "@.5", "@.@", "@.", "(@.0)", "-^.5", "'@'", "'w'", "date 'w'", "\"w\"", "true", "false", "(true)", "null", "(null)", "w", "(w)", "w.w", "`w`", "@ + @", "(@ + @)", "@ * w", "@ - @", "@ / @", "@ % @", "f(@)",
    "f()", "(f(@))", "cast(@ as int64)", "count(*)", "(select @)", "(select w from w)", "case when w then @ end", "@ || @", "@ & @", "@ << @", "[@]", "w[@]", "[@, @][@]", "not @", "@ = @", "@ > w", "@ is null", "@ in (@)",
    "@ between @ and @", "@ and @", "true or w", "extract(day from w)", "-w", "-(@)", "(@ = @)", "w like 'w'", "array_agg(w limit @)", "sum(@) over ()", "count(distinct w)",
]
KEPT = [v for v in BAD if any(x in v for x in ("show", "when", "follow", "window", "between"))]
AROUND = [
    "select za from zt limit ^", "select za from zt limit 1 offset ^", "select za from zt offset ^", "select za from zt order by za limit ^ offset 2", "select za from zt where zb group by zc having zd order by ze limit ^;",
    "select 1 limit ^", "select 1 offset ^", "select * from (select za from zt limit ^) as zx", "select * from (select za from zt limit 2 offset ^)", "select * from zt where za in (select zb from zu limit ^)",
    "with zw as (select za from zt limit ^) select * from zw", "with zw as (select 1) select * from zw limit ^", "select 1 union all select za from zt limit ^", "select za from zt limit ^ union all select 1", "select za from zt offset ^ union all select 1",
    "select * from zt join (select za from zu limit ^) zx using (zy)", "select (select za from zt limit ^) as zx from zt", "select f((select za from zt limit 1 offset ^)) from zt",
]


def h(ctx, case):
    around, value, ok = case
    text = ""
    for c in value.replace("w", "~") if value not in KEPT else value:
        if c == "@":
            text = text + ctx.num(0, 10**12)
        elif c == "^":
            text = text + ctx.num(1, 10**12)
        elif c == "~":
            text = text + ctx.word(1, 9)
        else:
            text = text + c
    verdict(ctx, around.replace("^", text), ok)




def cases(quick):
    out = []
    for a in AROUND:
        for v in GOOD:
            out.append([a, v, True])
        if " limit ^" in a:
            out.append([a, "all", True])
            out.append([a, "ALL", True])
        else:
            out.append([a, "all", False])
        for v in BAD:
            out.append([a, v, False])
    return out


def computed(ctx, case):
    """Every production of the expression grammar is reported."""
    from harness import gen

    around, d = case
    g = gen.Gen(ctx)
    toks = g.expr("bool", d)
    if toks[0][1] == "(" and toks[-1][1] == ")":
        return
    if toks[0][1] == "-" and len(toks) <= 3:
        # -0 is no negative number
        return
    verdict(ctx, around.replace("^", gen.render(toks)), False)


def cases_computed(quick):
    return [[a, 1] for a in AROUND[:: 3 if quick else 1]] + [[a, 2] for a in (AROUND[:2] if not quick else [])]
