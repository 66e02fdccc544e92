"""C11: positions in GROUP BY and ORDER BY lie between 1 and the number of items."""
from harness.c10 import verdict
from harness.common import *

ITEMS = ["za", "zb as zc", "f(za, zb) zd", "1", "'x, y'", "zt.za", "(za, zb)", "sum(za) over (partition by zb, zc order by 9)", "case when za then zb end", "[1, 2, 3]", "count(distinct za, zb)", "array_agg(za order by 8)"]
STARS = ["*", "zt.*", "* except (za, zb)", "* replace (1 as za)"]
# @ is a position, # the SELECT list
PLACES = [
    "group by @", "group by 1, @", "group by @, 1", "group by (@)", "group by ((@))", "group by rollup (1, @)", "group by rollup (@)", "group each by @", "group by za, @", "group by f(za), @ having true",
    "group by (1, @)", "group by @, @2", "order by @", "order by @ desc", "order by 1, @ asc nulls last", "order by (@), za", "order by za, ((@)) desc", "order by @, @2", "order by @ limit 7 offset 8", "group by @ order by @2",
    "where za = 7 group by @ having sum(za) > 7 order by za", "order by f(9), @ nulls first",
]
# a number there is no position
OTHER = ["order by f(@)", "group by f(@), 1", "order by 1, @ + 1", "group by za having za > @", "order by (select @)", "where za in (@) order by 1"]
AROUND = [
    "^", "select zx from (^)", "select zx from (^) as zy", "select zx from zt where zx in (^)", "with zw as (^) select zx from zw", "with zw as (select 1) ^", "select 1 union all ^",
    "select zx from zt join (^) zy using (zx)", "select (^) as zx from zt", "select zx from zt where exists (^)", "select f((^), 1) from zt", "^ union all select 1",
]


def h(ctx, case):
    """case: number of items, star, around, place"""
    n, star, around, place = case
    items = []
    for i in range(n):
        items.append(ctx.pick(ITEMS) if i == 0 else ITEMS[i])
    if star:
        items[ctx.choose(n)] = ctx.pick(STARS)
    ok = True
    text = place
    for ph in ("@2", "@"):
        if ph in text:
            sign = ctx.pick(["", "", "-"])
            d = ctx.num(1 if sign else 0, 10**9)
            v = int(d)
            if place not in OTHER and (sign or v < 1 or (v > n and not star)):
                ok = False
            text = text.replace(ph, sign + d)
    sql = "select " + ", ".join(items) + " from zt " + text
    if around.startswith("select zx from (^)"):
        around = around.replace("select zx", "select 3")
    verdict(ctx, around.replace("^", sql), ok)


def cases(quick):
    out = []
    for n in (1, 2, 3) if quick else (1, 2, 3, 4, 5, 8, 12):
        for p in PLACES + OTHER:
            out.append([n, 0, "^", p])
            if n <= 2:
                out.append([n, 1, "^", p])
    for a in AROUND[1:]:
        for p in PLACES if not quick else PLACES[::3]:
            out.append([2, 0, a, p])
    return out
