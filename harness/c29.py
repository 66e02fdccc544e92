"""C29: a query has the same errors wherever it stands as a whole."""
import importlib

import sqlvalidator

from harness import c10, c11, c12, c13, c14, c25
from harness.c26 import errors
from harness.common import *

WAYS = {
    "from": ("select * from (", ")"),
    "from alias": ("select count(*) from (", ") as x where true"),
    "from twice": ("select * from (select * from ((", ")))"),
    "with": ("with x as (", ") select * from x"),
    "with second": ("with y as (select 1), x as (", ") select * from x"),
    "with last": ("with x as (select 1) ", ""),
    "join": ("select 1 from t join (", ") x using (a)"),
    "join left": ("select 1 from (", ") left join t on true"),
    "comma": ("select 1 from t, (", ") as x"),
    "union": ("select 1 union all ", ""),
    "union left": ("", " union all select 1"),
    "union last": ("select 1 except distinct select 2 intersect all ", ""),
    "select": ("select (", ")"),
    "select list": ("select 1, (", ") as b from (select 1)"),
    "where": ("select 1 where 1 in (", ")"),
    "exists": ("select 1 having exists (", ")"),
    "not": ("select 1 where not (1 not in (", ") or 1 = 1)"),
    "case": ("select case when 1 = (", ") then 1 end"),
    "function": ("select array(", ")"),
    "order": ("select 1 order by (", ")"),
    # with columns of the query around it
    "where outer": ("select 1 from zt where 1 in (", ") and true"),
    "select outer": ("select 1, max((", ")) as zb from (select zouta, zoutb from zt) as zc"),
}
OUTER = ("where outer", "select outer")

# a WITH statement may stand here
WITH = ("from", "from alias", "from twice", "with", "with second", "join", "join left", "comma")


def h(ctx, case):
    mod, fn, inner, way = case

    def compare(ctx, sql):
        if sql[:4].lower() == "with" and way not in WITH:
            return
        before, after = WAYS[way]
        first = errors(ctx, sql)
        other = before + sql + after
        second = errors(ctx, other)
        ctx.observe("errors", first)
        ctx.require(first == second, ["other errors inside of another query", sql, first, other, second])

    ctx.on_verdict = compare
    {"c10": c10, "c11": c11, "c12": c12, "c13": c13, "c14": c14}[mod].__dict__[fn](ctx, inner)


def cases(quick):
    out = []
    for mod, fn, one in FUNCTIONS:
        m = importlib.import_module("harness." + mod)
        cs = getattr(m, "cases" if fn == "h" else "cases_" + fn)(True)
        for i, c in enumerate(cs):
            if mod == "c12" and fn == "computed" and quick and i > 1:
                continue
            for j, way in enumerate(WAYS):
                if way in OUTER and mod == "c10":
                    continue  # other columns are known there
                more = 8 if way in ("from alias", "join") and mod == "c10" else 1
                if (i * 7919 + j * 104729) % 10007 % (one // more if quick else 5) == 0:
                    out.append([mod, fn, c, way])
    return out


# every how many of the cases are taken for the quick check
FUNCTIONS = [("c10", "h", 131), ("c10", "nested", 71), ("c11", "h", 61), ("c12", "h", 37), ("c12", "computed", 19), ("c13", "one", 97), ("c13", "several", 307), ("c13", "deep", 127), ("c14", "one", 53), ("c14", "chain", 83), ("c14", "parens", 47)]
