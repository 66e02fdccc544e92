"""C24: results do not depend on what was processed before."""
import sqlvalidator
from sqlvalidator import file_handler

from harness.common import *

# @ names (the same ones in both statements, where the solver likes), ? letters and blanks of a literal
STATEMENTS = [
    "select @, @ from @",
    "select '?' from @",
    "select '?  ?', '? ?'",
    "SELECT \"?\", @ FROM @ WHERE @ = 1",
    "select f(@) over (partition by @ order by @) from @ z",
    "select @ from (select @ from @)",
    "select @ from (select @ as x, 1 y from @) @ where y",
    "with @ as (select @ from @) select @ from @ limit -1",
    "select @ from @ join @ group by @, 7 order by 0",
    "select case when @ then 1 end as @ from @ where 1 and @ = '?'",
    "select @ from @ where",
    "select 'x",
    "insert into @ values (1)",
    "select @ union all select @ from (select @ a)",
    "select count(distinct @), cast(@ as int64) from @ left join @ using (@) where exists (select 1) and @ in (1, 2)",
    "select array_agg(@ order by @ limit 2) from unnest(@) as @ with offset as @ limit @",
    "",
    "select @ from (select @ a) where @.a = 1 order by @.@ limit 1 offset @",
]


def fill(ctx, text):
    out = ""
    start = 0
    for i, c in enumerate(text):
        if c == "@":
            out = out + text[start:i] + ctx.word(1, 9)
            start = i + 1
        elif c == "?":
            out = out + text[start:i] + ctx.ch("xX \t")
            start = i + 1
    return out + text[start:]


def result(ctx, op, sql):
    try:
        if op == "format":
            return [sqlvalidator.format_sql(sql)]
        if op == "literal":
            text, query = file_handler.handle_sql_string('"""' + sql + '"""')
            return [text, query.is_valid(), list(query.errors)]
        query = sqlvalidator.parse(sql)
        if op == "both":
            valid = query.is_valid()
            return [valid, list(query.errors), query.format()]
        return [query.is_valid(), list(query.errors)]
    except RecursionError:
        return ["RecursionError"]
    except Exception as e:
        return [type(e).__name__, str(e)]


def h(ctx, case):
    """case: statement, what is done with it, earlier statement, what was done with it."""
    i, op, j, before = case
    sql = fill(ctx, STATEMENTS[i])
    first = result(ctx, op, sql)
    ctx.fresh()
    earlier = fill(ctx, STATEMENTS[j])
    result(ctx, before, earlier)
    again = result(ctx, op, sql)
    ctx.observe("result", again)
    ctx.require(first == again, ["another result after something else was processed", sql, op, first, again, earlier, before])


OPS = ["format", "validate", "both", "literal"]


def cases(quick):
    out = []
    n = len(STATEMENTS)
    for i in range(n):
        for j in range(n):
            for a, op in enumerate(OPS):
                for b, before in enumerate(OPS):
                    if not quick or (i * n + j + a + 2 * b) % 2 == 0 or i == j:
                        out.append([i, op, j, before])
    return out
