"""C27: the work for a statement grows moderately with its length and depth."""
import sqlvalidator

from harness.common import *

# what may be nested in itself and in the others: an expression in an expression ...
EXPR = {
    "paren": "({})",
    "not": "not ({})",
    "and": "({} and # = 1)",
    "or": "(# = 1 or {})",
    "chain": "# = 1 and {}",
    "chain or": "# or {}",
    "function": "#({})",
    "arguments": "#(#, {}, 1)",
    "when": "case when {} then 1 end",
    "when paren": "case when ({}) then 1 end",
    "then": "case when # then {} end",
    "else": "case when # then 1 else {} end",
    "case": "case {} when 1 then # end",
    "arithmetic": "(1 + {})",
    "equal": "# = ({})",
    "equal left": "({}) = #",
    "null": "({}) is null",
    "between": "# between ({}) and 2",
    "between and": "# between 1 and ({})",
    "in list": "# in (1, {})",
    "cast": "cast({} as int)",
    "extract": "extract(year from {})",
    "array": "[{}]",
    "index": "#[{}]",
    "indexed": "({})[0]",
    "over": "sum({}) over (partition by # order by #)",
    "partition": "sum(#) over (partition by {} order by #)",
    "order in over": "sum(#) over (order by {})",
    "filter": "count(*) filter (where {})",
    "array_agg": "array_agg({} order by # limit 1)",
    "order in array_agg": "array_agg(# order by {} limit 1)",
    "minus": "- ({})",
    "count": "count(distinct {})",
    "select list": "# in (select {} from #)",
    "long list": "(select {} as #, # from #)",
    "scalar": "(select {})",
    "where": "# in (select # from # where {})",
    "where paren": "# in (select # from # where ({}))",
    "exists": "exists (select 1 from # where {})",
    "having": "# in (select # from # having {})",
    "having paren": "# in (select # from # having ({}))",
    "group": "# in (select # from # group by {})",
    "group paren": "# in (select # from # group by ({}), #)",
    "order": "# in (select # from # order by {})",
    "limit": "# in (select # from # limit {})",
    "on": "# in (select # from # join # on {})",
    "on paren": "# in (select # from # join # on ({}))",
    "derived": "# in (select # from (select {} from #))",
    "derived join": "# in (select # from # join (select {} from #) as # on # = #)",
    "union": "# in (select {} from # union all select 1 from #)",
    "union right": "# in (select 1 from # union all select {} from #)",
    "with": "# in (select # from (with # as (select {}) select * from #))",
    "unnest": "# in (select # from unnest({}))",
    "distinct on": "(select distinct on ({}) # from #)",
    "replace": "(select * replace ({} as #) from #)",
    "star": "(select *, {} from (select # from #))",
}
# ... and what may stand after FROM in that
FROM = {
    "paren": "({})",
    "derived": "(select # from {})",
    "derived star": "(select * from {})",
    "derived alias": "(select # from {}) #",
    "derived star alias": "(select * from {}) as #",
    "join": "# join ({}) on # = #",
    "join left": "({}) join # on # = #",
    "join alias": "# join (select * from {}) as # using (#)",
    "join both": "(select * from {}) # join (select # from #) using (#)",
    "union": "(select # from # union all select # from {})",
    "union left": "(select # from {} union all select # from #)",
    "with": "(with # as (select * from {}) select * from #)",
    "with after": "(with # as (select # from #) select * from {})",
    "comma": "(select # from #, (select * from {}) #)",
    "where": "(select # from # where # in (select * from {}))",
}
# the parts which several places of the layout and of the verdict deal with
MAIN = ("paren", "and", "or", "chain", "not", "function", "when", "when paren", "then", "equal", "where", "where paren", "having paren", "on paren", "select list", "derived", "exists", "arithmetic")
INNER = {"expr": ["#", "# = 1 1", "", "# = 'x"], "from": ["#", "", "# limit 1 1", "select # from # where"]}
TOP = {"expr": ["select {} from #", "select * from # where {}", "select # from # group by # having {}", "select 1 from (select 1 from #) where {}"], "from": ["select # from {}", "select * from {} where # = 1"]}
# chains and lists of any length
LISTS = {
    "and": ("select # from # where #", " and # = 1"),
    "or": ("select # from # where #", " or # = 1"),
    "and or": ("select # from # where #", " and # or # = 1"),
    "subqueries": ("select # from # where #", " and # in (select 1)"),
    "having": ("select # from # group by # having #", " and sum(#) > 1"),
    "on": ("select # from # join # on #", " and # = #"),
    "plus": ("select #", " + #"),
    "times": ("select #", " * # - 1"),
    "concat": ("select #", " || 'x'"),
    "columns": ("select #", ", #"),
    "aliases": ("select #", ", # as #"),
    "cases": ("select #", ", case when # then 1 end"),
    "when": ("select case when # then 1", " when # then 2", " end from #"),
    "arguments": ("select f(#", ", #", ")"),
    "dots": ("select #", ".#"),
    "indices": ("select #", "[1]"),
    "not": ("select # from # where", " not", " #"),
    "minus": ("select", " -", " #"),
    "joins": ("select # from #", " join # on # = #"),
    "joins using": ("select # from #", " join # using (#)"),
    "derived joins": ("select # from #", " join (select # from #) as # using (#)"),
    "commas": ("select # from #", ", #"),
    "group": ("select # from # group by #", ", #"),
    "order": ("select # from # order by #", ", # desc"),
    "positions": ("select # from # order by 1", ", 1"),
    "unions": ("select #", " union all select #"),
    "unions from": ("select # from #", " union all select # from #"),
    "with": ("with # as (select #)", ", # as (select * from #)", " select * from #"),
    "strings": ("select 'x'", ", 'x'"),
    "semicolons": ("select #", ";"),
    "commas alone": ("select #", ","),
    "names alone": ("select #", " #"),
    "parens open": ("select ", "("),
    "parens closed": ("select #", ")"),
    "quotes": ("select '", "''"),
    "less": ("select # ", "< "),
}
WHAT = ("format", "validate")
LONGEST = 30


def words(ctx, n):
    return [ctx.word(1, LONGEST) for _ in range(n)]


def fill(template, ws):
    """The template with a name, one after the other, for each #."""
    parts = template.split("#")
    out = parts[0]
    for i, p in enumerate(parts[1:]):
        out = out + ws[i % len(ws)] + p
    return out


def nested(kinds, inner, times):
    text = inner
    for _ in range(times):
        for k in kinds:
            text = k.replace("{}", text)
    return text


def effort(ctx, what, sql, limit):
    if what == "format":
        return ctx.work(lambda: sqlvalidator.format_sql(sql), limit)
    query = sqlvalidator.parse(sql)
    n = ctx.work(lambda: query.is_valid(), limit)
    return n + len(query.errors)


def compare(ctx, what, texts):
    """Each text has at most twice the length of the one before."""
    limit = 100000
    for i, text in enumerate(texts):
        n = effort(ctx, what, text, limit)
        ctx.require(n <= limit, ["the work grows exponentially: to %s this takes more than %d steps" % (what, limit), "and a text of half its length or depth less than a twelfth of that", text])
        limit = 12 * n + 2000
    ctx.observe("done", True)


def h(ctx, case):
    what, where, kinds, inner, top, n = case
    ctx.steps(5)
    ws = words(ctx, 2)
    ks = [(EXPR if where == "expr" else FROM)[k] for k in kinds]
    texts = []
    for m in (2, n // 2 + 1, n, 2 * n):
        texts.append(fill(TOP[where][top].replace("{}", nested(ks, INNER[where][inner], m)), ws))
    compare(ctx, what, texts)


def cases(quick):
    out = []
    for where, table in (("expr", EXPR), ("from", FROM)):
        for i, a in enumerate(table):
            for j, b in enumerate(table):
                if a == b:
                    kinds, n = [a], 9
                else:
                    kinds, n = [a, b], 7
                for what in WHAT:
                    for inner in range(4):
                        for top in range(len(TOP[where])):
                            main = a == b or where == "from" or a in MAIN and b in MAIN
                            if quick and not main:
                                continue
                            k = i * 7 + j * 3 + inner
                            if top != k % len(TOP[where]) and not (a == b and inner == 0):
                                continue
                            if a != b and (quick or not main) and inner not in ((0, 2) if where == "from" else (0, 1) if k % 2 else (0,)):
                                continue
                            out.append([what, where, kinds, inner, top, n])
    return out


def lists(ctx, case):
    what, kind, n = case
    ctx.steps(5)
    parts = LISTS[kind]
    ws = words(ctx, 2)
    texts = []
    for m in (n // 2, n, 2 * n):
        texts.append(fill(parts[0] + parts[1] * m + (parts[2] if len(parts) > 2 else ""), ws))
    compare(ctx, what, texts)


def cases_lists(quick):
    return [[w, k, n] for w in WHAT for k in LISTS for n in ((14,) if quick else (14, 28))]
