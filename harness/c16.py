"""C16: malformed statements are reported as invalid; nothing is raised."""
import sqlvalidator

from harness.common import *

# # a name, 0 an integer, the other tokens as they are; "_" stands for no blank
TEMPLATES = [
    "select # , # from # where # = 0 group by # having # > 0 order by # limit 0 offset 0 ;",
    "select all # as # , 0 # from # as #",
    "select distinct # . # , * from # . # where # and not # or ( # )",
    "select distinct on ( # , # ) # from #",
    "select * except ( # , # ) from # where # is not null",
    "select * replace ( # + 0 as # ) from #",
    "select # . * , ' x ' as # from ` # ` where # like ' x% '",
    "select count ( distinct # ) , count ( * ) from # group by 0",
    "select cast ( # as # ) , # ( # , 0 ) filter ( where # ) from #",
    "select array_agg ( distinct # ignore nulls order by # limit 0 ) from #",
    "select case when # = 0 then # else 0 end as # from #",
    "select case # when 0 then # when 0 then 0 end from #",
    "select # between 0 and 0 , # in ( 0 , # ) , # not in ( select # from # ) from #",
    "select sum ( # ) over ( partition by # order by # desc rows between 0 preceding and current row ) from #",
    "select sum ( # ) over ( # rows unbounded preceding ) , # from #",
    "select # over ( ) , extract ( day from # ) , date_trunc ( # , month ) from #",
    "select [ 0 , # ] , # [ offset ( 0 ) ] , array ( select # from # ) from #",
    "select struct ( # as # , 0 ) , ( # , # ) , - # * 0 || # from #",
    "select date ' 2020-01-01 ' , r ' a ' , \" # \" from #",
    "select date_add ( # , interval 0 day ) , # <= # , # <> 0 from #",
    "select # from ( select # from # ) as # where exists ( select 0 )",
    "select # from # join # on # . # = # . # left outer join # using ( # , # ) where #",
    "select # from # cross join # , # inner join ( select # from # ) # on # and # where # >= 0",
    "select # from ( # join # using ( # ) ) as # full join ( # ) on #",
    "select # from unnest ( # ) as # with offset as # where # != 0",
    "select # from # , unnest ( [ 0 , # ] ) with offset #",
    "select # from # union all select # from # union distinct select # from #",
    "select # from ( select # from # except distinct select # ) intersect distinct select 0",
    "with # as ( select # from # ) , # as ( select 0 ) select # from # ;",
    "with # as ( select # union all select 0 ) select # from # where # in ( select # from # )",
    "select # from # group each by # , ( # , 0 ) order by # asc nulls last , # desc nulls first",
    "select # from # group by rollup ( # , # ) having # and ( # or # ) limit all offset 0",
    "select any_value ( # ) , # & 0 , # << 0 , if ( # , 0 , null ) from # where true",
    "select ( select # from # ) as # , ( ( # ) ) from ( ( select # from # ) ) where ( select 0 )",
    "select 0 from # where cast ( # as # ) = 0 and # ( # , 0 ) <> ' x ' or not # between 0 and #",
    "select 0 from # where case when # = 0 then # else 0 end = - # and # in ( 0 , # ) and # not in ( select # from # )",
    "select 0 from # where # [ offset ( 0 ) ] * # + 0 <= [ 0 , # ] order by sum ( # ) over ( partition by # order by # desc ) , - 0",
    "select 0 from # where exists ( select # from # where # ) and # is not null or # like ' x% ' group by ( # ) , # having not #",
    "select 0 from # where ( # , # ) in ( select # , # from # ) or # . # . # || # < # >> 0 limit 0",
    "select 0 from # group by # order by array_agg ( distinct # ignore nulls order by # limit 0 ) , count ( distinct # ) desc nulls last",
    "select 0 from # where not # and not ( # or # ) and date ' 2020-01-01 ' > # - 0 / # % #",
    "select 0 from # where extract ( day from # ) = date_diff ( # , # , month ) having # >= # & 0 offset 0",
    "select # from # group by # order by # limit ( # and 0 ) offset # or #",
    "select # from # group by rollup # , # limit ( # ) offset not #",
    "with # as ( with # as ( select # from # ) select # ) select # from #",
    "select max ( # having # ) , # ( # ) [ 0 ] . # from # . # . # where # = false",
]
# after one of these something must follow
MUST = frozenset(
    "select distinct from where group by having order limit offset and or not is in like between join left on using as case when then else union intersect except with + - * / || = <> <= >= != < > & % << >> ( [ . all filter over partition rollup"
    " unnest cross inner outer full nulls".split()
)
OPEN = {"(": ")", "[": "]", "case": "end"}


def quotes(parts):
    """Index of each token -> quote it is within."""
    out = []
    q = None
    for p in parts:
        out.append(q)
        if p in ("'", '"', "`"):
            q = None if q == p else (p if q is None else q)
    return out, q


def incomplete(parts):
    """Whether something must follow."""
    if not parts:
        return True
    within, q = quotes(parts)
    if q is not None:
        return True
    plain = [p for p, w in zip(parts, within) if w is None]
    last = plain[-1]
    stack = []
    pending = 0
    for p in plain:
        if p in OPEN:
            stack.append(OPEN[p])
        elif stack and p == stack[-1]:
            stack.pop()
    if stack:
        return True
    if last == "*":
        return len(plain) > 2 and plain[-2] not in (",", ".", "select", "distinct", "all")
    if last == "offset":
        return len(plain) < 2 or plain[-2] != "with"
    if last == "all" and plain[-2] == "limit":
        return False
    if last in MUST:
        return True
    if last == ")" and [p for p in outermost(plain)][-4:] == ["distinct", "on", "(", ")"]:
        return True
    if plain[0] == "with" and "select" not in outermost(plain):
        return True
    top = outermost(plain)
    if "between" in top and "and" not in top[top.index("between") :]:
        return True
    return False


def outermost(parts):
    out = []
    d = 0
    for p in parts:
        if p in (")", "]"):
            d -= 1
        if d == 0:
            out.append(p)
        if p in ("(", "["):
            d += 1
    return out


def write(ctx, parts):
    """The text, a fresh name for each #."""
    out = ""
    prev = None
    within, _ = quotes(parts)
    for p, w in zip(parts, within):
        t = ctx.word(1, 9, 0) if p == "#" else ctx.num(0, 99) if p == "0" else p
        if prev is None or prev in ("(", ".", "[") or p in (".", ",", ")", "]", ";") or w is not None or p == "[" or prev == "r":
            out = out + t
        else:
            out = out + " " + t
        prev = p
    return out


def answer(ctx, sql, invalid):
    query = sqlvalidator.parse(sql)
    try:
        valid = query.is_valid()
    except Exception as e:
        ctx.fail(["validation raised", type(e).__name__, sql])
    ctx.require(valid is True or valid is False, ["not a bool", sql])
    ctx.require(valid == (len(query.errors) == 0), ["valid but with errors, or invalid without", sql, query.errors])
    if invalid:
        ctx.require(not valid, ["malformed but not reported", sql])
    ctx.observe("answer", [valid, query.errors])


def cut(ctx, case):
    """The first tokens of a statement."""
    parts = TEMPLATES[case].split(" ")
    n = ctx.choose(len(parts))
    parts = parts[:n]
    answer(ctx, write(ctx, parts), incomplete(parts))


def cases_cut(quick):
    return list(range(len(TEMPLATES)))


# where the text of what is inside is needed
AROUND = [
    ("select # from ( select # ) where # in (", ") and true"),
    ("select # from ( select 1 as # ) where true or # (", ")"),
    ("select # from ( select # , # ) having not # and exists ( select # from (", ") )"),
    # no names to look up
    ("select # from # where # in (", ") and true"),
    ("select # from # where true or # (", ")"),
    ("select # from # having not # and exists ( select # from (", ") )"),
]


def edit(ctx, case):
    """One token missing, doubled, exchanged with the next one or replaced."""
    t, kind = case[:2]
    parts = TEMPLATES[t].split(" ")
    i = ctx.choose(len(parts))
    if kind == "delete":
        invalid = i == 0 or parts[i] == "by"
        parts = parts[:i] + parts[i + 1 :]
    elif kind == "double":
        invalid = False
        parts = parts[:i] + [parts[i]] + parts[i:]
    elif kind == "swap":
        invalid = i == 0 or parts[i : i + 2][-1] == "by" and parts[i] != "each"
        parts = parts[:i] + parts[i + 1 : i + 2] + parts[i : i + 1] + parts[i + 2 :]
    else:
        x = ctx.pick(ALPHABET)
        invalid = (i == 0 and x not in ("select", "with")) or (parts[i] == "by" and x != "by")
        parts = parts[:i] + [x] + parts[i + (kind == "replace") :]
        if kind == "insert":
            invalid = (i == 0 and x not in ("select", "with")) or (i < len(parts) - 1 and parts[i + 1] == "by" and x not in ("each", "by"))
    if len(case) > 2:
        before, after = AROUND[case[2]]
        parts = before.split(" ") + parts + after.split(" ")
        invalid = False  # what is left may be an expression
    answer(ctx, write(ctx, parts), invalid)


def cases_inside(quick):
    out = []
    for t in range(len(TEMPLATES)):
        for i, k in enumerate(("delete", "double", "swap", "replace", "insert")):
            for a in range(len(AROUND)):
                if not quick or a >= 3 and (i < 3 and (t + i + a) % 3 == 0 or i >= 3 and (t * 2 + i + a * 29) % 60 == 0) or i == a == t % 7:
                    out.append([t, k, a])
    return out


inside = edit

ALPHABET = ["#", "0", "select", "from", "where", "group", "by", "order", "as", "and", "not", "(", ")", "[", "]", ",", ".", ";", "'", "=", "*", "-", "case", "end", "in", "between", "is", "join", "on", "using", "union", "all", "with", "null", "over", "limit", "except", "each", "interval", "cast"]


def cases_edit(quick):
    return [[t, k] for t in range(len(TEMPLATES)) for k in ("delete", "double", "swap", "replace", "insert")]


def short(ctx, case):
    """Any few tokens."""
    prefix, n = case
    parts = list(prefix)
    for _ in range(n):
        parts.append(ctx.pick(ALPHABET))
    answer(ctx, write(ctx, parts), parts[0] not in ("select", "with"))


def cases_short(quick):
    n = 2 if quick else 3
    out = [[[], n], [["select"], n], [["with"], n]]
    heads = ["select #", "select # from", "select # from #", "select # where #", "select # group by", "select # order by #", "select # from # join", "with # as", "with # as (", "select case", "select # (", "select (", "select cast (", "select # over (", "select # between", "select array_agg ( #", "select * except", "select # union", "select # limit 0", "select unnest (", "select # from unnest (", "select ["]
    return out + [[h.split(" "), n] for h in heads]
