"""C07: keywords and function names in upper case, identifiers as they were written."""
from harness import gen
from harness.common import *
from harness.c01 import expected


def compare(ctx, toks, sql, out):
    got = lex(out)
    exp = expected(toks)
    ctx.require(got is not None and len(got) == len(exp), ["number of tokens", sql, out])
    for (kind, text, role), t in zip(exp, got):
        want = text.upper() if kind in "KFB" else text
        ctx.require(t.text == want, ["letter case", text, t.text, sql, out])


def h(ctx, case):
    toks = gen.make(ctx, case)
    sql = "".join(
        t if tok is None or tok[0] not in "KB" else ctx.kw(t) for tok, t in gen.pieces(toks)
    )
    out = fmt(ctx, sql)
    ctx.observe("formatted", out)
    compare(ctx, toks, sql, out)


# words which are keywords at some place and names elsewhere
SOFT = (
    "first last count filter ignore respect partition unbounded preceding following current row rows range date time"
    " timestamp datetime interval day month year hour week quarter int float string int64 array_agg timestamp_trunc"
    " extract lateral natural window values recursive array exists unnest rollup using contains replace all each"
).split()
NOT_COLUMN = "all".split()  # and what is taken for something else at a place
BAD = {
    "select z1 from @ where z2": "unnest",
    "select z1 from z2.@ where z3": "each",
    "select z1, @.* from @": "unnest",
    "select z1 from z2 join z3 on @ = z4": "each",
    "select z1 from z2 join z3 on z5.z6 = z4.@ where z7": "each",
    "select z1 @, z2 from z3": "over contains replace",
    "select z1 from @": "unnest",
    "select z1 from @ as z2 join z3 on z4": "unnest",
    "select z1 from @ as z2": "unnest",
    "select z1 from z2 @": "contains replace each",
    "select z1 from z2 as @": "each",
    "select z1 from z2 @ where z3": "contains replace each",
    "select z1 from z2 join @ on z3 = z4": "unnest each",
    "select z1 from z2 group by @": "rollup",
    "select z1, sum(z2) over (partition by @ order by z3) from z4": "rows range",
    "select z1, sum(z2) over (partition by z5 order by @, z3) from z4": "rows range",
    "with @ as (select z1 from z2) select z3 from @": "unnest recursive",
}
NAMES = [
    "select @ from z1", "select @", "select z1, @ from z2", "select z1.@ from z1", "select @.z1 from z2", "select z1 as @ from z2",
    "select z1 as @, z3 from z2", "select z1 from z2 as @", "select z1 from @ as z2", "select z1 from @ where z2",
    "select z1 from z2.@ where z3", "select z1 from z2 where @ = 1 and z3", "select z1 from z2 where z3 = @ and z4",
    "select z1 from z2 where z3 = 1 or @ group by z4", "select z1 from z2 where @", "select z1 from z2 group by @", "select z1 from z2 group by z3, @ having z4",
    "select z1 from z2 order by @", "select z1 from z2 order by @ desc, z3", "select z1 from z2 order by z3, @ limit 1", "select f(@) from z1", "select f(z1, @, z2) from z3",
    "select z1 + @ from z2", "select @ - z1, z2 from z3", "select z1 || @ from z3", "select case when @ then z1 end from z2", "select case z1 when z2 then @ else z3 end from z4",
    "select case @ when z1 then z2 else @ end z4 from z3", "select z1 from z2 join z3 on @ = z4", "select z1 from z2 join z3 on z5.z6 = z4.@ where z7", "select z1 from z2 join z3 using (@)",
    "select z1 from z2 join z3 using (z4, @) where z5", "select z1 from z2 where @ in (1, z3)", "select z1 from z2 where z3 in (z4, @)", "select z1 from z2 where @ is not null",
    "select z1 from z2 where @ between 1 and 2", "select z1 from z2 where z3 between @ and z4", "select z1 from z2 where @ like 'x' and z3", "with @ as (select z1 from z2) select z3 from @",
    "select (@) from z1", "select (@ + 1), z2 from z1", "select cast(@ as date) from z1", "select distinct @, z2 from z1", "select z1, sum(z2) over (partition by @ order by z3) from z4",
    "select z1, sum(z2) over (partition by z5 order by @, z3) from z4", "select * except (@) from z1", "select * except (z2, @), z3 from z1", "select * replace (z1 as @) from z2",
    "select z1 from (select @ from z2) z3", "select z1 from (select z4 as @, z5 from z2) as @ where z3", "select z1 from z2 where z3 in (select @ from z4)", "select z1 from (z2 join z3 using (@)) as z4",
    "select z1[@] from z2", "select [z1, @] from z2", "select z1 from z2 union all select @ from z3", "select z1, @.* from @", "select not @ from z1", "select - @, z1 from z2",
    "select array_agg(z1 order by @ limit 1) from z2", "select count(distinct @) from z1",
]
CALLS = ["select @(z1) from z2", "select z1, @(z2, 1) as z3 from z4", "select z1 from z2 where @(z3) = 1 and z4", "select z1 from z2 group by @(z3), z4", "select z1 from z2 order by @(z3) desc",
         "select z1 + @(z2) from z3", "select f(@(z1), 2) from z2", "select case when @(z1) then @(z2) end from z3", "select @(z1) over (partition by z2 order by z3) from z4", "select z1 from z2 join z3 on @(z4) = z5"]
CALLED = "first last date time timestamp datetime day month year hour week quarter row range string float int int64 current replace left right array contains respect values unbounded".split()


def name(ctx, template):
    """A name which may be one of the keywords keeps its letters."""
    ctx.soft([w for w in SOFT if w not in NOT_COLUMN and w not in BAD.get(template, "").split()])
    w = ctx.word(1, 12)
    plain(ctx, template, w, w)


def call(ctx, template):
    # LEFT and RIGHT in ON are a recorded finding
    ctx.soft([w for w in CALLED if " on " not in template or w not in ("left", "right")])
    w = ctx.word(1, 12)
    plain(ctx, template, w, w.upper())


def plain(ctx, template, w, printed):
    sql = template.replace("@", w)
    out = fmt(ctx, sql)
    ctx.observe("formatted", out)
    got = lex(out)
    parts = lex(template)
    ctx.require(got is not None and len(got) == len(parts), ["number of tokens", sql, out])
    for p, t in zip(parts, got):
        if p.text == "@":
            ctx.require(t.text == printed, ["name changed", w, t.text, sql, out])
        elif p.kind == "w" and not p.text[0] == "z":
            ctx.require(t.text == p.text.upper(), ["keyword", p.text, t.text, sql, out])
        else:
            ctx.require(t.text == p.text, ["token changed", p.text, t.text, sql, out])
    again = fmt(ctx, out)
    ctx.require(again == out, ["formatting again changes the text", sql, out, again])


def cases(quick):
    if not quick:
        return gen.FAMILIES
    return [c for c in gen.FEW if c.get("ctx", "item") in ("item", "item2alias", "where", "on", "group2", "order", "withq", "casewhen")]


def cases_name(quick):
    return NAMES


def cases_call(quick):
    return CALLS
