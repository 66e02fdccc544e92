"""C08: numbers are printed as they were written."""
from harness.common import *

DIGITS = "0123456789"
TEMPLATES = [
    "select @ from z1", "select @", "select z1, @, z2 from z3", "select @ as z1 from z2", "select @ z1, z2 from z3", "select f(@) from z1", "select f(z1, @) from z2",
    "select z1 from z2 where z3 = @", "select z1 from z2 where @ < z3 and z4", "select z1 from z2 where z3 in (@, 1)", "select z1 from z2 where z3 in (z4, @)",
    "select z1 from z2 where z3 between @ and z4", "select z1 from z2 where z3 not between z4 and @ or z5", "select z1 from z2 group by @", "select z1 from z2 group by z1, @",
    "select z1 from z2 order by @ desc", "select z1 from z2 order by z1, @", "select z1 from z2 limit @", "select z1 from z2 limit 1 offset @", "select z1 from z2 having z3 > @",
    "select z1 + @ from z2", "select @ * z1, z2 from z3", "select z1 / @ as z4 from z2", "select z1 % @ from z2", "select z1 || @ from z2", "select (@) from z1", "select (z1 + @) * @2 from z3", "select z1[@] from z2",
    "select [@, @2] from z1", "select case when z1 = @ then @2 else z2 end from z3", "select case z1 when @ then z2 end from z3", "select cast(@ as date) from z1",
    "select z1 from z2 join z3 on z4 = @ where z5", "select z1 from (select @ as z2 from z3) where z4", "select z1 from z2 where z3 in (select @ from z4)", "select count(distinct @) from z1",
    "select array_agg(z1 limit @) from z2", "select sum(@) over (partition by @2 order by z1) from z2", "select distinct on (@) z1 from z2", "select z1 from unnest([@, 2]) as z3", "with z1 as (select @) select z2 from z1",
    "select * replace (@ as z1) from z2", "select z1 from z2 where not @ = z3", "select @ union all select @2", "select f(z1) filter (where z2 > @) from z3", "select z1 & @ from z2", "select z1 << @ from z2", "select z1 from z2 where @ is null",
    "select z1 from z2 where @ like z3",
]
SIGNED = [t for t in TEMPLATES if "z1 limit @" not in t]  # where a negative number or a decimal may stand


def check(ctx, template, text):
    other = "42"
    sql = template.replace("@2", other).replace("@", text)
    out = fmt(ctx, sql)
    ctx.observe("formatted", out)
    neutral = template.replace("@2", other).replace("@", "77")
    # the same statement with another number in its place
    ref = fmt(ctx, neutral)
    ctx.require(out == ref.replace("77", text) or long(out, ref, text), ["the number is printed differently", text, sql, out])


def long(out, ref, text):
    """A long number may make a condition or a call wrap."""
    a = " ".join(out.split())
    b = " ".join(ref.replace("77", text).split())
    return len(ref) + len(text) > 80 and a.replace("( ", "(").replace(" )", ")") == b.replace("( ", "(").replace(" )", ")")


def integers(ctx, template):
    """Any integer, with leading zeros."""
    zeros = ctx.pick(["", "0", "000"])
    check(ctx, template, zeros + ctx.num(0, 10**30))


def negative(ctx, template):
    n = ctx.pick(["", "0"]) + ctx.num(0, 10**20)
    check(ctx, template, "-" + n)


def digits(ctx, case):
    """Digits of any value, with a dot at any place."""
    template, n, dot, sign = case
    text = sign
    for i in range(n):
        if i == dot:
            text = text + "."
        text = text + ctx.ch(DIGITS)
    if dot == n:
        text = text + "."
    check(ctx, template, text)


def cases_integers(quick):
    return TEMPLATES


def cases_negative(quick):
    return SIGNED


def cases_digits(quick):
    out = []
    for t in SIGNED:
        for n in (1, 2, 4, 20) if quick else (1, 2, 3, 5, 8, 40):
            for dot in range(-1, n + 1):
                if dot == 0 and not quick:
                    continue
                for sign in ("", "-"):
                    if dot == 0 or (quick and sign and dot not in (1, 2)):
                        continue
                    out.append([t, n, dot, sign])
    return out
