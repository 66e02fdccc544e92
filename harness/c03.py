"""C03: quoted text is opaque and kept verbatim."""
from harness.common import *

PRINTABLE = "".join(chr(i) for i in range(32, 127)) + "\t"

# @ stands for the literal
VALUES = [
    "select @ from t",
    "select a, @, b from t",
    "select @ as b, c from t",
    "select f(@) from t",
    "select f(a, @, b) over (partition by @2 order by c) from t",
    "select a from t where b = @ and c > 1",
    "select a from t where @ <> b or c",
    "select a from t where b in (@, c) and d is null",
    "select a from t where b not like @ group by c",
    "select a from t where b between @ and c order by a",
    "select case when a = @ then b else c end from t",
    "select case a when @ then b when c then @2 end, d from t",
    "select case when a then @ else @2 end as x from t where y",
    "select a from t group by @, b having c = d",
    "select a from t group by b having c = @ order by d",
    "select a from t order by @ desc, b limit 1",
    "select a from t left join u on a = @ and b = c where d",
    "select a || @ || b from t",
    "select (@) from t",
    "select [@, a] from t",
    "select a[@] from t",
    "select date @ from t",
    "select cast(@ as date) from t",
    "select array_agg(a order by @ limit 1) from t",
    "select a from (select @ as b from t where c = d) as u where b = c",
    "with q as (select @ from t), r as (select a from q) select b from r",
    "select a from t where b in (select @ from u where c = d)",
    "select count(distinct @) filter (where a = b) from t",
    "select not @ and b from t",
    "select @ union all select a",
    "select a, (select @ from u) as c from t;",
    "select distinct on (@) a from t",
    "select a from t where (b = @ or c) and d limit 1 offset 2",
    "select - a + @ * b from t",
]
NAMES = [
    "select @.a from t",
    "select t.@ as b from t",
    "select a as @ from t",
    "select a from @ where b = c",
    "select a from t as @ join u on b = c",
    "select a from t join @ as u using (c) where d",
    "select a from t.@ where b group by c",
    "select a from t left join u using (@, b) order by c",
    "select * except (@, a) from t",
    "select a from (select b from u) as @ where c",
    "select a from (t join @ using (b)) c",
    "select a from t, @ u where b",
    "select a from @ union all select b from u",
]


def units(ctx, q, n, special):
    """n characters of content; special: index of a doubled or escaped one, or -1."""
    dom = "".join(c for c in PRINTABLE if c != q and c != "\\")
    out = ""
    for i in range(n):
        if i == special:
            k = ctx.choose(3)
            if k == 0:
                out = out + q + q
            elif k == 1:
                out = out + "\\" + ctx.ch(PRINTABLE)
            else:
                out = out + ctx.ch("\n" + " ")
        else:
            out = out + ctx.ch(dom)
    return out


def h(ctx, case):
    """case: template index, quote with prefix, number of characters, special character."""
    template, opening, n, special = case
    q = opening[-1]
    content = units(ctx, q, n, special)
    lit = opening + content + q
    neutral = opening + "z" * len(cells(content)) + q
    other = "'kept'"
    sql = template.replace("@2", other).replace("@", lit)
    plain = template.replace("@2", other).replace("@", neutral)
    out = fmt(ctx, sql)
    ctx.observe("formatted", out)
    ref = fmt(ctx, plain)
    ctx.require(out == ref.replace(neutral, lit), ["the content of the literal matters", sql, out, ref])
    a = [t.text.upper() if t.kind != "q" else t.text for t in lex(sql)]
    got = lex(out)
    ctx.require(got is not None and len(got) == len(a), ["tokens", sql, out])
    for x, t in zip(a, got):
        y = t.text if t.kind == "q" else t.text.upper()
        ctx.require(x == y, ["token changed", x, y, sql, out])


def cases(quick):
    out = []
    for i, t in enumerate(VALUES):
        for o in ("'", '"', "r'", "`"):
            if o != "'" and "date @" in t:
                continue
            if quick and o != "'" and i % 3 != (1 if o == '"' else 2 if o == "`" else 0):
                continue
            for n in range(0, 6 if quick else 8):
                out.append([t, o, n, -1])
            for n in (1, 2) if quick else (1, 2, 3):
                for s in range(n):
                    out.append([t, o, n, s])
    for i, t in enumerate(NAMES):
        for n in range(1, 6 if quick else 8):
            out.append([t, "`", n, -1])
        for n in (1, 2) if quick else (1, 2, 3):
            for s in range(n):
                out.append([t, "`", n, s])
    return out
