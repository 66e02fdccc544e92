"""C28: a query is laid out the same way wherever it stands."""
from harness import gen
from harness.common import *

# text around the query, the formatted text around it, and how far it is indented
WAYS = {
    "from": ("select * from (", ")", "SELECT *\nFROM (\n", "\n)", 1),
    "from where": ("select a, b from (", ") where a = 1", "SELECT\n a,\n b\nFROM (\n", "\n)\nWHERE a = 1", 1),
    "from alias": ("select * from (", ") as x group by 1", "SELECT *\nFROM (\n", "\n) AS x\nGROUP BY 1", 1),
    "from twice": ("select * from (select * from (", ") x) limit 1", "SELECT *\nFROM (\n SELECT *\n FROM (\n", "\n ) x\n)\nLIMIT 1", 2),
    "with": ("with x as (", ") select * from x", "WITH x AS (\n", "\n)\nSELECT *\nFROM x", 1),
    "with second": ("with y as (select 1), x as (", ") select * from x", "WITH y AS (\n SELECT 1\n),\nx AS (\n", "\n)\nSELECT *\nFROM x", 1),
    "with last": ("with x as (select 1) ", "", "WITH x AS (\n SELECT 1\n)\n", "", 0),
    "join": ("select * from t join (", ") as x using (a)", "SELECT *\nFROM t\nJOIN (\n", "\n) AS x\nUSING (a)", 1),
    "join left": ("select * from (", ") x left join t on a = b", "SELECT *\nFROM (\n", "\n) x\nLEFT JOIN t\nON a = b", 1),
    "union": ("select 1 union all ", "", "SELECT 1\nUNION ALL\n", "", 0),
    "union left": ("", " union all select 1", "", "\nUNION ALL\nSELECT 1", 0),
    "select": ("select (", ")", "SELECT (\n", "\n)", 1),
    "select list": ("select a, (", ") as b, c from t", "SELECT\n a,\n (\n", "\n ) AS b,\n c\nFROM t", 2),
    "where": ("select a from t where b in (", ")", "SELECT a\nFROM t\nWHERE\n b IN (\n", "\n )", 2),
    "having": ("select a from t group by 1 having b not in (", ") order by 1", "SELECT a\nFROM t\nGROUP BY 1\nHAVING\n b NOT IN (\n", "\n )\nORDER BY 1", 2),
    "comparison": ("select a from t where b = (", ")", "SELECT a\nFROM t\nWHERE\n b = (\n", "\n )", 2),
}
# a WITH statement may stand here
WITH = ("from", "from where", "from alias", "from twice", "with", "with second", "join", "join left")


def indented(toks, n):
    """The lines of the text of the tokens, moved to the right, but not the lines of a literal."""
    out = " " * n
    for t in toks:
        out = out + t.gap.replace("\n", "\n" + " " * n) + t.text
    return out


def h(ctx, case):
    way, fam = case
    toks = gen.make(ctx, fam)
    if toks[-1][1] == ";":
        toks = toks[:-1]
    if way not in WITH and toks[0][1].lower() == "with":
        return
    sql = gen.render(toks)
    alone = fmt(ctx, sql)
    got = lex(alone)
    if got is None:
        return
    before, after, left, right, n = WAYS[way]
    out = fmt(ctx, before + sql + after)
    ctx.observe("formatted", out)
    want = left + indented(got, n) + right
    ctx.require(out == want, ["a query is laid out in another way inside of another one", before + sql + after, out, want])


def cases(quick):
    out = []
    for i, fam in enumerate(gen.FEW if quick else gen.FAMILIES):
        for j, way in enumerate(WAYS):
            if quick and fam["fam"] in ("expr", "clauses") and (i * 5 + j * 3) % 16 > (i % 2 == 0 or fam["fam"] == "clauses"):
                continue
            if quick and fam["fam"] not in ("expr", "clauses") and (i + j) % 4:
                continue
            out.append([way, fam])
    return out
