"""C15: validation answers, is consistent and independent of the order of calls."""
import sqlvalidator

from harness import gen
from harness.common import *


def asked(ctx, query, sql):
    try:
        valid = query.is_valid()
    except Exception as e:
        ctx.fail(["validation raised", type(e).__name__, sql])
    ctx.require(valid is True or valid is False, ["not a bool", sql])
    errors = query.errors
    ctx.require(type(errors) is list, ["not a list", sql])
    ctx.require(valid == (len(errors) == 0), ["valid but with errors, or invalid without", sql, errors])
    return valid, list(errors)


def same(ctx, sql, way):
    """Validate, validate, format one object; format, validate, format, validate another one."""
    reference = fmt(ctx, sql)
    a = sqlvalidator.parse(sql)
    b = sqlvalidator.parse(sql)
    v1, e1 = asked(ctx, a, sql)
    if way == 0:
        v2, e2 = asked(ctx, a, sql)
        ctx.require(v1 == v2 and e1 == e2, ["another answer when asked again", sql, e1, e2])
        f1 = a.format()
        ctx.require(f1 == reference, ["formatted differently after validation", sql, f1, reference])
        v3, e3 = asked(ctx, a, sql)
        ctx.require(v1 == v3 and e1 == e3, ["another answer after formatting", sql, e1, e3])
    else:
        f2 = b.format()
        ctx.require(f2 == reference, ["formatted differently through the query object", sql, f2, reference])
        v4, e4 = asked(ctx, b, sql)
        ctx.require(v1 == v4 and e1 == e4, ["another answer when formatted first", sql, e1, e4])
        ctx.require(b.format() == reference, ["formatted differently the second time", sql])
    ctx.observe("answer", [v1, e1])


def h(ctx, case):
    toks = gen.make(ctx, case)
    way = case.get("way")
    same(ctx, gen.render(toks), ctx.choose(2) if way is None else way)


def cases(quick):
    if not quick:
        return gen.FAMILIES
    out = []
    for i, c in enumerate(gen.QUICK):
        if c["fam"] == "expr":
            out.append(dict(c, few=1, way=i % 2))
        elif c == {"fam": "clauses", "part": 0}:
            out.append(dict(c, lite=1))
        elif c.get("part") in ("chain", "deep", "unions"):
            out.append(dict(c, plain=1, way=i % 2))
            out.append(dict(c, plain=1, way=1 - i % 2))
        else:
            out.append(dict(c, way=i % 2))
    return out
