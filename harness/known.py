"""Recorded findings: each probe must still fail on the real code."""
import sqlvalidator
from harness.c01 import *


def probe(ctx, case):
    kind = case["kind"]
    if kind == "tokens":
        # tokens of the text are kept
        out = sqlvalidator.format_sql(case["sql"])
        a = [t.text.upper() for t in lex(case["sql"])]
        b = [t.text.upper() for t in lex(out)]
        ctx.require(a == b, ["tokens changed", case["sql"], out])
    elif kind == "exact":
        out = sqlvalidator.format_sql(case["sql"])
        ctx.require(case["text"] in out, ["literal changed", case["sql"], out])
    elif kind == "formats":
        try:
            sqlvalidator.format_sql(case["sql"])
        except Exception as e:
            ctx.fail(["formatting raised", type(e).__name__, case["sql"]])
    else:
        raise ValueError(kind)
