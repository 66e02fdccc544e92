"""C26: the verdict on a statement is that on its formatted text, and on other ways to write it."""
import importlib

import sqlvalidator

from harness import c10, c11, c12, c13, c14, c25
from harness.common import *

WORDS = set(
    """select distinct from where group each by having order limit offset join inner left right full outer cross on using and or not in is null
    true false between like case when then else end as asc desc nulls first last union all intersect except with recursive over partition filter
    exists unnest rollup replace cast extract count sum array_agg interval date""".split()
)


def layout(ctx, sql, way):
    """The same statement in other letters and with other whitespace."""
    out = ""
    prev = None
    n = 0
    for t in lex(sql):
        text = t.text
        if way != 1 and t.kind == "w" and all(char(c) for c in cells(text)) and text.lower() in WORDS and (prev is None or prev.text != "."):
            n += 1
            if way == 0:
                text = text.upper() if text == text.lower() else text.lower()
            elif way == 2:
                text = text[0].upper() + text[1:].lower()
            else:
                text = text.upper() if n % 2 else text[0].lower() + text[1:].upper()
        if prev is not None and 0 < way < 4 and (t.gap or t.text in ("(", ")", ",") and prev.text not in ("(", ")", ",")) and not (t.text == "(" and not t.gap):
            text = "\n\t" + text
        elif prev is not None:
            text = t.gap + text
        out = out + text
        prev = t
    return out


def errors(ctx, sql):
    query = sqlvalidator.parse(sql)
    try:
        valid = query.is_valid()
    except Exception as e:
        ctx.fail(["validation raised", type(e).__name__, sql])
    ctx.require(valid == (len(query.errors) == 0), ["valid with errors, or invalid without", sql])
    return list(query.errors)


def h(ctx, case):
    mod, fn, inner, way = case

    def compare(ctx, sql):
        first = errors(ctx, sql)
        if way == 3:
            try:
                other = sqlvalidator.format_sql(sql)
            except Exception:
                ctx.observe("not formatted", True)
                return
        else:
            other = layout(ctx, sql, way)
        second = errors(ctx, other)
        ctx.observe("errors", first)
        ctx.require(first == second, ["another verdict on the same statement written differently", sql, first, other, second])

    ctx.on_verdict = compare
    {"c10": c10, "c11": c11, "c12": c12, "c13": c13, "c14": c14}[mod].__dict__[fn](ctx, inner)


def cases(quick):
    out = []
    for mod, fn, one in FUNCTIONS:
        m = importlib.import_module("harness." + mod)
        cs = getattr(m, "cases" if fn == "h" else "cases_" + fn)(True)
        for i, c in enumerate(cs):
            if mod == "c12" and fn == "computed" and quick and i > 1:
                continue
            for way in range(5):
                if not quick or (i * 7919 + way * 104729) % 10007 % one == 0:
                    out.append([mod, fn, c, way])
    return out


# every how many of the cases are taken for the quick check
FUNCTIONS = [("c10", "h", 19), ("c10", "nested", 7), ("c11", "h", 13), ("c12", "h", 7), ("c12", "computed", 5), ("c13", "one", 19), ("c13", "several", 47), ("c13", "deep", 17), ("c14", "one", 11), ("c14", "chain", 17), ("c14", "parens", 9)]
