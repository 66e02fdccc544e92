"""C01: formatting preserves the sequence of tokens."""
from harness import gen
from harness.common import *


def expected(toks):
    """The tokens the reference lexer finds in a text of these tokens."""
    out = []
    for kind, text, role in toks:
        for i, t in enumerate(lex(text)):
            out.append((kind, t.text, role if i == 0 else None))
    return out


def compare(ctx, toks, sql, out):
    got = lex(out)
    exp = expected(toks)
    ctx.require(got is not None, ["a quote is not closed in the formatted text", sql, out])
    ctx.require(len(got) == len(exp), ["number of tokens", sql, out])
    for (kind, text, role), t in zip(exp, got):
        if kind in "KFB":
            ctx.require(t.text.upper() == text.upper(), ["token changed", text, t.text, sql, out])
        else:
            ctx.require(t.text == text, ["token changed", text, t.text, sql, out])
    return got


def h(ctx, case):
    toks = gen.make(ctx, case)
    sql = gen.render(toks)
    out = fmt(ctx, sql)
    ctx.observe("formatted", out)
    compare(ctx, toks, sql, out)
