"""C04: the formatted text does not depend on whitespace between tokens and on the case of keywords."""
from harness import gen
from harness.common import *


def wordlike(t, first):
    """Whether a token ends (starts) with a character of a word."""
    k, text, r = t
    if k in "KFBIN":
        return not (k == "N" and text == "-")
    if k == "S":
        return first and text[0] == "r"
    return False


def dense(toks):
    """No whitespace but where two tokens would run together."""
    out = []
    prev = None
    for t in toks:
        if prev is not None:
            a = wordlike(prev, False) and wordlike(t, True)
            b = prev[0] == "S" and t[0] == "S"
            c = prev[0] in "KI" and t[0] == "S"  # could be taken for a prefix
            d = prev[0] in "PN" and t[0] in "PN" and prev[1] in OPS and t[1] in OPS
            e = prev[0] == "S" and t[0] in "IFN"
            f = prev[0] == "P" and prev[1] in SPACED or t[0] == "P" and t[1] in SPACED
            if a or b or c or d or e or f:
                out.append(" ")
        out.append(t[1])
        prev = t
    return "".join(out)


OPS = ("<", ">", "=", "!", "|", "-", "+", "*", "/", "%", "&", "<=", ">=", "<>", "!=", "||", "<<", ">>")
SPACED = ("%", "&")  # no token of their own: they occur in placeholders


def loose(toks, ws):
    """Whitespace between any two tokens, and around them."""
    return ws + ws.join(t[1] for t in toks) + ws


def cases_of(ctx, case):
    toks = gen.make(ctx, case)
    return toks, gen.render(toks)


def letters(ctx, case):
    toks, sql = cases_of(ctx, case)
    out = fmt(ctx, sql)
    ctx.observe("formatted", out)

    other = "".join(
        t if tok is None else t.upper() if tok[0] == "F" else ctx.kw(t) if tok[0] in "KB" else t
        for tok, t in gen.pieces(toks)
    )
    out2 = fmt(ctx, other)
    ctx.require(out2 == out, ["the case of keywords matters", sql, other, out, out2])


def spaces(ctx, case):
    toks, sql = cases_of(ctx, case)
    out = fmt(ctx, sql)
    ctx.observe("formatted", out)
    if case["mode"] == "dense":
        other = dense(toks)
    elif case["mode"] == "one":
        ws = ctx.pick(SPACE)
        other = loose(toks, ws)
    else:
        ws = ctx.ch(SPACE) + ctx.ch(SPACE)
        other = gen.render(toks).replace(" ", ws)
    out2 = fmt(ctx, other)
    ctx.require(out2 == out, ["whitespace matters", sql, other, out, out2])


def gap(ctx, case):
    """One gap of arbitrary whitespace anywhere in the statement."""
    toks, sql = cases_of(ctx, case)
    out = fmt(ctx, sql)
    i = ctx.choose(len(toks) + 1)
    n = ctx.choose(case["n"] + 1)
    ws = ctx.body(n, SPACE)
    parts = []
    prev = None
    for j, t in enumerate(toks):
        if j == i and not (prev is not None and prev[1] == "r"):
            parts.append(ws)
        if not gen.glue(prev, t) and not (j == i and n > 0):
            parts.append(" ")
        parts.append(t[1])
        prev = t
    if i == len(toks):
        parts.append(ws)
    other = "".join(parts)
    out2 = fmt(ctx, other)
    ctx.require(out2 == out, ["whitespace matters", sql, other, out, out2])
    ctx.observe("formatted", out2)


QCTX = ("item", "item2alias", "where", "having", "on", "order2", "insub", "fromsub", "casewhen")


def quick_cases():
    return [c for c in gen.FEW if c.get("ctx", "item") in QCTX]


def cases_letters(quick):
    return quick_cases() if quick else gen.FAMILIES


def cases_spaces(quick):
    out = [dict(c, mode="dense") for c in (quick_cases() if quick else gen.FAMILIES)]
    small = [c for c in gen.FEW if c.get("ctx") in (("wherea",) if quick else ("item", "wherea", "on", "order2"))
             or c.get("part") in ("union", "with", "unnest", "tables") or not quick and c["fam"] == "nested" and c["part"] != "unions"]
    out += [dict(c, mode="one") for c in small]
    out += [dict(c, mode="two") for c in (small if not quick else [])]
    return out


TINY = [{"fam": "nested", "part": "union"}, {"fam": "nested", "part": "with"}, {"fam": "from", "part": "unnest"}]


def cases_gap(quick):
    return [dict(c, n=1 if quick else 3) for c in (TINY[:1] if quick else TINY)]
