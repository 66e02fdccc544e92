"""Python files with SQL strings (executed symbolically and concretely)."""
from sqlvalidator import main

from harness import pytok
from harness.common import *


def world(ctx):
    from sx import world as W

    return W.SymWorld() if ctx.symbolic else W.ConcWorld()


def run(ctx, w, argv):
    r = w.run(main._main, argv)
    return r


def check_model(ctx, w, text):
    """The tokens the harness assumes are those of the real tokenizer (replays only)."""
    if not ctx.symbolic:
        ok, real, ours = pytok.same_as_real(text)
        ctx.observe("tokenizer agrees", ok)
    else:
        ctx.observe("tokenizer agrees", True)


def literal_end(cs, i):
    """End of the string literal which starts at i, -1 if there is none."""
    n = len(cs)
    j = i
    while j < n and j - i < 3 and char(cs[j]) and cs[j] in "rRbBuUfF":
        j += 1
    if j >= n or not char(cs[j]) or cs[j] not in "'\"":
        return -1
    q = cs[j]

    def at(k):
        return k < n and char(cs[k]) and cs[k] == q

    three = at(j + 1) and at(j + 2)
    k = j + 3 if three else j + 1
    while k < n:
        if char(cs[k]):
            if cs[k] == "\\":
                k += 2
                continue
            if cs[k] == "\n" and not three:
                return -1
            if at(k) and (not three or at(k + 1) and at(k + 2)):
                return k + (3 if three else 1)
        k += 1
    return -1


def lines_of(out):
    """Lines of an output text."""
    cs = cells(out)
    res = []
    start = 0
    for i, c in enumerate(cs):
        if char(c) and c == "\n":
            res.append("".join(cs[start:i]))
            start = i + 1
    return res
