"""C09: splitting a text into tokens loses nothing."""
from sqlvalidator.grammar.tokeniser import to_tokens

from harness.common import *

ALONE = "()[],;"
OPS = "<>=!|"


def segments(cs):
    """(kind, text): quote, content or a run without whitespace, None for a gap."""
    out = []
    i = 0
    n = len(cs)
    run = ""
    while i < n:
        c = cs[i]
        if c in SPACE or c in QUOTES:
            if run != "":
                out.append(("run", run))
                run = ""
            if c in SPACE:
                out.append((None, ""))
                i += 1
                continue
            j = closing(cs, i)
            end = n if j < 0 else j
            out.append(("quote", c))
            if end > i + 1:
                out.append(("content", "".join(cs[i + 1 : end])))
            if j >= 0:
                out.append(("quote", c))
            i = end + 1
            continue
        run = run + c
        i += 1
    if run != "":
        out.append(("run", run))
    return out


def closing(cs, i):
    j = i + 1
    while j < len(cs):
        if cs[j] == cs[i]:
            if j + 1 < len(cs) and cs[j + 1] == cs[i]:
                j += 2
                continue
            return j
        j += 1
    return -1


def check(ctx, text):
    tokens = list(to_tokens(text))
    ctx.observe("tokens", tokens)
    segs = segments(cells(text))
    whole = "".join(t for k, t in segs)
    ctx.require("".join(tokens) == whole, ["the tokens are not the text", text, tokens])
    # cut the tokens at the borders of the segments
    pos = 0
    i = 0
    for kind, t in segs:
        if kind is None:
            continue
        if kind != "run":
            ctx.require(i < len(tokens) and tokens[i] == t, ["quotes and quoted text are tokens", text, tokens])
            i += 1
            continue
        left = len(t)
        start = 0
        cs = cells(t)
        while left > 0:
            ctx.require(i < len(tokens) and tokens[i] != "", ["empty token", text, tokens])
            n = len(tokens[i])
            if n > left:
                # only an operator may reach over a gap
                ctx.require(merged_over_gap(tokens[i], text), ["a token reaches over whitespace or quotes", text, tokens])
                return
            if n > 1:
                for c in cells(tokens[i]):
                    ctx.require(c not in ALONE, ["bracket, comma or semicolon in a longer token", text, tokens])
            start += n
            left -= n
            i += 1
        operators(ctx, text, tokens, cs)
    ctx.require(i == len(tokens), ["too many tokens", text, tokens])


def merged_over_gap(t, text):
    return t in TWO


def operators(ctx, text, tokens, cs):
    """Runs of exactly two operator characters which form an operator."""
    i = 0
    n = len(cs)
    while i < n:
        if cs[i] not in OPS:
            i += 1
            continue
        j = i
        while j < n and cs[j] in OPS:
            j += 1
        if j - i == 2 and (cs[i] + cs[i + 1]) in TWO:
            want = cs[i] + cs[i + 1]
            ctx.require(want in tokens, ["a two-character operator is split", text, tokens])
        i = j


def h(ctx, case):
    alphabet, n = case
    check(ctx, ctx.body(n, alphabet))


FULL = "".join(chr(i) for i in range(32, 127) if chr(i) != "\\") + "\t\n\r\f\v"


def cases(quick):
    out = [[FULL, 1], [FULL, 2], [FULL, 3]]
    for alphabet, n, m in ALPHABETS:
        for k in range(4, m + 1):
            if not quick or k == n:
                out.append([alphabet, k])
    return out


# alphabet, length (quick), greatest length (thorough)
ALPHABETS = [
    ("'\"a (", 6, 7), ("'a \n,", 6, 7), ("`\"'<a", 5, 6), ("<>=!| a", 4, 6), ("a1. -", 5, 7), ("()[],; a", 4, 6), ("|<'= ", 5, 7), ("*/+-.1", 4, 6),
    ("<>!a\n", 5, 7),
]
