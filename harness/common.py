"""Reference lexer and helpers shared by the harnesses (executed symbolically and concretely)."""
import sqlvalidator

SPACE = " \t\n\r\f\v"
IDENT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
QUOTES = "'\"`"
TWO = ("<>", "<=", ">=", "!=", "<<", ">>", "||")


def cells(s):
    return getattr(s, "sx_cells", None) or list(s)


def atom(c):
    return getattr(c, "sx_atom", None)


def char(c):
    """Whether a cell is one character (and no name or number)."""
    return atom(c) not in ("word", "num")


class Tok:
    """kind: w(ord or number), q(uoted: text includes the quotes), p(unctuation)"""

    def __init__(self, kind, text, start, gap):
        self.kind = kind
        self.text = text
        self.start = start
        self.gap = gap  # whitespace before the token

    def __repr__(self):
        return "%s:%r" % (self.kind, self.text)


def is_ident(c):
    a = atom(c)
    if a == "word" or a == "num":
        return True
    return c in IDENT


def lex(text):
    """Tokens of SQL text, or None when a quote is not closed."""
    cs = cells(text)
    out = []
    i = 0
    n = len(cs)
    gap = ""
    while i < n:
        c = cs[i]
        if atom(c) in ("word", "num"):
            pass
        elif c in SPACE:
            gap = gap + c
            i += 1
            continue
        elif c in QUOTES:
            j = close_quote(cs, i)
            if j < 0:
                return None
            out.append(Tok("q", "".join(cs[i : j + 1]), i, gap))
            gap = ""
            i = j + 1
            continue
        if is_ident(c):
            j = i + 1
            while j < n and is_ident(cs[j]):
                j += 1
            out.append(Tok("w", "".join(cs[i:j]), i, gap))
            gap = ""
            i = j
            continue
        if i + 1 < n and atom(cs[i + 1]) not in ("word", "num") and c in "<>!|" and (c + cs[i + 1]) in TWO:
            out.append(Tok("p", c + cs[i + 1], i, gap))
            gap = ""
            i += 2
            continue
        out.append(Tok("p", c, i, gap))
        gap = ""
        i += 1
    return out


def close_quote(cs, i):
    """Index of the quote which closes the one at i, -1 if there is none."""
    q = cs[i]
    j = i + 1
    n = len(cs)
    while j < n:
        c = cs[j]
        if atom(c) in ("word", "num"):
            j += 1
        elif c == "\\":
            j += 2
        elif c == q:
            if j + 1 < n and atom(cs[j + 1]) not in ("word", "num") and cs[j + 1] == q:
                j += 2
            else:
                return j
        else:
            j += 1
    return -1


def fmt(ctx, sql):
    """The formatted text; the failure of a supported statement to format is a violation."""
    try:
        return sqlvalidator.format_sql(sql)
    except RecursionError:
        ctx.fail(["formatting recurses endlessly", sql])
    except Exception as e:
        ctx.fail(["formatting raised", type(e).__name__, sql])
