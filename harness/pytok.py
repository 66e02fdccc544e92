"""Tokens of Python source, as the standard tokenizer gives them (executed symbolically; compared with
the real one in each replayed path)."""
import token as T
import tokenize

from harness.common import atom, cells, char, is_ident

PREFIX = "rRbBuUfF"
OPS2 = ("==", "!=", "<=", ">=", "->", "+=", "-=", "**", "//", ":=", "<<", ">>")


def generate(readline):
    lines = []
    while True:
        try:
            line = readline()
        except StopIteration:
            break
        if not line:
            break
        lines.append(line)
    for t in tokens("".join(lines)):
        yield tokenize.TokenInfo(*t)


def width(cs, i, j):
    return len("".join(cs[i:j]))


def tokens(text):
    cs = cells(text)
    n = len(cs)
    out = []
    # physical lines
    starts = [0]
    for k in range(n):
        if char(cs[k]) and cs[k] == "\n":
            starts.append(k + 1)

    def pos(k):
        row = 0
        while row + 1 < len(starts) and starts[row + 1] <= k:
            row += 1
        return row + 1, width(cs, starts[row], k)

    def line(k, j):
        a = pos(k)[0] - 1
        b = pos(j)[0] - 1
        end = starts[b + 1] if b + 1 < len(starts) else n
        return "".join(cs[starts[a] : end])

    def emit(kind, k, j):
        out.append((kind, "".join(cs[k:j]), pos(k), pos(j) if kind not in (T.NEWLINE, T.NL) else (pos(k)[0], pos(k)[1] + 1), line(k, j - 1 if j > k else k)))

    def plain(k, chars):
        return k < n and char(cs[k]) and cs[k] in chars

    i = 0
    depth = 0
    indents = [0]
    fresh = True  # at the start of a logical line
    blank = True  # nothing on this line yet
    while i < n:
        if fresh and depth == 0:
            j = i
            while plain(j, " \t\f"):
                j += 1
            if plain(j, "#\n") or j == n:
                blank = True
            else:
                w = j - i
                if w > indents[-1]:
                    indents.append(w)
                    out.append((T.INDENT, "".join(cs[i:j]), (pos(i)[0], 0), (pos(i)[0], w), line(i, j)))
                while w < indents[-1]:
                    indents.pop()
                    if w > indents[-1]:
                        raise IndentationError("unindent does not match any outer indentation level")
                    out.append((T.DEDENT, "", (pos(j)[0], w), (pos(j)[0], w), line(j, j)))
                blank = False
            fresh = False
            i = j
            continue
        if plain(i, " \t\f"):
            i += 1
            continue
        if plain(i, "\\") and plain(i + 1, "\n"):
            i += 2
            continue
        if plain(i, "\n"):
            if blank or depth:
                emit(T.NL, i, i + 1)
            else:
                emit(T.NEWLINE, i, i + 1)
            i += 1
            fresh = depth == 0
            blank = True
            continue
        if plain(i, "#"):
            j = i
            while j < n and not plain(j, "\n"):
                j += 1
            emit(T.COMMENT, i, j)
            i = j
            continue
        blank = False
        # strings
        j = i
        while j < n and j - i < 3 and plain(j, PREFIX):
            j += 1
        if plain(j, "'\""):
            q = cs[j]
            three = plain(j + 1, q) and plain(j + 2, q)
            f = any(c in "fF" for c in cs[i:j])
            b = k = j + 3 if three else j + 1
            while True:
                if k >= n:
                    if f:
                        raise tokenize.TokenError("unterminated triple-quoted f-string literal", (1, 0))
                    raise tokenize.TokenError("unterminated string literal", (1, 0))
                if plain(k, "\\"):
                    k += 2
                    continue
                if plain(k, "\n") and not three:
                    raise tokenize.TokenError("unterminated string literal", (1, 0))
                if plain(k, q) and (not three or plain(k + 1, q) and plain(k + 2, q)):
                    break
                k += 1
            e = k + (3 if three else 1)
            if f:
                emit(T.FSTRING_START, i, b)
                if k > b:
                    emit(T.FSTRING_MIDDLE, b, k)
                emit(T.FSTRING_END, k, e)
            else:
                emit(T.STRING, i, e)
            i = e
            continue
        if is_ident(cs[i]):
            j = i
            number = atom(cs[i]) == "num" or cs[i] in "0123456789"
            while j < n and is_ident(cs[j]):
                j += 1
            emit(T.NUMBER if number else T.NAME, i, j)
            i = j
            continue
        if plain(i, "([{"):
            depth += 1
        elif plain(i, ")]}"):
            depth -= 1
        j = i + 1
        if plain(i + 1, "=->*/<") and cs[i] + cs[i + 1] in OPS2:
            j = i + 2
        emit(T.OP, i, j)
        i = j
    if depth > 0:
        raise tokenize.TokenError("unexpected EOF in multi-line statement", (1, 0))
    if n and not plain(n - 1, "\n"):
        row, col = pos(n)
        if blank:
            out.append((T.NL, "", (row, col), (row, col + 1), line(n - 1, n - 1)))
        else:
            out.append((T.NEWLINE, "", (row, col), (row, col + 1), line(n - 1, n - 1)))
        last = row + 1
    else:
        last = len(starts)
    for _ in indents[1:]:
        out.append((T.DEDENT, "", (last, 0), (last, 0), ""))
    out.append((T.ENDMARKER, "", (last, 0), (last, 0), ""))
    return out


def same_as_real(text):
    """Whether the real tokenizer gives the same tokens (concrete texts only)."""
    import io

    try:
        real = [tuple(t) for t in tokenize.generate_tokens(io.StringIO(text).readline)]
    except (tokenize.TokenError, IndentationError, SyntaxError) as e:
        real = type(e).__name__
    try:
        ours = [tuple(t) for t in tokens(text)]
    except (tokenize.TokenError, IndentationError, SyntaxError) as e:
        ours = type(e).__name__
    return real == ours, real, ours
