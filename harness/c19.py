"""C19: a rewritten literal is a literal of the same kind with the formatted query."""
from sqlvalidator import format_sql

from harness.files import *

# texts of queries; @ a name
BODIES = [
    "select @",
    "SELECT @",
    "select   @ from @",
    "SELECT @\nFROM @",
    "\nSELECT @\nFROM @\n",
    "\n\n  select @,\n   @ from @ \n",
    "select @ from @;",
    "select @ as 'x'",
    'select @ as "x"',
    "select @ as `x`",
    "select @ from @ where @ = ''",
    'select @ from @ where @ = ""',
    "select '@ ''x'' '",
    'select "@ ""x"" "',
    "select '''' , \"\"\"\"",
    "  select @ from @ where @ = 'x' ",
    'select @ from @ where @ = "x"\n',
    "select 'a\n b', @ from @",
    "select @ as 'x' from @ where r'x' = @ ",
    'select @, 1 from @ where @ in ("x", \'y\')',
    "SELECT 1",
    "SELECT 'x'",
    'SELECT "x"',
    "select 1 limit",
    "select @ from",
    "Select @ \nfrom @ limit all ;",
    "select \\\n @, 'x' from @",
    "select @,\\\n@ from @ where @ = 'a\\\nb'",
    "select '\\n\\t' , @ \\n from @",
    "select '\\\\', @ from @",
    "select @ from @ where @ like '\\\\%' ",
    "select 'it\\'s', @ from @",
    'select "x\\"y", @ from @',
    "select \\\"@\\\" from @",
    "select \\'x  y\\' from @",
    "select @ from @ -- no",
    "select @ from @ where @ = '\\\\\\\n x'",
    "SELECT '\\''",
    'SELECT "\\""',
    "select '\\\\'",
]
PREFIXES = ["", "r", "R", "u", "U", "b", "B", "br", "bR", "Br", "BR", "rb", "rB", "Rb", "RB"]
PLACES = ["x = %\n", "%", "f(1, %).g([%])\n", "def f():\n    return (%\n        )  # select  x\n"]


def fill(ctx, text):
    out = ""
    for i, p in enumerate(text.split("@")):
        out = out + (ctx.word(1, 9, 0) if i else "") + p
    return out


def whole(text):
    return literal_end(cells(text), 0) == len(cells(text))


def opening(cs):
    """Prefix, quotes, content of a literal."""
    i = 0
    while cs[i] not in "'\"":
        i += 1
    q = cs[i]
    n = 3 if len(cs) >= i + 6 and is_q(cs[i + 1], q) and is_q(cs[i + 2], q) else 1
    return "".join(cs[:i]), q * n, cs[i + n : len(cs) - n]


def is_q(c, q):
    return char(c) and c == q


def value(cs, raw):
    """What a literal evaluates to, other escapes than those of quotes, backslash and line break left as they are but marked."""
    out = []
    i = 0
    while i < len(cs):
        if char(cs[i]) and cs[i] == "\\" and not raw and i + 1 < len(cs) and char(cs[i + 1]):
            c = cs[i + 1]
            if c in "\\'\"":
                out.append(c)
            elif c == "\n":
                pass
            elif c in "nt":
                out.append({"n": "\n", "t": "\t"}[c])
            else:
                out.append("\\")
                out.append(c)
            i += 2
        else:
            out.append(cs[i])
            i += 1
    return "".join(out)


def joined(cs, raw):
    """The text of the query: the content without its line continuations."""
    out = []
    i = 0
    while i < len(cs):
        if char(cs[i]) and cs[i] == "\\" and not raw and i + 1 < len(cs):
            if char(cs[i + 1]) and cs[i + 1] == "\n":
                i += 2
                continue
            out.append(cs[i])
            out.append(cs[i + 1])
            i += 2
        else:
            out.append(cs[i])
            i += 1
    return "".join(out)


def odd_end(cs):
    """Whether the text ends with an odd number of backslashes."""
    n = 0
    while n < len(cs) and char(cs[len(cs) - 1 - n]) and cs[len(cs) - 1 - n] == "\\":
        n += 1
    return n % 2 == 1


def tokens(text):
    ts = lex(text)
    if ts is None:
        return None
    out = [t.text if t.kind == "q" else t.text.lower() for t in ts]
    # a comma at the end of a list is tolerated and dropped
    return [t for i, t in enumerate(out) if not (t == "," and (i + 1 == len(out) or out[i + 1] in ("from", ";")))]


def h(ctx, case):
    prefix, quotes, few = case
    bodies = [b for b in BODIES if whole(prefix + quotes + b.replace("@", "n") + quotes)]
    literal = prefix + quotes + fill(ctx, ctx.pick(bodies)) + quotes
    place = PLACES[0] if few else ctx.pick(PLACES)
    look(ctx, literal, place)


def chars(ctx, case):
    """A literal with any few characters."""
    prefix, quotes, head, n, dom = case
    body = head
    for _ in range(n):
        body = body + ctx.ch(dom)
    literal = prefix + quotes + body + quotes
    ctx.assume(whole(literal))
    look(ctx, literal, PLACES[0])


def look(ctx, literal, place):
    parts = place.split("%")
    text = literal.join(parts)
    w = world(ctx)
    w.file("a.py", text)
    check_model(ctx, w, text)
    r = run(ctx, w, ["--format", "a.py"])
    ctx.require(r.error is None, ["an exception escaped", r.error, text])
    ctx.require("error analysing" not in r.out and "could not analyse" not in r.out, ["not analysed", r.out, text])
    new = w.read("a.py")
    ctx.observe("new", new)
    cs = cells(new)
    prefix, quotes, old = opening(cells(literal))
    raw = "r" in prefix.lower()
    query = joined(old, raw)
    try:
        formatted = format_sql(query)
    except Exception:
        formatted = None  # malformed
    i = 0
    for k, p in enumerate(parts):
        ctx.require("".join(cs[i : i + len(p)]) == p, ["changed around the literal", text, new])
        i += len(p)
        if k + 1 == len(parts):
            break
        if "#" in p:
            i += len(cells(literal))  # the one in the comment
            continue
        j = literal_end(cs, i)
        ctx.require(j > 0, ["no literal any more", text, new])
        lit = cs[i:j]
        i = j
        if formatted is None:
            ctx.require("".join(lit) == literal, ["a malformed query was rewritten", text, new])
            continue
        before = tokens(value(old, raw))
        meant = tokens(value(cells(formatted), raw))
        # a text with a backslash outside of quotes is no SQL
        if odd_end(cells(formatted)) or not (before == meant or before is None or "\\" in before):
            # with the formatted query it would be no literal, or another query
            ctx.require("".join(lit) == literal, ["rewritten but not to the same query", text, new, formatted])
            continue
        p2, q2, content = opening(lit)
        ctx.require(p2 == prefix, ["another prefix", text, new])
        ctx.require(q2[0] == quotes[0], ["another quote character", text, new])
        content = "".join(content)
        if "\n" in formatted:
            ctx.require(len(q2) == 3 and content == "\n" + formatted + "\n", ["not the formatted query on its own lines", text, new, formatted])
        else:
            ctx.require(content == formatted or content == "\n" + formatted + "\n", ["not the formatted query", text, new, formatted])
        after = tokens(value(cells(content), raw))
        ctx.require(before == after or before is None or "\\" in before, ["evaluates to another query", text, new])
    ctx.require(i == len(cs), ["something follows", text, new])
    w.settle()
    r = run(ctx, w, ["--format", "a.py"])
    ctx.require(r.error is None and not w.written("a.py") and r.out == "No file reformatted.\n", ["changed when run again", r.out, text, new])


def cases(quick):
    out = []
    for p in PREFIXES:
        for q in ("'", '"', "'''", '"""'):
            if quick and p not in ("", "r", "b", "RB"):
                out.append([p, q, 1])
            else:
                out.append([p, q, 1 if quick and p else 0])
    return out


def cases_chars(quick):
    out = []
    n = 3 if quick else 4
    for q in ("'", '"', "'''", '"""'):
        for p in ("", "r") if quick else ("", "r", "b"):
            out.append([p, q, "select ", n, "a ,'\"\\\n"])
            out.append([p, q, "SELECT 'a', ", n, "b'\"\\\n"])
            out.append([p, q, "SELECT b AS ", n, "'\"`\\a"])
    return out
