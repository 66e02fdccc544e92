"""C20: exactly the strings that start a SELECT are taken for SQL."""
from harness.files import *

PREFIXES = ["", "r", "R", "u", "U", "b", "B", "br", "bR", "Br", "BR", "rb", "rB", "Rb", "RB"]
QUOTES4 = ("'", '"', "'''", '"""')


def whole(text):
    return literal_end(cells(text), 0) == len(cells(text))


def is_select(cs):
    """Whether a content starts a SELECT statement."""
    i = 0
    while i < len(cs) and char(cs[i]) and cs[i] in " \n'\"`":
        i += 1
    if len(cs) < i + 7:
        return False
    for k, c in enumerate("select"):
        if not char(cs[i + k]) or cs[i + k] not in c + c.upper():
            return False
    return char(cs[i + 6]) and cs[i + 6] in " \n"


def look(ctx, prefix, quotes, body):
    literal = prefix + quotes + body + quotes
    ctx.assume(whole(literal))
    text = "x = " + literal + "\n"
    w = world(ctx)
    w.file("a.py", text)
    check_model(ctx, w, text)
    r = run(ctx, w, ["--validate", "--format", "a.py"])
    ctx.require(r.error is None, ["an exception escaped", r.error, text])
    ctx.require("error analysing" not in r.out and "could not analyse" not in r.out, ["not analysed", r.out, text])
    new = w.read("a.py")
    ctx.observe("new", new)
    ctx.observe("out", r.out)
    sql = is_select(cells(body))
    invalid = "invalid queries in a.py (1 invalid SQL)\n" in r.out
    changed = new != text
    # what starts a SELECT is written in lower case or is invalid
    ctx.require((invalid or changed) == sql, ["not taken for SQL" if sql else "taken for SQL", text, r.out])
    ctx.require(r.status == (1 if invalid else 0), ["exit status", r.status, text])
    if not sql:
        ctx.require("reformatted a.py" not in r.out and "invalid queries in" not in r.out, ["reported though it is no SQL", text, r.out])


REST = "a limit -1"


def lead(ctx, case):
    """Any few characters before SELECT."""
    prefix, quotes, n, dom = case
    body = ctx.body(n, dom) + "select " + REST
    look(ctx, prefix, quotes, body)


def word(ctx, case):
    """SELECT in every letter case, or almost, followed by any character."""
    prefix, quotes, kind = case
    first = ctx.pick(["", "\n ", " "] if len(quotes) == 3 else ["", " "])
    if kind == "case":
        body = first + ctx.kw("select") + ctx.ch(AFTER) + REST
    elif kind == "letter":
        i = ctx.choose(7)
        body = first + "select "[:i] + ctx.ch("selctSELCTf_ 1x") + "select "[i + 1 :] + REST
    elif kind == "short":
        body = first + "select "[: ctx.choose(8)] + ctx.ch(AFTER)
    elif kind == "prefixes":
        # letters of the prefixes before the word
        body = ctx.body(2, "rRubBfs ") + "select " + REST
    else:
        # a name before it
        body = first + ctx.word(1, 9, 0) + ctx.pick([" ", ";", "("]) + "select " + REST
    look(ctx, prefix, quotes, body)


AFTER = " \n\t,;(*'\"`abs_1.-+#="


def cases_lead(quick):
    out = []
    for p in PREFIXES if not quick else ("", "r", "u", "b", "BR", "Rb"):
        for q in QUOTES4:
            n = 2 if quick else 3
            out.append([p, q, n, " \n'\"`(\\#rus"])
            if not quick:
                out.append([p, q, 4, " \n'\"`("])
    return out


def cases_word(quick):
    return [[p, q, k] for p in PREFIXES for q in QUOTES4 for k in ("case", "letter", "short", "prefixes", "name")]
