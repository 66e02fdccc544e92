"""C05: layout of clauses, list items and subqueries."""
from harness import gen
from harness.c01 import expected
from harness.common import *


def indentation(line):
    n = 0
    for c in cells(line):
        if atom(c) is None and c == " ":
            n += 1
        else:
            break
    return n


def h(ctx, case):
    toks = gen.make(ctx, case)
    sql = gen.render(toks)
    out = fmt(ctx, sql)
    ctx.observe("formatted", out)
    lines = out.split("\n")
    for l in lines:
        ctx.require(l != "" and l == l.rstrip(), ["empty line or blank at the end of a line", sql, out])
    got = lex(out)
    exp = expected(toks)
    ctx.require(got is not None and len(got) == len(exp), ["tokens lost", sql, out])
    # line number, whether first on its line
    line = 0
    pos = []
    for t in got:
        n = t.gap.count("\n")
        line += n
        pos.append((line, n > 0 or line == 0 and len(pos) == 0))
    ind = [indentation(l) for l in lines]
    selects = {}
    opens = {}
    for i, ((kind, text, role), t) in enumerate(zip(exp, got)):
        l, first = pos[i]

        def req(c, msg):
            ctx.require(c, [msg, text, sql, out])

        if role is None:
            continue
        while role is not None and isinstance(role, tuple):
            r = role[0]
            sid = role[1]
            if r == "select":
                req(first, "SELECT begins a line")
                selects[sid] = (l, ind[l])
            elif r == "clause":
                req(first and ind[l] == selects[sid][1], "clause begins a line at the indentation of its SELECT")
                selects[(sid, "kw")] = (l, 0)
            elif r == "setop" and sid:
                req(first and ind[l] == selects[sid][1], "set operator begins a line at the indentation of its SELECT")
            elif r == "join" or r == "on":
                req(first and ind[l] == selects[sid][1], "join begins a line at the indentation of its SELECT")
            elif r == "injoin":
                req(first and ind[l] == opens[("jsub", sid)] + 1, "join in parentheses begins a line, indented by one blank")
            elif r == "item":
                req(first and ind[l] == selects[sid][1] + 1, "list item begins a line, indented by one blank")
            elif r == "single":
                req(not first, "single item on the line of its keyword")
            elif r.endswith("_open") and (r == "sub_open" or r == "with_open" or r == "jsub_open" or r == "setp_open" or r == "set_open" or r == "fsub_open"):
                req(i + 1 < len(got) and pos[i + 1][1], "subquery begins a line after its parenthesis")
                req(ind[pos[i + 1][0]] == ind[l] + 1, "subquery is indented by one blank")
                opens[(r[:-5], sid)] = ind[l]
            elif r.endswith("_close"):
                req(first and ind[l] == opens[(r[:-6], sid)], "closing parenthesis of a subquery on its own line")
            elif r == "with":
                req(first and ind[l] == 0, "WITH")
            role = role[2] if len(role) > 2 else None
