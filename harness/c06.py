"""C06: conditions and calls are wrapped exactly at the line length."""
from harness.common import *

WIDTH = 88


class Cond:
    """Printed forms: one(): on one line, lines(): with the wrapping the property states."""

    def __init__(self, operands, ops):
        self.operands = operands
        self.ops = ops

    def one(self):
        t = self.operands[0].one()
        for op, x in zip(self.ops, self.operands[1:]):
            t = t + " " + op + " " + x.one()
        return t

    def lines(self):
        t = self.one()
        if len(t) < WIDTH:
            return [t]
        out = list(self.operands[0].lines())
        for op, x in zip(self.ops, self.operands[1:]):
            ls = x.lines()
            out.append(op + " " + ls[0])
            out += ls[1:]
        return out


class Text:
    def __init__(self, text):
        self.text = text

    def one(self):
        return self.text

    def lines(self):
        return [self.text]


class Paren:
    def __init__(self, x):
        self.x = x

    def one(self):
        return "(" + self.x.one() + ")"

    def lines(self):
        ls = self.x.lines()
        if len(ls) == 1:
            return ["(" + ls[0] + ")"]
        return ["("] + [" " + l for l in ls] + [")"]


class Call:
    def __init__(self, name, args, tail=""):
        self.name = name
        self.args = args
        self.tail = tail

    def one(self):
        return self.name + "(" + ", ".join(a.one() for a in self.args) + ")" + self.tail

    def lines(self):
        if len(", ".join(a.one() for a in self.args)) <= WIDTH:
            return [self.one()]
        out = [self.name + "("]
        for i, a in enumerate(self.args):
            ls = a.lines()
            out += [" " + l for l in ls[:-1]]
            out.append(" " + ls[-1] + ("," if i < len(self.args) - 1 else ""))
        out.append(")" + self.tail)
        return out


def operand(ctx, k, hi):
    if k == 0:
        return Text(ctx.word(1, hi))
    if k == 1:
        return Text(ctx.word(1, 5) + " " + ctx.pick(["=", "<>"]) + " '" + ctx.word(1, hi) + "'")
    if k == 2:
        return Paren(Cond([Text(ctx.word(1, hi)), Text(ctx.word(1, hi))], [ctx.pick(["AND", "OR"])]))
    if k == 3:
        return Call("F", [Text(ctx.word(1, hi)), Text(ctx.word(1, hi))])
    if k == 4:
        return Text(ctx.word(1, 5) + " IN (" + ctx.word(1, hi) + ", " + ctx.num(0, 99999) + ")")
    if k == 5:
        return Text(ctx.word(1, hi) + " IS NOT NULL")
    if k == 6:
        return Text(ctx.word(1, 5) + " BETWEEN " + ctx.word(1, 5) + " AND " + ctx.word(1, hi))
    raise ValueError(k)


def clause(keyword, x):
    ls = x.lines()
    if len(ls) == 1:
        return keyword + " " + ls[0]
    if isinstance(x, Paren):
        return keyword + " " + "\n".join(ls)
    return keyword + "\n" + "\n".join(" " + l for l in ls)


def check(ctx, sql, expected):
    out = fmt(ctx, sql)
    ctx.observe("formatted", out)
    ctx.require(out == expected, ["wrapped differently", sql, out, expected])


CLAUSES = {
    "where": ("SELECT x\nFROM t\n", "WHERE", ""),
    "wherex": ("SELECT x\nFROM t\n", "WHERE", "\nGROUP BY y\nORDER BY z"),
    "having": ("SELECT x\nFROM t\nGROUP BY y\n", "HAVING", "\nLIMIT 1"),
    "on": ("SELECT x\nFROM t\nLEFT JOIN u\n", "ON", "\nWHERE y"),
}


def condition(ctx, case):
    """case: clause, kinds of the operands, greatest length of a word, in parentheses, in a subquery"""
    pre, keyword, post = CLAUSES[case["clause"]]
    xs = [operand(ctx, k, case["hi"]) for k in case["kinds"]]
    ops = [ctx.pick(["AND", "OR"]) for _ in xs[1:]]
    x = Cond(xs, ops) if len(xs) > 1 else xs[0]
    if case.get("paren"):
        x = Paren(x)
    expected = pre + clause(keyword, x) + post
    sql = pre + keyword + " " + x.one() + post
    if case.get("nested"):
        sql = "SELECT a FROM (" + sql + ") AS b"
        expected = "SELECT a\nFROM (\n " + expected.replace("\n", "\n ") + "\n) AS b"
    check(ctx, sql, expected)


def call(ctx, case):
    """case: numbers of arguments, greatest length, place"""
    args = [Text(ctx.word(1, case["hi"])) if k == 0 else operand(ctx, k, case["hi"]) for k in case["args"]]
    c = Call("F", args, case.get("tail", ""))
    if case.get("outer"):
        c = Call("G", [Text("y"), c, Text("'z'")])
    ls = c.lines()
    p = case["place"]
    if p == "item":
        exp = "SELECT " + "\n".join(ls) + "\nFROM t"
    elif p == "items":
        exp = "SELECT\n x,\n" + "\n".join(" " + l for l in ls) + " AS w\nFROM t"
    elif p == "group":
        exp = "SELECT x\nFROM t\nGROUP BY " + "\n".join(ls)
    elif p == "order":
        exp = "SELECT x\nFROM t\nORDER BY " + "\n".join(ls) + " DESC"
    elif p == "sub":
        exp = "SELECT x\nFROM (\n SELECT " + "\n".join(ls).replace("\n", "\n ") + " w\n FROM t\n)"
    elif p == "where":
        # together with the comparison it is a condition of its own
        exp = "SELECT x\nFROM t\n" + ("WHERE " + ls[0] if len(ls) == 1 else "WHERE\n" + "\n".join(" " + l for l in ls))
    else:
        raise ValueError(p)
    check(ctx, exp.replace("\n", " "), exp)


def cases_condition(quick):
    out = []
    for cl in CLAUSES:
        for kinds, hi in [([0, 0], 70), ([0, 0, 0], 40), ([1, 0], 70), ([1, 1, 1], 30), ([0, 5, 6], 45), ([4, 1], 60), ([0, 2], 60), ([2, 1], 60), ([3, 0], 60), ([0, 3, 1], 50),
                          ([0], 120), ([3], 70), ([0, 0, 0, 0], 30)]:
            if quick and cl == "wherex" and len(kinds) > 2:
                continue
            out.append({"clause": cl, "kinds": kinds, "hi": hi})
        out.append({"clause": cl, "kinds": [0, 0], "hi": 70, "paren": 1})
        out.append({"clause": cl, "kinds": [0, 2], "hi": 60, "nested": 1})
        out.append({"clause": cl, "kinds": [0, 1, 0], "hi": 50, "nested": 1})
        if not quick:
            for kinds in ([0, 2, 3], [2, 2], [3, 3], [2, 3, 1], [1, 0, 0, 5], [0, 0, 0, 0, 0], [3, 2, 0]):
                for n in (0, 1):
                    out.append({"clause": cl, "kinds": kinds, "hi": 50, "nested": n})
    return out


def cases_call(quick):
    out = []
    for p in ("item", "items", "group", "order", "sub", "where"):
        for args, hi in [([0], 120), ([0, 0], 70), ([0, 0, 0], 60), ([0, 0, 0, 0], 40), ([3, 0], 60), ([1, 0], 70), ([0, 3, 3], 50)]:
            for outer in (0, 1):
                if quick and (outer and len(args) > 2 or 3 in args and p in ("group", "sub")):
                    continue
                out.append({"place": p, "args": args, "hi": hi, "outer": outer})
    return out
