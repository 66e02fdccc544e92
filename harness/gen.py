"""Statements of the supported dialect, as token lists with roles.

A token is (kind, text, role):
  kind  K keyword, word operator, type or date part (any letter case, printed in upper case)
        F function name (likewise)   B name of a function with a syntax of its own   I identifier       N number       S quoted literal
        P punctuation or operator
  role  None or a tuple used by the layout oracle
Structure is chosen by the solver's choice variables, identifiers, numbers and lengths are symbolic.
"""


def K(s, role=None):
    return [("K", w, role if i == 0 else None) for i, w in enumerate(s.split())]


def P(s, role=None):
    return [("P", s, role)]


class Gen:
    def __init__(self, ctx, maxlen=9, kwcase=None, wcase=None):
        self.ctx = ctx
        self.maxlen = maxlen
        self.kwcase = kwcase
        self.wcase = wcase
        self.nsel = 0
        self.stack = []
        self.atoms = list(range(15))
        self.plain = 0

    # ---- leaves
    def word(self):
        if self.plain:
            self.plain += 1
            return "n%d" % self.plain
        return self.ctx.word(1, self.maxlen, self.wcase)

    def I(self):
        return [("I", self.word(), None)]

    def F(self):
        return [("F", self.word(), None)]

    def N(self, lo=0, hi=99999):
        return [("N", self.ctx.num(lo, hi), None)]

    def S(self, quote="'"):
        return [("S", quote + self.word() + quote, None)]

    def col(self):
        return self.I()

    def qcol(self):
        return self.I() + P(".") + self.I()

    # ---- lists
    def seq(self, items, sep=","):
        out = []
        for i, x in enumerate(items):
            if i:
                out = out + P(sep)
            out = out + x
        return out

    def select_list(self, items, sid):
        """Items of a SELECT, GROUP BY or ORDER BY list, with roles for the layout."""
        out = []
        many = len(items) > 1
        for i, x in enumerate(items):
            x = list(x)
            k, t, r = x[0]
            roles = ("item", sid) if many else ("single", sid)
            if r is not None:
                roles = roles + (r,)
            x[0] = (k, t, roles)
            if i:
                out = out + P(",")
            out = out + x
        return out

    # ---- statements
    def sid(self):
        self.nsel += 1
        return self.nsel

    def select(self, items, frm=None, where=None, group=None, having=None, order=None, limit=None, offset=None,
               distinct=None, sid=None, each=False):
        sid = sid or self.sid()
        t = K("select", ("select", sid))
        if distinct is not None:
            t = t + distinct
        t = t + self.select_list(items, sid)
        if frm is not None:
            t = t + K("from", ("clause", sid)) + frm
        if where is not None:
            t = t + K("where", ("clause", sid)) + where
        if group is not None:
            t = t + K("group each by" if each else "group by", ("clause", sid)) + self.select_list(group, sid)
        if having is not None:
            t = t + K("having", ("clause", sid)) + having
        if order is not None:
            t = t + K("order by", ("clause", sid)) + self.select_list(order, sid)
        if limit is not None:
            t = t + K("limit", ("clause", sid)) + limit
        if offset is not None:
            t = t + K("offset", ("clause", sid)) + offset
        return t

    def sub(self, tokens, kind="sub"):
        """Parenthesised subquery."""
        n = self.sid()
        return P("(", (kind + "_open", n)) + tokens + P(")", (kind + "_close", n))

    def simple_select(self):
        return self.select([self.col()], self.I())

    # ---- expressions
    # Every expression has one focus: the operand on it is chosen freely, all others are columns.
    def atom(self):
        k = self.ctx.pick(self.atoms)
        if k == 0:
            return self.col()
        if k == 1:
            return self.qcol()
        if k == 2:
            return self.N()
        if k == 3:
            return self.S("'")
        if k == 4:
            n, m = self.ctx.num(0, 999), self.ctx.num(0, 999)
            return [("N", n + "." + m, None)]
        if k == 5:
            return K("null")
        if k == 6:
            return K("true")
        if k == 7:
            return [("S", "`" + self.word() + "`", None)]
        if k == 8:
            return [("S", '"' + self.word() + '"', None)]
        if k == 9:
            return [("N", "-", None), ("N", self.ctx.num(0, 99999), "tight")]
        if k == 10:
            return K("date") + self.S("'")
        if k == 11:
            return [("S", "r'" + self.word() + "'", None)]
        if k == 12:
            return self.qcol() + P(".") + self.I()
        if k == 13:
            return K("false")
        return [("S", "`" + self.word() + "`", None)] + P(".") + self.I()

    def fill(self, k, n, level, d):
        """n operands of which the k-th is the focus."""
        return [self.expr(level, d - 1) if i == k else self.col() for i in range(n)]

    def expr(self, level, d):
        """level: factor, term, pred, bool; d: depth of the focus."""
        if d <= 0:
            return self.atom()
        kinds = {"factor": ["factor"], "term": ["factor", "term"], "pred": ["factor", "term", "pred"],
                 "bool": ["factor", "term", "pred", "bool"]}[level]
        prods = []
        for k in kinds:
            prods += PRODS[k]
        name, arity, sub = prods[self.ctx.choose(len(prods))]
        k = self.ctx.choose(arity) if arity > 1 else 0
        ops = self.fill(k, arity, sub, d) if arity else []
        return getattr(self, "p_" + name)(*ops)

    # factors
    def p_call1(self, a):
        return self.F() + P("(") + a + P(")")

    def p_call2(self, a, b):
        return self.F() + P("(") + a + P(",") + b + P(")")

    def p_call0(self):
        return self.F() + P("(") + P(")")

    def p_countstar(self):
        return [("B", "count", None)] + P("(") + P("*") + P(")")

    def p_count(self, a):
        more = P(",") + self.col() if self.ctx.flag() else []
        return [("B", "count", None)] + P("(") + K("distinct") + a + more + P(")")

    def p_count1(self, a):
        return [("B", "count", None)] + P("(") + a + P(")")

    def p_cast(self, a):
        ty = self.ctx.pick(["int64", "date", "string", "float"])
        return [("B", "cast", None)] + P("(") + a + K("as") + K(ty) + P(")")

    def p_castn(self, a):
        k = self.ctx.choose(3)
        if k == 0:
            ty = K("numeric") + P("(") + self.N(1, 40) + P(",") + self.N(0, 9) + P(")")
        elif k == 1:
            ty = K("array") + P("<") + K("int64") + P(">")
        else:
            ty = K("double precision")
        return [("B", "cast", None)] + P("(") + a + K("as") + ty + P(")")

    def p_extract(self):
        part = self.ctx.pick(["day", "year", "microsecond", "quarter", "day_hour"])
        return [("B", "extract", None)] + P("(") + K(part) + K("from") + self.col() + P(")")

    def p_trunc(self):
        part = self.ctx.pick(["day", "month"])
        return [("B", "timestamp_trunc", None)] + P("(") + self.col() + P(",") + K(part) + P(")")

    def p_case1(self, a, b, c):
        return K("case") + K("when") + a + K("then") + b + K("else") + c + K("end")

    def p_case2(self, a, b, c, d):
        return K("case") + K("when") + a + K("then") + b + K("when") + c + K("then") + d + K("end")

    def p_caseof(self, a, b, c):
        return K("case") + a + K("when") + b + K("then") + c + K("end")

    def p_paren(self, a):
        return P("(") + a + P(")")

    def p_index(self, a):
        return self.I() + P("[") + a + P("]")

    def p_array(self, a, b):
        return P("[") + a + P(",") + b + P("]")

    def p_array1(self, a):
        return P("[") + a + P("]")

    def p_neg(self, a):
        return P("-") + a

    def p_scalar(self):
        return self.sub(self.simple_select())

    def p_funcsub(self):
        return [("B", self.ctx.pick(["array", "exists"]), None)] + self.sub(self.simple_select(), "fsub")

    def p_agg(self, a):
        k = self.ctx.choose(7)
        t = [("B", "array_agg", None)] + P("(")
        if k == 0:
            return t + a + P(")")
        if k == 1:
            return t + K("distinct") + a + P(")")
        if k == 2:
            return t + a + K("ignore nulls") + P(")")
        if k == 3:
            return t + a + K("respect nulls") + K("limit") + self.N(1, 99) + P(")")
        if k == 4:
            return t + a + K("order by") + self.col() + P(")")
        if k == 5:
            return t + a + K("order by") + self.col() + K("desc") + P(",") + self.col() + K("limit") + self.N(1, 9) + P(")")
        return t + a + K("ignore nulls") + K("order by") + self.col() + K("asc") + K("limit") + self.N(1, 9) + P(")")

    def p_filter(self, a):
        return self.F() + P("(") + self.col() + P(")") + K("filter") + P("(") + K("where") + a + P(")")

    def p_over(self, a):
        k = self.ctx.choose(9)
        t = self.F() + P("(") + (a if k < 2 else self.col()) + P(")") + K("over") + P("(")
        if k == 0:
            return t + P(")")
        if k == 1:
            return t + K("partition by") + self.col() + P(")")
        if k == 2:
            return t + K("partition by") + a + P(",") + self.col() + K("order by") + self.col() + K("desc") + P(")")
        if k == 3:
            return t + K("order by") + a + P(")")
        if k == 4:
            return t + K("order by") + self.col() + P(",") + a + K("asc") + P(")")
        if k == 5:
            frame = self.ctx.pick(["rows between unbounded preceding and current row", "range unbounded preceding"])
            return t + K("partition by") + self.col() + K("order by") + a + K(frame) + P(")")
        if k == 6:
            nulls = K(self.ctx.pick(["nulls first", "nulls last"]))
            return t + K("order by") + a + K(self.ctx.pick(["asc", "desc"])) + nulls + P(")")
        if k == 7:
            return (t + K("partition by") + self.col() + P(",") + self.qcol() + K("order by") + self.col() + K("nulls first")
                    + P(",") + a + K("desc nulls last") + K("range between current row and unbounded following") + P(")"))
        return (t + K("order by") + a + K("rows between") + self.N(1, 9) + K("preceding and") + self.N(1, 9)
                + K("following") + P(")"))

    # terms
    def p_arith(self, a, b):
        return a + P(self.ctx.pick(["+", "-", "*", "/", "%"])) + b

    def p_concat(self, a, b):
        return a + P(self.ctx.pick(["||", "&", "|", "<<"])) + b

    def p_arith3(self, a, b, c):
        return a + P(self.ctx.pick(["+", "-"])) + b + P("*") + c

    def p_concat3(self, a, b, c):
        return a + P("||") + b + P("||") + c

    # predicates
    def p_cmp(self, a, b):
        return a + P(self.ctx.pick(["=", "<>", "!=", "<", "<=", ">", ">="])) + b

    def p_like(self, a, b):
        return a + K(self.ctx.pick(["like", "not like"])) + b

    def p_in(self, a, b):
        k = self.ctx.choose(3)
        if k == 0:
            return a + K("in") + P("(") + b + P(")")
        if k == 1:
            return a + K("in") + P("(") + b + P(",") + self.col() + P(")")
        return a + K("not in") + P("(") + self.col() + P(",") + b + P(")")

    def p_insub(self, a):
        return a + K(self.ctx.pick(["in", "not in"])) + self.sub(self.simple_select())

    def p_is(self, a):
        return a + K(self.ctx.pick(["is null", "is not null", "is true", "is not false"]))

    def p_between(self, a, b, c):
        return a + K(self.ctx.pick(["between", "not between"])) + b + K("and") + c

    def p_not(self, a):
        return K("not") + a

    # booleans
    def p_bool(self, a, b):
        return a + K(self.ctx.pick(["and", "or"])) + b

    def p_bool3(self, a, b, c):
        return a + K(self.ctx.pick(["and", "or"])) + b + K(self.ctx.pick(["and", "or"])) + c


# name, number of operands, level of the operands
PRODS = {
    "factor": [
        ("call1", 1, "bool"), ("call2", 2, "bool"), ("call0", 0, ""), ("countstar", 0, ""), ("count", 1, "term"),
        ("count1", 1, "term"), ("cast", 1, "term"), ("castn", 1, "factor"), ("extract", 0, ""), ("trunc", 0, ""),
        ("case1", 3, "bool"), ("case2", 4, "term"), ("caseof", 3, "term"), ("paren", 1, "bool"), ("index", 1, "term"),
        ("array", 2, "term"), ("array1", 1, "term"), ("neg", 1, "factor"), ("scalar", 0, ""), ("funcsub", 0, ""),
        ("agg", 1, "term"), ("filter", 1, "bool"), ("over", 1, "term"),
    ],
    "term": [("arith", 2, "factor"), ("concat", 2, "factor"), ("arith3", 3, "factor"), ("concat3", 3, "factor")],
    "pred": [
        ("cmp", 2, "term"), ("like", 2, "term"), ("in", 2, "term"), ("insub", 1, "term"), ("is", 1, "term"),
        ("between", 3, "term"), ("not", 1, "factor"),
    ],
    "bool": [("bool", 2, "pred"), ("bool3", 3, "pred")],
}

CONTEXTS = ["item", "item1", "item2alias", "alias", "where", "wherea", "having", "on", "group", "group2", "order",
            "order2", "insub", "fromsub", "withq", "distincton", "unnest", "casewhen", "wparen"]


def in_context(g, name, level_of, d):
    """A statement with an expression of depth d at the position given by name."""
    ctx = g.ctx

    def e(level):
        return g.expr(level, d)

    if name == "item":
        return g.select([e("bool")], g.I())
    if name == "item1":
        return g.select([e("bool"), g.col()], g.I())
    if name == "item2alias":
        return g.select([g.col(), e("bool") + K("as") + g.I(), g.col() + K("as") + g.I()], g.I())
    if name == "alias":
        return g.select([e("bool") + g.I()], g.I())
    if name == "where":
        return g.select([P("*")], g.I(), where=e("bool"))
    if name == "wherea":
        return g.select([P("*")], g.I(), where=g.col() + P("=") + g.col() + K("and") + e("pred"), group=[g.col()])
    if name == "having":
        return g.select([g.col()], g.I(), group=[g.col()], having=e("bool"), order=[g.col()])
    if name == "on":
        sid = g.sid()
        frm = g.I() + K("left join", ("join", sid)) + g.I() + K("on", ("on", sid)) + e("bool")
        return g.select([P("*")], frm, where=g.col(), sid=sid)
    if name == "group":
        return g.select([g.col()], g.I(), group=[e("bool")], limit=g.N())
    if name == "group2":
        return g.select([g.col()], g.I(), group=[g.col(), e("bool")])
    if name == "order":
        return g.select([g.col()], g.I(), order=[e("bool") + K("desc")])
    if name == "order2":
        return g.select([g.col()], g.I(), order=[e("bool"), g.col() + K("asc nulls last")], limit=g.N(), offset=g.N())
    if name == "insub":
        inner = g.select([g.col()], g.I(), where=e("bool"))
        return g.select([P("*")], g.I(), where=g.col() + K("in") + g.sub(inner))
    if name == "fromsub":
        inner = g.select([e("bool") + K("as") + g.I(), g.col()], g.I())
        return g.select([P("*")], g.sub(inner) + K("as") + g.I(), where=g.col())
    if name == "withq":
        return (K("with", ("with", 0)) + g.I() + K("as") + g.sub(g.select([e("bool")], g.I()), "with")
                + g.select([P("*")], g.I()))
    if name == "distincton":
        return g.select([g.col()], g.I(), distinct=K("distinct on") + P("(") + e("bool") + P(")"))
    if name == "unnest":
        return g.select([P("*")], [("B", "unnest", None)] + P("(") + e("term") + P(")") + K("as") + g.I())
    if name == "casewhen":
        x = K("case when") + e("bool") + K("then") + g.col() + K("when") + g.col() + K("then") + g.col() + K("end")
        return g.select([g.col(), x], g.I())
    if name == "wparen":
        return g.select([P("*")], g.I(), where=P("(") + e("bool") + P(")") + K("and") + g.col() + P("=") + g.N())
    raise ValueError(name)


# ------------------------------------------------------------------ clauses
class Lite:
    """A subset of the options at each choice (the quick tier)."""

    def __init__(self, ctx, on):
        self.ctx = ctx
        self.on = on

    def among(self, n, keep):
        return self.ctx.pick(keep) if self.on else self.ctx.choose(n)


def clauses(g, part, lite=False):
    """Every combination of clauses; part selects the shape of the SELECT list."""
    ctx = g.ctx
    lt = Lite(ctx, lite)
    items = {
        0: lambda: [P("*")],
        1: lambda: [g.col()],
        2: lambda: [g.col() + K("as") + g.I(), g.qcol() + g.I()],
        3: lambda: [P("*") + K("except") + P("(") + g.I() + P(",") + g.I() + P(")")],
        4: lambda: [g.I() + P(".") + P("*"), P("*") + K("replace") + P("(") + g.N() + K("as") + g.I() + P(")")],
        5: lambda: [P("*") + K("except") + P("(") + g.I() + P(")") + K("replace") + P("(") + g.col() + K("as") + g.I() + P(")"), g.N()],
    }[part]()
    distinct = [None, K("distinct"), K("all")][lt.among(3, [0, part % 2 + 1])]
    frm = g.I() if ctx.flag() else None
    where = g.col() + P("=") + g.S() if frm is not None and ctx.flag() else None
    k = lt.among(5, [0, 2, 4 if part % 2 else 1]) if frm is not None else 0
    group = [None, lambda: [g.N(1, 3)], lambda: [g.col(), g.qcol()], lambda: [g.col()],
             lambda: [K("rollup") + P("(") + g.col() + P(",") + g.col() + P(")")]][k]
    group = group() if group else None
    each = group is not None and k < 4 and (part != 4 if lite else ctx.flag())
    having = g.I() + P("(") + g.col() + P(")") + P(">") + g.N() if group is not None and ctx.flag() else None
    if having is not None:
        having[0] = ("F", having[0][1], None)
    k = lt.among(5, [0, 2, 4 if part % 2 else 3]) if frm is not None else 0
    order = [None, lambda: [g.col()], lambda: [g.col() + K("desc"), g.N(1, 3)], lambda: [g.col() + K("asc nulls first")],
             lambda: [g.qcol() + K("nulls last"), g.col()]][k]
    order = order() if order else None
    k = lt.among(4, [0, 2 if part % 2 else 3])
    limit = [None, lambda: g.N(), lambda: K("all"), lambda: g.N()][k]
    limit = limit() if limit else None
    offset = g.N() if ctx.flag() else None
    t = g.select(items, frm, where, group, having, order, limit, offset, distinct, each=each)
    if k == 3:
        t = t + P(";")
    return t


# ------------------------------------------------------------------ FROM
def table(g, k, sid, d=1):
    """A table expression without alias."""
    if k == 0:
        return g.I()
    if k == 1:
        return g.I() + P(".") + g.I()
    if k == 2:
        return [("S", "`" + g.word() + "." + g.word() + "`", None)]
    if k == 3:
        return g.sub(g.simple_select())
    if k == 4:
        return g.sub(g.select([g.col() + K("as") + g.I(), g.col()], g.I(), where=g.col() + P("=") + g.N()))
    if k == 5:
        return P("[") + g.I() + P("]")
    if k == 6:
        return [("B", "unnest", None)] + P("(") + g.col() + P(")")
    if k == 7:
        return [("S", "`" + g.word() + "`", None)] + P(".") + [("S", "`" + g.word() + "`", None)]
    if k == 8:
        inner = g.select([P("*")], g.sub(g.simple_select()), where=g.col())
        return g.sub(inner)
    raise ValueError(k)


def aliased(g, t, k):
    if k == 0:
        return t
    if k == 1:
        return t + g.I()
    if k == 2:
        return t + K("as") + g.I()
    return t + K("as") + [("S", "`" + g.word() + "`", None)]


JOINS = ["join", "inner join", "left join", "right join", "full join", "left outer join", "right outer join",
         "full outer join", "join each", "cross join", ","]


def froms(g, part, lite=False):
    ctx = g.ctx
    lt = Lite(ctx, lite)
    sid = g.sid()
    if part == "tables":
        # one table, every form and alias
        t = aliased(g, table(g, ctx.choose(9), sid), ctx.choose(4))
        where = g.col() if ctx.flag() else None
        return g.select([P("*")], t, where=where, sid=sid)
    if part == "join":
        # one join, every form of both sides
        left = aliased(g, table(g, ctx.pick([0, 3, 8] if lite else [0, 1, 2, 3, 4, 7, 8]), sid), lt.among(3, [0, 1]))
        j = ctx.pick(JOINS)
        right = aliased(g, table(g, ctx.pick([0, 4] if lite else [0, 2, 3, 4, 6]), sid), lt.among(3, [0, 2]))
        return g.select([P("*")], join(g, sid, left, j, right, ctx.choose(4)), sid=sid)
    if part == "chain":
        # three joins
        t = aliased(g, table(g, ctx.pick([0, 3]), sid), ctx.choose(2))
        for i in range(3):
            j = ctx.pick((["left outer join", "cross join", ","] if lite else ["join", "left outer join", "cross join", ","]))
            right = aliased(g, table(g, ctx.pick([0, 3]) if i == 0 else 0, sid), 1 if i or lite else ctx.choose(2))
            t = join(g, sid, t, j, right, ctx.choose(2) if j in ("join", "left outer join") else 0)
        return g.select([g.col(), g.qcol()], t, where=g.col() if ctx.flag() else None, sid=sid)
    if part == "parens":
        # joins in parentheses
        inner = join(g, sid, aliased(g, table(g, 0, sid), ctx.choose(3)), ctx.pick(JOINS), table(g, ctx.pick([0, 3]), sid), ctx.choose(2))
        n = g.sid()
        t = P("(", ("jsub_open", n)) + [(k, x, None if r is None or r[0] not in ("join", "on") else ("injoin", n)) for k, x, r in inner] + P(")", ("jsub_close", n))
        t = aliased(g, t, ctx.choose(3))
        k = ctx.choose(3)
        if k == 1:
            t = join(g, sid, t, ctx.pick(["join", "cross join", ","]), g.I(), 0)
        elif k == 2:
            t = join(g, sid, g.I() + g.I(), ctx.pick(["left join", "cross join", ","]), t, 1)
        return g.select([P("*")], t, sid=sid)
    if part == "unnest":
        t = [("B", "unnest", None)] + P("(") + (g.col() if ctx.flag() else P("[") + g.N() + P(",") + g.N() + P("]")) + P(")")
        t = aliased(g, t, ctx.choose(3))
        k = ctx.choose(4)
        if k:
            t = t + K("with offset")
        if k == 2:
            t = t + K("as") + g.I()
        if k == 3:
            t = t + g.I()
        if ctx.flag():
            t = join(g, sid, g.I() + g.I(), ctx.pick(["cross join", ",", "left join"]), t, 0)
        return g.select([P("*")], t, sid=sid)
    raise ValueError(part)


def join(g, sid, left, j, right, cond):
    if j == ",":
        return left + P(",") + [(k, x, r) for k, x, r in right]
    t = left + K(j, ("join", sid)) + right
    if j == "cross join":
        return t
    if cond == 0:
        return t + K("on", ("on", sid)) + g.qcol() + P("=") + g.qcol()
    if cond == 1:
        return t + K("using", ("on", sid)) + P("(") + g.I() + P(")")
    if cond == 2:
        return t + K("using", ("on", sid)) + P("(") + g.I() + P(",") + g.I() + P(")")
    return (t + K("on", ("on", sid)) + g.qcol() + P("=") + g.qcol() + K("and") + P("(") + g.col() + P(">") + g.N()
            + K("or") + g.col() + K("is null") + P(")"))


# ------------------------------------------------------------------ nesting
def nested(g, part):
    ctx = g.ctx
    if part == "with":
        t = []
        n = 1 + ctx.choose(3)
        for i in range(n):
            k = ctx.choose(3)
            if k == 0:
                q = g.simple_select()
            elif k == 1:
                q = g.select([g.col(), g.col() + K("as") + g.I()], g.I(), group=[g.N(1, 2), g.N(1, 2)])
            else:
                q = g.select([P("*")], g.sub(g.simple_select()), where=g.col() + P("=") + g.S())
            t = t + (K("with", ("with", 0)) if i == 0 else P(",")) + g.I() + K("as") + g.sub(q, "with")
        k = ctx.choose(3)
        if k == 0:
            q = g.select([P("*")], g.I())
        elif k == 1:
            sid = g.sid()
            q = g.select([g.col(), g.qcol()], join(g, sid, g.I(), "join", g.I(), 1), where=g.col(), sid=sid)
        else:
            q = g.select([g.col()], g.sub(g.simple_select()) + g.I(), order=[g.col()], limit=g.N())
        return t + q + (P(";") if ctx.flag() else [])
    if part == "deep":
        # subqueries three deep, in every position
        q = g.simple_select()
        for i in range(3):
            k = ctx.choose(7)
            if k == 0:
                q = g.select([P("*")], g.sub(q))
            elif k == 1:
                q = g.select([P("*")], g.sub(q) + K("as") + g.I(), where=g.col())
            elif k == 2:
                q = g.select([g.col()], g.I(), where=g.col() + K("in") + g.sub(q))
            elif k == 3:
                q = g.select([g.sub(q) + K("as") + g.I(), g.col()], g.I())
            elif k == 4:
                sid = g.sid()
                frm = g.I() + K("join", ("join", sid)) + g.sub(q) + g.I() + K("using", ("on", sid)) + P("(") + g.I() + P(")")
                q = g.select([g.col()], frm, sid=sid)
            elif k == 5:
                sid = g.sid()
                frm = g.sub(q) + g.I() + K("left join", ("join", sid)) + g.I() + K("on", ("on", sid)) + g.col() + P("=") + g.col()
                q = g.select([g.col(), g.col()], frm, sid=sid, order=[g.col(), g.col()])
            else:
                q = g.select([g.col()], g.I(), where=g.col() + P("=") + g.N() + K("and") + g.col() + P(">") + g.sub(q))
        return q
    if part == "set":
        # set operations between tables or subqueries in FROM
        ops = ["union all", "union distinct", "intersect distinct", "except distinct", "union"]
        n = 1 + ctx.choose(2)
        t = g.sub(g.simple_select(), "set") if ctx.flag() else g.I()
        for _ in range(n):
            o = K(ctx.pick(ops), ("setop", 0))
            right = g.sub(g.simple_select(), "set") if ctx.flag() else g.I()
            t = t + o + right
        t = P("(", ("setp_open", 0)) + t + P(")", ("setp_close", 0)) + (g.I() if ctx.flag() else [])
        return g.select([P("*")], t)
    if part == "union":
        ops = ["union all", "union distinct", "intersect distinct", "except distinct"]
        t = g.select([g.col()], g.I() if ctx.flag() else g.I() + P(".") + g.I())
        for _ in range(1 + ctx.choose(2)):
            t = t + K(ctx.pick(ops), ("setop", 0)) + g.select([g.col()], g.I(), )
        return t
    if part == "unions":
        # set operations after every clause, of every kind of right side, at every level
        ops = ["union all", "union distinct", "intersect distinct", "except distinct", "union"]
        sid = g.sid()
        k = ctx.choose(9)
        sel = lambda items=None, frm=None, **kw: g.select([g.col()] if items is None else items, g.I() if frm is None else frm, sid=sid, **kw)
        if k == 0:
            t = sel(where=g.col() + P("=") + g.S())
        elif k == 1:
            t = sel(group=[g.col(), g.N()])
        elif k == 2:
            t = sel(group=[g.col()], having=g.col() + P(">") + g.N() + K("and") + g.col())
        elif k == 3:
            t = sel(order=[g.col() + K("desc"), g.N()])
        elif k == 4:
            t = sel(limit=g.N())
        elif k == 5:
            t = sel(limit=K("all"), offset=g.N())
        elif k == 6:
            t = g.select([g.N(), g.S()], sid=sid)
        elif k == 7:
            t = sel([P("*") + K("except") + P("(") + g.I() + P(")")])
        else:
            t = sel(frm=g.sub(g.simple_select()) + K("as") + g.I(), where=g.col() + K("not in") + g.sub(g.simple_select()))
        t = t + K(ctx.pick(ops), ("setop", sid))
        k = ctx.choose(7)
        if k == 0:
            r = g.simple_select()
        elif k == 1:
            r = g.select([P("*") + K("except") + P("(") + g.I() + P(")"), g.col()], g.I(), where=g.col() + P("=") + g.N())
        elif k == 2:
            r = g.select([g.col()], g.I(), distinct=K("all"), order=[g.col(), g.col()])
        elif k == 3:
            r = g.sub(g.simple_select(), "set")
        elif k == 4:
            s2 = g.sid()
            r = g.select([g.col()], g.I(), where=g.col(), sid=s2) + K("intersect distinct", ("setop", s2)) + g.select([g.N()])
        elif k == 5:
            r = g.sub(g.select([g.col()], g.I(), where=g.col()), "set") + K("union all", ("setop", sid)) + g.sub(g.simple_select(), "set")
        else:
            r = g.select([P("*")], g.sub(g.simple_select()) + g.I(), limit=g.N())
        t = t + r
        k = ctx.choose(6)
        if k == 0:
            return t
        if k == 1:
            return t + P(";")
        if k == 2:
            return g.select([g.col()], g.sub(t) + K("as") + g.I(), where=g.col() + P("=") + g.N())
        if k == 3:
            return g.select([g.col()], g.I(), where=g.col() + K("in") + g.sub(t))
        if k == 4:
            return K("with", ("with", 0)) + g.I() + K("as") + g.sub(t, "with") + g.simple_select()
        return g.select([g.col(), g.sub(t) + K("as") + g.I()], g.I())
    raise ValueError(part)


FAMILIES = (
    [{"fam": "expr", "ctx": c, "d": 1} for c in CONTEXTS]
    + [{"fam": "clauses", "part": i} for i in range(6)]
    + [{"fam": "from", "part": p} for p in ("tables", "join", "chain", "parens", "unnest")]
    + [{"fam": "nested", "part": p} for p in ("with", "deep", "set", "union", "unions")]
)
QUICK = [
    dict(c, lite=1) if c["fam"] == "clauses" and c["part"] or c.get("part") in ("join", "chain") else c for c in FAMILIES
]
DEEP = [{"fam": "expr", "ctx": c, "d": 2} for c in CONTEXTS]


FEW = [dict(c, few=1) if c["fam"] == "expr" else c for c in QUICK]  # four kinds of operands only


def make(ctx, case, g=None):
    g = g or Gen(ctx)
    if case.get("few"):
        g.atoms = [0, 3, 9, 11] if case["few"] == 1 else [0, 9]
    if case.get("plain"):
        g.plain = 1  # different fixed names
    f = case["fam"]
    if f == "expr":
        return in_context(g, case["ctx"], None, case["d"])
    if f == "clauses":
        return clauses(g, case["part"], case.get("lite"))
    if f == "from":
        return froms(g, case["part"], case.get("lite"))
    if f == "nested":
        return nested(g, case["part"])
    raise ValueError(f)


# ------------------------------------------------------------------ text
TIGHT_BEFORE = (",", ")", "]", ".", ";")
TIGHT_AFTER = ("(", "[", ".")


def glue(prev, tok):
    """Whether two tokens are written without a blank between them."""
    if prev is None:
        return True
    pk, pt, _ = prev
    k, t, r = tok
    if r == "tight":
        return True
    if k == "P" and t in TIGHT_BEFORE:
        return True
    if pk == "P" and pt in TIGHT_AFTER:
        return True
    if pk in "FB" and k == "P" and t == "(":
        return True
    if pk == "I" and k == "P" and t == "[":
        return True
    return False


def pieces(toks):
    """(token, text) of a text of the tokens, with (None, blank) between them."""
    out = []
    prev = None
    for tok in toks:
        if not glue(prev, tok):
            out.append((None, " "))
        out.append((tok, tok[1]))
        prev = tok
    return out


def render(toks):
    return "".join(t for _, t in pieces(toks))
