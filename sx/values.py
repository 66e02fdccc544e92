"""Symbolic booleans, integers and strings (ropes)."""
import math
import re

import z3

from . import engine as E
from .engine import Incomplete, NeedConcrete, PathAbort

T, F = z3.BoolVal(True), z3.BoolVal(False)

# Words that a symbolic identifier never spells (in any letter case): the keywords and contextual
# keywords of the dialect. Every other constant an identifier is compared with forks the path.
RESERVED = set(
    """
 select from where group by having order limit offset with as all distinct on using union intersect
 except join inner left right full cross outer each unnest rollup asc desc nulls first last case when
 then else end cast array_agg count filter ignore respect over partition rows range between and or not
 in is like null true false contains replace extract date time timestamp datetime interval
 unbounded preceding following current row timestamp_trunc r
 _table_suffix _partitiondate nfc nfkc nfd nfkd monday tuesday wednesday thursday friday saturday sunday
 int float day month int64 string microsecond second minute hour week quarter year
 second_microsecond minute_microsecond minute_second hour_microsecond hour_second hour_minute
 day_microsecond day_second day_minute day_hour year_month dayofmonth dayofweek dayofyear respects
 recursive lateral natural fetch for window values
 current_date current_datetime current_time current_timestamp current_user localtime localtimestamp session_user
""".split()
)
_IDENT = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*$")
_IDENT_CHARS = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
_DIGITS = frozenset("0123456789")


_INF = float("inf")
_NEVER = set()  # constants which no identifier equals


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.cur.decide(self.e)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if o is True or o is False:
            return self if o else Not(self)
        return bool(self) == o

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return bool(self) - o

    def __rsub__(self, o):
        return o - bool(self)

    def __mul__(self, o):
        return bool(self) * o

    __rmul__ = __mul__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    __rxor__ = __xor__

    def __neg__(self):
        return -bool(self)

    def __lt__(self, o):
        return bool(self) < o

    def __le__(self, o):
        return bool(self) <= o

    def __gt__(self, o):
        return bool(self) > o

    def __ge__(self, o):
        return bool(self) >= o

    def __format__(self, spec):
        return format(bool(self), spec)

    def __repr__(self):
        return "<SymBool %s>" % self.e


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return T if x else F


def And(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(es[0]) if len(es) == 1 else SymBool(z3.And(*es))


def Or(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(es[0]) if len(es) == 1 else SymBool(z3.Or(*es))


def Not(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.e))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    sa, sb = isinstance(a, SymBool), isinstance(b, SymBool)
    if not sa and not sb:
        return bool(a) == bool(b)
    if not sa:
        return b if a else Not(b)
    if not sb:
        return a if b else Not(a)
    return SymBool(a.e == b.e)


# ------------------------------------------------------------------ integers
class SymInt:
    """c + sum(k * v) over integer variables of the engine."""

    __slots__ = ("c", "t")

    def __init__(self, c, t):
        self.c = c
        self.t = t

    @property
    def e(self):
        z = E.cur.zint
        terms = [z(v) if k == 1 else k * z(v) for v, k in self.t.items()]
        if self.c or not terms:
            terms.append(z3.IntVal(self.c))
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def range(self):
        lo = hi = self.c
        b = E.cur.bounds
        for v, k in self.t.items():
            l, h = b.get(v, (None, None))
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, float):
            if o != o or o in (_INF, -_INF):
                return _CMP[op](0, o)
            whole = o.is_integer()
            if not whole and op in ("==", "!="):
                return op == "!="
            o = int(o) if whole else math.floor(o) + (1 if op in ("<", ">=") else 0)
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        d = self - o
        if not isinstance(d, SymInt):
            return _CMP[op](d, 0)
        lo, hi = d.range()
        if op == "<":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == "<=":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif op == ">":
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi <= 0:
                return False
        elif op == ">=":
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
        elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return op == "!="
        return SymBool(_CMP[op](d.e, 0))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __add__(self, o):
        if isinstance(o, SymInt):
            t = dict(self.t)
            for v, k in o.t.items():
                n = t.get(v, 0) + k
                if n:
                    t[v] = n
                else:
                    del t[v]
            c = self.c + o.c
            return SymInt(c, t) if t else c
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, int):
            return SymInt(self.c + o, self.t)
        if isinstance(o, float):
            return int(self) + o
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return SymInt(-self.c, {v: -k for v, k in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, (SymInt, int)):
            return self + (-o)
        if isinstance(o, float):
            return int(self) - o
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        if isinstance(o, int):
            if o == 0:
                return 0
            return SymInt(self.c * o, {v: k * o for v, k in self.t.items()})
        if isinstance(o, (str, list, tuple)):
            return o * int(self)
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return int(self) // o

    def __rfloordiv__(self, o):
        return o // int(self)

    def __mod__(self, o):
        return int(self) % o

    def __rmod__(self, o):
        return o % int(self)

    def __truediv__(self, o):
        return int(self) / o

    def __abs__(self):
        return self if self >= 0 else -self

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self):
        return enumerate_int(self)

    __int__ = __index__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def __format__(self, spec):
        return format(int(self), spec)

    def __repr__(self):
        return "<SymInt %s>" % self.e


_CMP = {
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
}


def new_int(lo, hi, kind="n"):
    name = E.cur.new_nat(kind, None if hi is None else hi - lo)
    return SymInt(lo, {name: 1})


ENUM_CAP = 60


def enumerate_int(x):
    """The value of x, forking over all its values (complete up to the cap)."""
    en = E.cur
    for _ in range(ENUM_CAP):
        v = en.choose_value(lambda: en.current_model().eval(x.e, model_completion=True).as_long())
        if en.decide(x.e == v):
            return v
    raise Incomplete("more than %d values of an integer" % ENUM_CAP)


# ------------------------------------------------------------------ atoms
class Ch:
    """One character out of a finite domain: var is an index into dom, tab[i] the character."""

    __slots__ = ("var", "tab")

    def __init__(self, var, tab):
        self.var = var
        self.tab = tab

    def cond(self, pred):
        """Condition that the character satisfies pred (a function on characters)."""
        idx = [i for i, c in enumerate(self.tab) if pred(c)]
        n = len(self.tab)
        if not idx:
            return False
        if len(idx) == n:
            return True
        v = E.cur.zint(self.var)
        if len(idx) * 2 <= n:
            return SymBool(z3.Or(*[v == i for i in idx]) if len(idx) > 1 else v == idx[0])
        rest = [i for i in range(n) if not pred(self.tab[i])]
        return SymBool(z3.And(*[v != i for i in rest]) if len(rest) > 1 else v != rest[0])

    def same(self, o):
        return self is o or (isinstance(o, Ch) and self.var == o.var and self.tab == o.tab)

    def eq(self, o):
        if isinstance(o, str):
            return self.cond(lambda c: c == o)
        if self.same(o):
            return True
        if self.var == o.var:
            idx = [i for i in range(len(self.tab)) if self.tab[i] == o.tab[i]]
            if not idx:
                return False
            if len(idx) == len(self.tab):
                return True
            v = E.cur.zint(self.var)
            return SymBool(z3.Or(*[v == i for i in idx]))
        va, vb = E.cur.zint(self.var), E.cur.zint(o.var)
        if self.tab == o.tab and len(set(self.tab)) == len(self.tab):
            return SymBool(va == vb)
        ors = []
        for c in sorted(set(self.tab) & set(o.tab)):
            ors.append(
                z3.And(
                    z3.Or(*[va == i for i, x in enumerate(self.tab) if x == c]),
                    z3.Or(*[vb == i for i, x in enumerate(o.tab) if x == c]),
                )
            )
        return mkbool(z3.Or(*ors)) if ors else False

    def map(self, f):
        tab = tuple(f(c) for c in self.tab)
        if any(len(c) != 1 for c in tab):
            raise NeedConcrete("character map changes the length")
        first = tab[0]
        if all(c == first for c in tab):
            return first
        return Ch(self.var, tab) if tab != self.tab else self

    def eval(self, m):
        i = m.eval(E.cur.zint(self.var), model_completion=True).as_long()
        return self.tab[i]


class Word:
    """An identifier of symbolic length and content.

    b: variable naming its lower-case text, c: its letter case (0 lower, 1 upper, 2 capitalised, or
    a variable over these), len: its length. Two words are equal iff b and c are.
    """

    __slots__ = ("b", "c", "len")

    def __init__(self, b, c, length):
        self.b = b
        self.c = c
        self.len = length

    def same(self, o):
        return self is o or (isinstance(o, Word) and self.b == o.b and self.c == o.c)

    def ce(self):
        return z3.IntVal(self.c) if isinstance(self.c, int) else E.cur.zint(self.c)

    def case_is(self, k):
        if isinstance(self.c, int):
            return self.c == k
        return SymBool(E.cur.zint(self.c) == k)

    def eq_const(self, s):
        low = s.lower()
        if (low in RESERVED and low not in E.cur.soft) or not _IDENT.match(s):
            if len(_NEVER) < 10000:
                _NEVER.add(s)
            return False
        if s == low:
            k = 0
        elif s == s.upper():
            k = 1
        elif len(s) >= 2 and s == s.capitalize():
            k = 2
        else:
            return False
        if isinstance(self.c, int) and self.c != k:
            return False
        lo, hi = self.len.range()
        if (hi is not None and len(s) > hi) or len(s) < lo:
            return False
        en = E.cur
        i = en.const_ids.get(low)
        if i is None:
            i = en.const_ids[low] = len(en.const_ids) + 1
        b = en.zint(self.b)
        key = (self.b, i)
        if key not in en.seen_axioms:
            en.seen_axioms.add(key)
            en.add(z3.Implies(b == i, self.len.e == len(s)))
        e = b == i
        if not isinstance(self.c, int):
            e = z3.And(e, en.zint(self.c) == k)
        return SymBool(e)

    def eq(self, o):
        if self.same(o):
            return True
        en = E.cur
        cc = None
        if self.c != o.c:
            if isinstance(self.c, int) and isinstance(o.c, int):
                return False
            cc = self.ce() == o.ce()
        if self.b == o.b:
            return SymBool(cc)
        ba, bb = en.zint(self.b), en.zint(o.b)
        key = (self.b, o.b) if self.b < o.b else (o.b, self.b)
        if key not in en.seen_axioms:
            en.seen_axioms.add(key)
            en.add(z3.Implies(ba == bb, self.len.e == o.len.e))
        e = ba == bb
        return SymBool(z3.And(e, cc) if cc is not None else e)

    def eval(self, m):
        en = E.cur
        bv = m.eval(en.zint(self.b), model_completion=True).as_long()
        cv = self.c if isinstance(self.c, int) else m.eval(en.zint(self.c), model_completion=True).as_long()
        lv = m.eval(self.len.e, model_completion=True).as_long()
        low = en.word_names(m).get((bv, lv))
        if low is None:
            low = make_name(bv, lv, ())
        return low if cv == 0 else low.upper() if cv == 1 else low.capitalize()

    def length(self):
        return self.len


class Num:
    """Decimal digits of a non-negative symbolic integer, without leading zeros."""

    __slots__ = ("v", "len")

    def __init__(self, v):
        self.v = v
        self.len = None

    def same(self, o):
        return self is o or (isinstance(o, Num) and not isinstance(self.v - o.v, SymInt) and self.v - o.v == 0)

    def eq(self, o):
        return self.v == o.v

    def length(self):
        if self.len is None:
            en = E.cur
            lo, hi = self.v.range()
            hi_len = len(str(hi)) if hi is not None else 40
            lo_len = len(str(max(lo or 0, 0)))
            if lo_len == hi_len:
                self.len = lo_len
                return self.len
            # one length variable per value expression
            key = ("numlen", str(self.v.e))
            name = en.names.get(key)
            if name is None:
                name = en.names[key] = en.new_nat("dl", hi_len - lo_len)
                n = SymInt(lo_len, {name: 1}).e
                for k in range(lo_len, hi_len + 1):
                    lo_v = 0 if k == 1 else 10 ** (k - 1)
                    en.add(z3.Implies(n == k, z3.And(self.v.e >= lo_v, self.v.e < 10**k)))
                en.model = None
            self.len = SymInt(lo_len, {name: 1})
        return self.len

    def eval(self, m):
        return str(m.eval(self.v.e, model_completion=True).as_long())


_FIRST = "wxzvkqjhgpmtnsdcelybaiou"
_LATER = "wx_z1vkqjh0gpm_tn7sdcelyba2iou9"


def make_name(bv, length, taken):
    """The bv-th name of that length which is no reserved word. (The second character is a letter,
    so that the three letter cases differ.)"""
    i = bv
    while True:
        chars = []
        n = i
        for k in range(length):
            alphabet = _FIRST if k < 2 else _LATER
            chars.append(alphabet[(n + 5 * k) % len(alphabet)])
            n //= len(alphabet)
        s = "".join(chars)
        if s not in taken and s not in RESERVED:
            return s
        i += 1


def _word_names(self, m):
    """Lower-case text of every word base of the path under the model, all different."""
    cached = getattr(self, "_wn_cache", None)
    if cached is not None and cached[0] is m and cached[1] == len(self.words):
        return cached[2]
    out = {}
    ids = {i: s for s, i in self.const_ids.items()}
    taken = set(self.const_ids)
    for b, w in self.words.items():
        bv = m.eval(self.zint(b), model_completion=True).as_long()
        lv = m.eval(w.len.e, model_completion=True).as_long()
        # words which were never compared may have the same number and different lengths
        if (bv, lv) in out:
            continue
        if bv in ids and len(ids[bv]) == lv:
            out[bv, lv] = ids[bv]
        else:
            out[bv, lv] = make_name(abs(bv), lv, taken)
            taken.add(out[bv, lv])
    self._wn_cache = (m, len(self.words), out)
    return out


E.Engine.word_names = _word_names


# ------------------------------------------------------------------ ropes
class Rope:
    __slots__ = ("parts", "_cells")

    def __init__(self, parts):
        self.parts = parts
        self._cells = None

    # -- structure
    @property
    def cells(self):
        c = self._cells
        if c is None:
            c = []
            for p in self.parts:
                if type(p) is str:
                    c.extend(p)
                else:
                    c.append(p)
            self._cells = c
        return c

    def eval(self, m):
        return "".join(p if type(p) is str else p.eval(m) for p in self.parts)

    def __repr__(self):
        return "<Rope %s>" % "".join(
            p if type(p) is str else "{%s}" % (p.b if type(p) is Word else type(p).__name__ + ":" + str(getattr(p, "var", "")))
            for p in self.parts
        )

    # -- conversions Python insists on
    def __str__(self):
        return concretize(self)

    def __hash__(self):
        return hash(concretize(self))

    def __bool__(self):
        return True

    def __len__(self):
        n = rope_len(self)
        return n if isinstance(n, int) else enumerate_int(n)

    def __iter__(self):
        for c in self.cells:
            if type(c) in (Word, Num):
                for x in concretize(mk([c])):
                    yield x
            else:
                yield c if type(c) is str else Rope((c,))

    def __format__(self, spec):
        if spec:
            return format(concretize(self), spec)
        return concretize(self)

    # -- comparisons
    def __eq__(self, o):
        if isinstance(o, (str, Rope)):
            return rope_eq(self, o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (str, Rope)):
            return Not(rope_eq(self, o))
        return NotImplemented

    def __lt__(self, o):
        return concretize(self) < concretize(o)

    def __le__(self, o):
        return concretize(self) <= concretize(o)

    def __gt__(self, o):
        return concretize(self) > concretize(o)

    def __ge__(self, o):
        return concretize(self) >= concretize(o)

    # -- operators
    def __add__(self, o):
        if isinstance(o, (str, Rope)):
            return mk([self, o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, Rope)):
            return mk([o, self])
        return NotImplemented

    def __mul__(self, n):
        return mk([self] * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return percent_format(self, args)

    def __contains__(self, x):
        return bool(contains(self, x))

    def __getitem__(self, i):
        return getitem(self, i)

    @property
    def sx_cells(self):
        """Cells, each as a string of its own (for harnesses)."""
        return [c if type(c) is str else Rope((c,)) for c in self.cells]

    @property
    def sx_atom(self):
        """'word', 'num' or 'ch' for a string of one symbolic cell."""
        if len(self.parts) == 1:
            return {Word: "word", Num: "num", Ch: "ch"}.get(type(self.parts[0]))
        return None

    def __getattr__(self, name):
        m = METHODS.get(name)
        if m is not None:
            return BoundStr(self, name)
        if hasattr(str, name):
            return BoundStr(self, name)
        raise AttributeError("'str' object has no attribute %r" % name)


class BoundStr:
    __slots__ = ("s", "name")

    def __init__(self, s, name):
        self.s = s
        self.name = name

    def __call__(self, *a, **k):
        return str_method(self.s, self.name, a, k)


STR = (str, Rope)


def mk(parts):
    """Rope or str out of strs, ropes and atoms."""
    out = []
    buf = []
    for p in parts:
        if type(p) is str:
            if p:
                buf.append(p)
        elif type(p) is Rope:
            for q in p.parts:
                if type(q) is str:
                    buf.append(q)
                else:
                    if buf:
                        out.append("".join(buf))
                        buf = []
                    out.append(q)
        else:
            if buf:
                out.append("".join(buf))
                buf = []
            out.append(p)
    if buf:
        out.append("".join(buf))
    if not out:
        return ""
    if len(out) == 1 and type(out[0]) is str:
        return out[0]
    return Rope(tuple(out))


def cells_of(s):
    return s.cells if type(s) is Rope else list(s)


def is_char(c, x):
    """Whether a cell is the character (may fork)."""
    if type(c) is str:
        return c == x
    return type(c) is Ch and x in c.tab and bool(Rope((c,)) == x)


def parts_of(s):
    return s.parts if type(s) is Rope else ((s,) if s else ())


def is_sym(x):
    return type(x) in (Rope, SymInt, SymBool)


def cell_len(c):
    t = type(c)
    if t is str or t is Ch:
        return 1
    if t is Word:
        return c.len
    return c.length()


def rope_len(s):
    if type(s) is str:
        return len(s)
    n = 0
    for p in s.parts:
        if type(p) is str:
            n = n + len(p)
        else:
            n = n + cell_len(p)
    return n


# ------------------------------------------------------------------ concretisation
def concretize(x, why="conversion"):
    """One concrete value of x; the path is restricted to it (noted as incomplete)."""
    if type(x) is SymBool:
        return bool(x)
    if type(x) is SymInt:
        return int(x)
    if type(x) is not Rope:
        return x
    en = E.cur
    # characters are enumerated completely, words and numbers restricted to one value
    out = []
    for p in x.parts:
        t = type(p)
        if t is str:
            out.append(p)
        elif t is Ch:
            out.append(enumerate_ch(p))
        elif t is Num:
            out.append(_pin_num(p))
        else:
            out.append(_pin_word(p))
    return "".join(out)


def enumerate_ch(p):
    en = E.cur
    chars = sorted(set(p.tab))
    for c in chars[:-1]:
        if en.decide(zb(p.eq(c))):
            return c
    return chars[-1]


def _note(why):
    en = E.cur
    en.conc += 1
    en.conc_why[why] = en.conc_why.get(why, 0) + 1


def _pin_num(p):
    en = E.cur
    _note("number pinned")
    v = en.choose_value(lambda: en.current_model().eval(p.v.e, model_completion=True).as_long())
    en.assume(SymBool(p.v.e == v))
    return str(v)


def _pin_word(w):
    en = E.cur
    _note("identifier pinned")
    # all letter cases are kept: three alternatives
    if not isinstance(w.c, int):
        for k in (0, 1):
            if en.decide(en.zint(w.c) == k):
                c = k
                break
        else:
            c = 2
    else:
        c = w.c

    def compute():
        m = en.current_model()
        bv = m.eval(en.zint(w.b), model_completion=True).as_long()
        ids = {i: s for s, i in en.const_ids.items()}
        if bv in ids:
            return ids[bv]
        lv = m.eval(w.len.e, model_completion=True).as_long()
        lo, hi = w.len.range()
        if lv < 3 and (hi is None or hi >= 3):
            # prefer a name longer than a letter when possible
            if en.check(w.len.e == 3) == z3.sat:
                lv = 3
        return make_name(bv + 1, lv, set(en.const_ids))

    text = en.choose_value(compute)
    i = en.const_ids.get(text)
    if i is None:
        i = en.const_ids[text] = len(en.const_ids) + 1
    en.assume(SymBool(z3.And(en.zint(w.b) == i, w.len.e == len(text))))
    return text if c == 0 else text.upper() if c == 1 else text.capitalize()


# ------------------------------------------------------------------ equality
def _runs(cells):
    """Splits cells into maximal runs of identifier characters and single other cells."""
    out = []
    run = []
    for c in cells:
        t = type(c)
        if t is Word or t is Num:
            run.append(c)
        elif t is str:
            if c in _IDENT_CHARS:
                run.append(c)
            else:
                if run:
                    out.append(tuple(run))
                    run = []
                out.append(c)
        else:
            inside = [x in _IDENT_CHARS for x in c.tab]
            if all(inside):
                run.append(c)
            elif not any(inside):
                if run:
                    out.append(tuple(run))
                    run = []
                out.append(c)
            else:
                raise NeedConcrete("mixed character class")
    if run:
        out.append(tuple(run))
    return out


def _cell_eq(a, b):
    """Equality of two cells of fixed length 1."""
    if type(a) is str:
        return a == b if type(b) is str else b.eq(a)
    return a.eq(b)


def _run_eq(a, b):
    """Equality of two runs of identifier characters."""
    # common prefix and suffix
    while a and b and _same(a[0], b[0]):
        a, b = a[1:], b[1:]
    while a and b and _same(a[-1], b[-1]):
        a, b = a[:-1], b[:-1]
    if not a and not b:
        return True
    if not a or not b:
        return False  # every cell has at least one character
    fa = all(type(x) in (str, Ch) for x in a)
    fb = all(type(x) in (str, Ch) for x in b)
    if fa and fb:
        if len(a) != len(b):
            return False
        return And(*[_cell_eq(x, y) for x, y in zip(a, b)])
    if fb:
        a, b, fa, fb = b, a, fb, fa
    # b has words or numbers
    if len(b) == 1:
        w = b[0]
        if fa:
            if type(w) is Num:
                if all(type(x) is str for x in a):
                    s = "".join(a)
                    if not (s.isdigit() and s.isascii()) or str(int(s)) != s:
                        return False
                    return w.v == int(s)
                raise NeedConcrete("digits against number")
            # a letter or underscore must come first
            if type(a[0]) is str and a[0] in _DIGITS:
                return False
            if all(type(x) is str for x in a):
                return w.eq_const("".join(a))
            # characters over letters against a word: reserved words excluded, few values -> enumerate
            raise NeedConcrete("characters against identifier")
        if len(a) == 1:
            v = a[0]
            if type(v) is type(w):
                return v.eq(w)
            return False  # a word never equals a number
    lo_a, hi_a = _run_range(a)
    lo_b, hi_b = _run_range(b)
    if (hi_a is not None and hi_a < lo_b) or (hi_b is not None and hi_b < lo_a):
        return False
    raise NeedConcrete("composite identifiers")


def _run_range(a):
    lo = hi = 0
    for c in a:
        n = cell_len(c)
        l, h = (n, n) if isinstance(n, int) else n.range()
        lo += l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


def _same(a, b):
    if type(a) is not type(b):
        return False
    return a == b if type(a) is str else a.same(b)


def rope_eq(a, b):
    if type(a) is str and type(b) is str:
        return a == b
    if a is b:
        return True
    if type(a) is str:
        a, b = b, a
    if type(b) is str and len(a.parts) == 1:
        p = a.parts[0]
        t = type(p)
        if t is Word:
            return False if b in _NEVER and b.lower() not in E.cur.soft else p.eq_const(b)
        if t is Ch:
            return p.eq(b) if len(b) == 1 else False
    ca, cb = cells_of(a), cells_of(b)
    # quick structural part
    i = 0
    n = min(len(ca), len(cb))
    while i < n and _same(ca[i], cb[i]):
        i += 1
    if i == len(ca) and i == len(cb):
        return True
    while len(ca) > i and len(cb) > i and _same(ca[-1], cb[-1]):
        ca, cb = ca[:-1], cb[:-1]
    ca, cb = ca[i:], cb[i:]
    n, i = min(len(ca), len(cb)), 0
    # quick refutation on the first difference between fixed cells
    if i < n and type(ca[i]) is str and type(cb[i]) is str:
        return False
    try:
        fixed = all(type(c) in (str, Ch) for c in ca) and all(type(c) in (str, Ch) for c in cb)
        if fixed:
            if len(ca) != len(cb):
                return False
            return And(*[_cell_eq(x, y) for x, y in zip(ca, cb)])
        ra, rb = _runs(ca), _runs(cb)
        # empty side
        if not ra or not rb:
            return not ra and not rb
        if len(ra) != len(rb):
            return False
        conds = []
        for x, y in zip(ra, rb):
            if type(x) is tuple and type(y) is tuple:
                r = _run_eq(x, y)
            elif type(x) is tuple or type(y) is tuple:
                return False
            else:
                r = _cell_eq(x, y)
            if r is False:
                return False
            conds.append(r)
        return And(*conds)
    except NeedConcrete:
        _note("equality of strings")
        return concretize(a) == concretize(b)


# ------------------------------------------------------------------ searching
def n_needle_long(needle):
    return len(needle) > 9 and all(type(x) is str for x in needle)


def _match_at(cells, i, needle):
    """Condition that the constant needle starts at cell i (needle: list of fixed cells)."""
    conds = []
    n = len(cells)
    if i + len(needle) > n:
        # only words could supply more characters than cells
        if all(type(c) in (str, Ch) for c in cells[i:]):
            return False
    for j, x in enumerate(needle):
        if i + j >= n:
            return False
        c = cells[i + j]
        t = type(c)
        if t is str:
            if type(x) is str:
                if c != x:
                    return False
            else:
                r = x.eq(c)
                if r is False:
                    return False
                conds.append(r)
        elif t is Ch:
            r = c.eq(x)
            if r is False:
                return False
            conds.append(r)
        else:
            opts = (x,) if type(x) is str else x.tab
            allowed = _IDENT_CHARS if t is Word else _DIGITS
            if not any(o in allowed for o in opts):
                return False
            if n_needle_long(needle):
                return False  # opaque names contain no such text (see TRUST)
            # A needle that starts with a character no identifier has cannot start inside the
            # word, but this one would run into it
            raise NeedConcrete("search inside an identifier")
    return And(*conds)


def _needle(x):
    cells = cells_of(x)
    if any(type(c) not in (str, Ch) for c in cells):
        raise NeedConcrete("search for an identifier")
    return cells


def find_cells(cells, needle, start=0):
    """Index of the first cell where needle matches (forking), or -1."""
    if not needle:
        return start
    x0 = needle[0]
    if type(x0) is str and len(needle) == 1:
        ident = x0 in _IDENT_CHARS
        for i in range(start, len(cells)):
            c = cells[i]
            t = type(c)
            if t is str:
                if c == x0:
                    return i
            elif t is Ch:
                r = c.eq(x0)
                if r is not False and (r is True or bool(r)):
                    return i
            elif ident and (t is Word or x0 in _DIGITS):
                raise NeedConcrete("search inside an identifier")
        return -1
    for i in range(start, len(cells)):
        r = _match_at(cells, i, needle)
        if r is not False and (r is True or bool(r)):
            return i
    return -1


def find_word(cells, words, start=0):
    """Needle made of words: cell-wise search, words only equal to whole cells."""
    n = len(words)
    for i in range(start, len(cells) - n + 1):
        conds = []
        ok = True
        for j, x in enumerate(words):
            c = cells[i + j]
            tx, tc = type(x), type(c)
            if tx is str or tx is Ch:
                if tc not in (str, Ch):
                    raise NeedConcrete("search inside an identifier")
                r = _cell_eq(c, x)
            elif tx is tc:
                r = c.eq(x)
            elif tc is str and c not in _IDENT_CHARS:
                r = False
            else:
                raise NeedConcrete("search for an identifier")
            if r is False:
                ok = False
                break
            conds.append(r)
        if ok and bool(And(*conds)):
            return i
    return -1


def contains(hay, needle):
    if type(hay) is str and type(needle) is str:
        return needle in hay
    if not isinstance(needle, STR):
        raise TypeError("'in <string>' requires string as left operand")
    try:
        if type(hay) is str and len(cells_of(needle)) == 1 and type(cells_of(needle)[0]) is Ch:
            return cells_of(needle)[0].cond(lambda x: x in hay)
        if type(hay) is str and not any(type(c) is Word or type(c) is Num for c in cells_of(needle)):
            # constant haystack, needle of characters: any substring of that length
            n = len(cells_of(needle))
            subs = {hay[i : i + n] for i in range(len(hay) - n + 1)}
            return Or(*[rope_eq(needle, s) for s in sorted(subs)])
        if type(hay) is str:
            words = set(re.findall(r"[A-Za-z0-9_]+", hay))
            nc = cells_of(needle)
            if len(nc) == 1 and type(nc[0]) is Word:
                subs = set()
                lo, hi = nc[0].len.range()
                for w in words:
                    for i in range(len(w)):
                        for j in range(i + lo, min(len(w), i + (hi or len(w))) + 1):
                            subs.add(w[i:j])
                return Or(*[rope_eq(needle, s) for s in sorted(subs)])
            raise NeedConcrete("constant contains identifiers")
        nd = _needle(needle)
        return find_cells(hay.cells, nd) != -1
    except NeedConcrete as e:
        try:
            return find_word(cells_of(hay), cells_of(needle)) != -1
        except NeedConcrete:
            pass
        _note("search: %s" % e)
        return concretize(needle) in concretize(hay)


# ------------------------------------------------------------------ indexing
def _pos_to_cell(cells, idx):
    """Cell boundary at character position idx (int or SymInt, >= 0); None when inside a word."""
    n = 0
    k = 0
    total = len(cells)
    while True:
        d = n - idx
        if not isinstance(d, SymInt):
            if d == 0:
                return k
            if d > 0:
                return None
        if k >= total:
            if isinstance(d, SymInt):
                return None
            return k  # past the end
        n = n + cell_len(cells[k])
        k += 1


def _neg_to_cell(cells, idx):
    """Cell boundary idx characters before the end (idx int > 0)."""
    k = len(cells)
    n = 0
    while k > 0 and n < idx:
        c = cells[k - 1]
        if type(c) in (Word, Num):
            return None
        n += 1
        k -= 1
    return k


def getitem(s, i):
    try:
        cells = cells_of(s)
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                if not any(type(c) in (Word, Num) for c in cells) and not isinstance(i.start, SymInt) and not isinstance(i.stop, SymInt):
                    return mk(cells[i])
                raise NeedConcrete("slice step")

            def bound(x, default):
                if x is None:
                    return default
                if isinstance(x, SymBool):
                    x = int(bool(x))
                if isinstance(x, SymInt):
                    neg = x < 0
                    if bool(neg):
                        lo, hi = x.range()
                        # negative symbolic index: end - |x|
                        x = rope_len(s) + x
                    p = _pos_to_cell(cells, x)
                elif x < 0:
                    p = _neg_to_cell(cells, -x)
                else:
                    p = _pos_to_cell(cells, x)
                if p is None:
                    raise NeedConcrete("slice inside an identifier")
                return p

            a = bound(i.start, 0)
            b = bound(i.stop, len(cells))
            return mk(cells[a:b])
        if isinstance(i, SymInt):
            p = _pos_to_cell(cells, i)
        elif i < 0:
            p = _neg_to_cell(cells, -i)
            fixed_all = all(type(c) in (str, Ch) for c in cells)
            if fixed_all and -i > len(cells):
                raise IndexError("string index out of range")
        else:
            p = _pos_to_cell(cells, i)
        if p is None:
            raise NeedConcrete("index inside an identifier")
        if p >= len(cells):
            raise IndexError("string index out of range")
        if type(cells[p]) in (Word, Num):
            raise NeedConcrete("index inside an identifier")
        return mk([cells[p]])
    except NeedConcrete as e:
        _note("index: %s" % e)
        x = concretize(s)
        if isinstance(i, slice):
            i = slice(*[concretize(q) for q in (i.start, i.stop, i.step)])
        return x[concretize(i)]


# ------------------------------------------------------------------ str methods
WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def _in_chars(c, chars):
    """Condition that cell c is a character of chars."""
    t = type(c)
    if t is str:
        return c in chars
    if t is Ch:
        return c.cond(lambda x: x in chars)
    allowed = _IDENT_CHARS if t is Word else _DIGITS
    if any(x in allowed for x in chars):
        raise NeedConcrete("strip identifier characters")
    return False


def _index_of(cells, k):
    n = 0
    for c in cells[:k]:
        n = n + cell_len(c)
    return n


def m_lower(s):
    return _map_chars(s, str.lower, 0)


def m_upper(s):
    return _map_chars(s, str.upper, 1)


def m_casefold(s):
    return _map_chars(s, str.casefold, 0)


def _map_chars(s, f, case):
    out = []
    for p in s.parts:
        t = type(p)
        if t is str:
            out.append(f(p))
        elif t is Ch:
            out.append(p.map(f))
        elif t is Word:
            out.append(Word(p.b, case, p.len))
        else:
            out.append(p)
    return mk(out)


def m_swapcase(s):
    if any(type(p) is Word for p in s.parts):
        raise NeedConcrete("swapcase")
    return _map_chars(s, str.swapcase, 0)


def _strip(s, chars, left, right):
    if chars is None:
        chars = WS
    if type(chars) is not str:
        raise NeedConcrete("strip symbolic characters")
    cells = cells_of(s)
    a, b = 0, len(cells)
    if left:
        while a < b:
            r = _in_chars(cells[a], chars)
            if r is False or not bool(r):
                break
            a += 1
    if right:
        while b > a:
            r = _in_chars(cells[b - 1], chars)
            if r is False or not bool(r):
                break
            b -= 1
    return mk(cells[a:b])


def m_strip(s, chars=None):
    return _strip(s, chars, True, True)


def m_lstrip(s, chars=None):
    return _strip(s, chars, True, False)


def m_rstrip(s, chars=None):
    return _strip(s, chars, False, True)


def _whitespace_split(s, maxsplit):
    out = []
    run = []
    cells = cells_of(s)
    for k, c in enumerate(cells):
        if bool(_in_chars(c, WS)):
            if run:
                out.append(mk(run))
                run = []
        else:
            if not run and maxsplit >= 0 and len(out) >= maxsplit:
                out.append(m_rstrip_any(mk(cells[k:])))
                return out
            run.append(c)
    if run:
        out.append(mk(run))
    return out


def m_rstrip_any(s):
    return s.rstrip() if type(s) is str else m_rstrip(s)


def m_split(s, sep=None, maxsplit=-1):
    if sep is None:
        return _whitespace_split(s, maxsplit)
    cells = cells_of(s)
    nd = cells_of(sep)
    if not nd:
        raise ValueError("empty separator")
    nd = _needle(sep)
    out = []
    start = 0
    while maxsplit < 0 or len(out) < maxsplit:
        i = find_cells(cells, nd, start)
        if i < 0:
            break
        out.append(mk(cells[start:i]))
        start = i + len(nd)
    out.append(mk(cells[start:]))
    return out


def m_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return m_split(s, sep)
    cells = cells_of(s)
    if sep is None:
        raise NeedConcrete("rsplit on whitespace")
    nd = _needle(sep)
    out = []
    end = len(cells)
    while len(out) < maxsplit:
        i = _rfind_cells(cells, nd, end)
        if i < 0:
            break
        out.append(mk(cells[i + len(nd) : end]))
        end = i
    out.append(mk(cells[:end]))
    return out[::-1]


def _rfind_cells(cells, nd, end):
    for i in range(end - len(nd), -1, -1):
        r = _match_at(cells[:end], i, nd)
        if r is not False and bool(r):
            return i
    return -1


_LINE = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def m_splitlines(s, keepends=False):
    out = []
    cells = cells_of(s)
    start = 0
    i = 0
    while i < len(cells):
        if bool(_in_chars(cells[i], _LINE)):
            j = i + 1
            if bool(_in_chars(cells[i], "\r")) and j < len(cells) and bool(_in_chars(cells[j], "\n")):
                j += 1
            out.append(mk(cells[start : j if keepends else i]))
            start = i = j
        else:
            i += 1
    if start < len(cells):
        out.append(mk(cells[start:]))
    return out


def m_partition(s, sep):
    cells = cells_of(s)
    nd = _needle(sep)
    i = find_cells(cells, nd)
    if i < 0:
        return s, "", ""
    return mk(cells[:i]), sep, mk(cells[i + len(nd) :])


def m_rpartition(s, sep):
    cells = cells_of(s)
    nd = _needle(sep)
    i = _rfind_cells(cells, nd, len(cells))
    if i < 0:
        return "", "", s
    return mk(cells[:i]), sep, mk(cells[i + len(nd) :])


def m_replace(s, old, new, count=-1):
    cells = cells_of(s)
    if not cells_of(old):
        raise NeedConcrete("replace the empty string")
    try:
        nd = _needle(old)
        finder = find_cells
    except NeedConcrete:
        nd = cells_of(old)
        finder = find_word
    out = []
    start = 0
    n = 0
    while count < 0 or n < count:
        i = finder(cells, nd, start)
        if i < 0:
            break
        out.extend(cells[start:i])
        out.append(new)
        start = i + len(nd)
        n += 1
    if n == 0:
        return s
    out.extend(cells[start:])
    return mk(out)


def _as_tuple(x):
    return x if isinstance(x, tuple) else (x,)


def _range_args(s, start, end):
    if start is not None or end is not None:
        return getitem(s, slice(start, end))
    return s


def m_startswith(s, prefix, start=None, end=None):
    s = _range_args(s, start, end)
    cells = cells_of(s)
    res = []
    for p in _as_tuple(prefix):
        nd = cells_of(p)
        if any(type(c) not in (str, Ch) for c in nd):
            if len(nd) <= len(cells) and all(_same(a, b) for a, b in zip(cells, nd)):
                # only certain when nothing of an identifier follows
                if len(nd) == len(cells) or not _ident_cell(cells[len(nd)]):
                    res.append(True)
                    continue
            if all(type(c) is str for c in cells):
                text = "".join(cells)
                res.append(Or(*[rope_eq(p, text[:k]) for k in range(len(text) + 1)]))
                continue
            raise NeedConcrete("startswith identifier")
        res.append(_match_at(cells, 0, nd))
    return Or(*res)


def _ident_cell(c):
    if type(c) is str:
        return c in _IDENT_CHARS
    if type(c) is Ch:
        return any(x in _IDENT_CHARS for x in c.tab)
    return True


def m_endswith(s, suffix, start=None, end=None):
    s = _range_args(s, start, end)
    cells = cells_of(s)
    res = []
    for p in _as_tuple(suffix):
        nd = cells_of(p)
        if all(type(c) is str for c in cells) and any(type(c) not in (str, Ch) for c in nd):
            text = "".join(cells)
            res.append(Or(*[rope_eq(p, text[k:]) for k in range(len(text) + 1)]))
            continue
        conds = []
        ok = True
        for a, b in zip(reversed(cells), reversed(nd)):
            ta, tb = type(a), type(b)
            if ta in (str, Ch) and tb in (str, Ch):
                r = _cell_eq(a, b)
            elif _same(a, b):
                r = True
            elif ta in (Word, Num) and tb is str:
                if b not in (_IDENT_CHARS if ta is Word else _DIGITS):
                    r = False
                elif ta is Word and "_" in nd and all(type(c) is str for c in nd):
                    r = False  # opaque names do not end with a suffix the parser knows (see TRUST)
                else:
                    raise NeedConcrete("endswith in identifier")
            else:
                raise NeedConcrete("endswith")
            if r is False:
                ok = False
                break
            conds.append(r)
        if ok and len(nd) > len(cells):
            if all(type(c) in (str, Ch) for c in cells):
                ok = False
            else:
                raise NeedConcrete("endswith")
        res.append(And(*conds) if ok else False)
    return Or(*res)


def m_removeprefix(s, p):
    return getitem(s, slice(rope_len(p), None)) if bool(m_startswith(s, p)) else s


def m_removesuffix(s, p):
    if p and bool(m_endswith(s, p)):
        return mk(cells_of(s)[: len(cells_of(s)) - len(cells_of(p))])
    return s


def m_find(s, sub, start=None, end=None):
    cells = cells_of(s)
    k0 = 0
    if start is not None:
        if not isinstance(start, SymInt) and start < 0:
            raise NeedConcrete("negative start")
        k0 = _pos_to_cell(cells, start)
        if k0 is None:
            raise NeedConcrete("find from inside an identifier")
    k1 = len(cells)
    if end is not None:
        k1 = _pos_to_cell(cells, end)
        if k1 is None:
            raise NeedConcrete("find up to inside an identifier")
    i = find_cells(cells[:k1], _needle(sub), k0)
    return i if i < 0 else _index_of(cells, i)


def m_index(s, sub, start=None, end=None):
    r = m_find(s, sub, start, end)
    if not isinstance(r, SymInt) and r == -1:
        raise ValueError("substring not found")
    return r


def m_rfind(s, sub, start=None, end=None):
    if start is not None or end is not None:
        raise NeedConcrete("rfind range")
    cells = cells_of(s)
    i = _rfind_cells(cells, _needle(sub), len(cells))
    return i if i < 0 else _index_of(cells, i)


def m_rindex(s, sub, start=None, end=None):
    r = m_rfind(s, sub, start, end)
    if not isinstance(r, SymInt) and r == -1:
        raise ValueError("substring not found")
    return r


def m_count(s, sub, start=None, end=None):
    s = _range_args(s, start, end)
    cells = cells_of(s)
    nd = _needle(sub)
    if not nd:
        raise NeedConcrete("count empty")
    n = 0
    i = find_cells(cells, nd)
    while i >= 0:
        n += 1
        i = find_cells(cells, nd, i + len(nd))
    return n


def m_join(s, items):
    out = []
    first = True
    for x in items:
        if not isinstance(x, STR):
            raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
        if not first:
            out.append(s)
        out.append(x)
        first = False
    return mk(out)


def _all(s, pred, on_word, on_num):
    conds = []
    for p in s.parts:
        t = type(p)
        if t is str:
            if not all(pred(c) for c in p):
                return False
        elif t is Ch:
            r = p.cond(pred)
            if r is False:
                return False
            conds.append(r)
        else:
            r = on_word if t is Word else on_num
            if r is None:
                raise NeedConcrete("predicate on identifier")
            if r is False:
                return False
    return And(*conds)


def m_isdigit(s):
    return _all(s, str.isdigit, False, True)


def m_isdecimal(s):
    return _all(s, str.isdecimal, False, True)


def m_isnumeric(s):
    return _all(s, str.isnumeric, False, True)


def m_isspace(s):
    return _all(s, str.isspace, False, False)


def m_isalnum(s):
    return _all(s, str.isalnum, None, True)


def m_isalpha(s):
    return _all(s, str.isalpha, None, False)


def m_isascii(s):
    return _all(s, str.isascii, True, True)


def m_isprintable(s):
    return _all(s, str.isprintable, True, True)


def m_isidentifier(s):
    cells = s.cells
    if len(cells) == 1 and type(cells[0]) is Word:
        return True
    raise NeedConcrete("isidentifier")


def _iscase(s, k, pred_bad, pred_good):
    conds = []
    some = []
    for p in s.parts:
        t = type(p)
        if t is str:
            if any(pred_bad(c) for c in p):
                return False
            if any(pred_good(c) for c in p):
                some.append(True)
        elif t is Ch:
            conds.append(Not(p.cond(pred_bad)))
            some.append(p.cond(pred_good))
        elif t is Word:
            conds.append(p.case_is(k))
            some.append(True)
    return And(Or(*some), *conds)


def m_islower(s):
    return _iscase(s, 0, lambda c: c.isupper(), lambda c: c.islower())


def m_isupper(s):
    return _iscase(s, 1, lambda c: c.islower(), lambda c: c.isupper())


def m_format(s, *a, **k):
    return brace_format(s, a, k)


def m_ljust(s, width, fill=" "):
    n = width - rope_len(s)
    return mk([s, fill * int(n)]) if n > 0 else s


def m_rjust(s, width, fill=" "):
    n = width - rope_len(s)
    return mk([fill * int(n), s]) if n > 0 else s


METHODS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("m_") and k != "m_rstrip_any"}


def deep_sym(x):
    t = type(x)
    if t in (Rope, SymInt, SymBool):
        return True
    if t in (tuple, list):
        return any(deep_sym(y) for y in x)
    return False


def deep_concretize(x):
    t = type(x)
    if t in (Rope, SymInt, SymBool):
        return concretize(x)
    if t is tuple:
        return tuple(deep_concretize(y) for y in x)
    if t is list:
        return [deep_concretize(y) for y in x]
    if t is dict:
        return {deep_concretize(a): deep_concretize(b) for a, b in x.items()}
    return x


def str_method(s, name, args, kw):
    """Method call on a Rope, or on a str with symbolic arguments."""
    E.cur.tick()
    m = METHODS.get(name)
    if m is not None:
        if type(s) is str and name not in ("join", "format"):
            s2 = Rope((s,)) if s else Rope(())
        else:
            s2 = s
        try:
            r = m(s2, *args, **kw)
            return r
        except NeedConcrete as e:
            _note("%s: %s" % (name, e))
    else:
        _note("str.%s" % name)
    s = concretize(s)
    return getattr(s, name)(*[deep_concretize(a) for a in args], **{k: deep_concretize(v) for k, v in kw.items()})


# ------------------------------------------------------------------ formatting
def to_str(x):
    """str(x), possibly symbolic."""
    t = type(x)
    if t is str or t is Rope:
        return x
    if t is SymInt:
        lo, hi = x.range()
        if (lo is not None and lo >= 0) or bool(x >= 0):
            return Rope((Num(x),))
        return mk(["-", Num(-x)])
    if t is SymBool:
        return str(bool(x))
    if isinstance(x, SymFloat):
        return x.to_str()
    if isinstance(x, (int, float, type(None), bool, complex)):
        return str(x)
    if isinstance(x, BaseException):
        a = x.args
        if "__str__" in t.__dict__:
            return t.__str__(x)
        if not a:
            return ""
        if len(a) == 1:
            return to_str(a[0])
        return to_repr(a)
    if isinstance(x, (list, tuple, dict)) and type(x).__str__ is object.__str__:
        return to_repr(x)
    s = type(x).__str__
    if s is object.__str__:
        return to_repr(x)
    return s(x)


def to_repr(x):
    t = type(x)
    if t is Rope:
        cs = x.cells
        if any(type(c) is str and (c in "'\\" or not c.isprintable()) for c in cs) or any(type(c) is Ch for c in cs):
            return repr(concretize(x))
        return mk(["'", x, "'"])
    if t in (SymInt, SymBool):
        return to_str(x)
    if t is list:
        return mk(["[", m_join(", ", [to_repr(y) for y in x]), "]"])
    if t is tuple:
        if len(x) == 1:
            return mk(["(", to_repr(x[0]), ",)"])
        return mk(["(", m_join(", ", [to_repr(y) for y in x]), ")"])
    if t.__module__ == "builtins":
        return repr(x)
    return t.__repr__(x)


def format_value(v, conv, spec):
    if conv == "r" or conv == ord("r"):
        v = to_repr(v)
    elif conv == "s" or conv == ord("s"):
        v = to_str(v)
    elif conv in ("a", ord("a")):
        v = ascii(deep_concretize(v))
    if spec in ("", None):
        return to_str(v) if not _custom_format(v) else v.__format__("")
    if type(v) is Rope and spec == "s":
        return v
    if type(v) is SymInt and spec == "d":
        return to_str(v)
    return format(deep_concretize(v), concretize(spec))


def _custom_format(v):
    return type(v).__format__ is not object.__format__ and "__format__" in type(v).__dict__ and type(v) not in (
        Rope,
        SymInt,
        SymBool,
        str,
        int,
        float,
        bool,
        complex,
    )


def brace_format(fmt, args, kw):
    import string

    if type(fmt) is Rope:
        fmt = concretize(fmt)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r"^([^.\[]*)(.*)$", field)
        head, rest = m.group(1), m.group(2)
        if head == "":
            v = args[auto]
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            v = kw[head]
        for attr, item in re.findall(r"\.([A-Za-z_]\w*)|\[([^\]]*)\]", rest):
            if attr:
                v = getattr(v, attr)
            else:
                v = v[int(item) if item.isdigit() else item]
        if spec and "{" in spec:
            spec = brace_format(spec, args[auto:], kw)
        out.append(format_value(v, conv, spec))
    return mk(out)


def percent_format(fmt, args):
    if type(fmt) is Rope:
        fmt = concretize(fmt)
    if not isinstance(args, (tuple, dict)):
        args = (args,)
    out = []
    pos = 0
    i = 0
    for m in re.finditer(r"%(\((?P<name>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<w>\*|\d+)?(\.(?P<p>\*|\d+))?(?P<t>[a-zA-Z%])", fmt):
        out.append(fmt[pos : m.start()])
        pos = m.end()
        t = m.group("t")
        if t == "%":
            out.append("%")
            continue
        if m.group("name") is not None:
            v = args[m.group("name")]
        else:
            v = args[i]
            i += 1
        plain = not m.group("flags") and not m.group("w") and not m.group("p")
        if plain and t == "s":
            out.append(to_str(v))
        elif plain and t == "r":
            out.append(to_repr(v))
        elif plain and t in "di" and isinstance(v, (int, SymInt)):
            out.append(to_str(v))
        else:
            out.append(re.sub(r"\([^)]*\)", "", m.group(0)) % (deep_concretize(v),))
    out.append(fmt[pos:])
    return mk(out)


# ------------------------------------------------------------------ numbers from text
class SymFloat:
    """float(text) of a symbolic text; only its text is known."""

    def __init__(self, text, neg=False):
        self.text = text
        self.neg = neg

    def value(self):
        v = float(concretize(self.text))
        return -v if self.neg else v

    def to_str(self):
        return str(self.value())

    def __neg__(self):
        return SymFloat(self.text, not self.neg)

    def __eq__(self, o):
        if isinstance(o, SymFloat) and o.neg == self.neg and rope_eq(self.text, o.text) is True:
            return True
        return self.value() == (o.value() if isinstance(o, SymFloat) else o)

    def __hash__(self):
        return hash(self.value())

    def sign(self):
        """(negative, nonzero) of a text of digits, or None."""
        cells = [c for c in self.text.cells if c != "."]
        neg = self.neg
        if cells and cells[0] in ("-", "+"):
            neg = neg != (cells[0] == "-")
            cells = cells[1:]
        conds = []
        for c in cells:
            if type(c) is Num:
                conds.append(c.v != 0)
            elif type(c) is Ch and all(x in _DIGITS for x in c.tab):
                conds.append(c.cond(lambda x: x != "0"))
            elif type(c) is str and c in _DIGITS:
                conds.append(c != "0")
            else:
                return None
        return neg, Or(*conds)

    def _cmp0(self, o, f):
        if isinstance(o, (int, float)) and o == 0:
            s = self.sign()
            if s is not None:
                neg, nonzero = s
                v = -1 if neg else 1
                if f(v, 0) == f(0, 0):
                    return f(0, 0)
                return nonzero if f(v, 0) else Not(nonzero)
        return f(self.value(), o)

    def __lt__(self, o):
        return self._cmp0(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp0(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp0(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp0(o, lambda a, b: a >= b)

    def __float__(self):
        return self.value()

    def __int__(self):
        return int(self.value())

    def __bool__(self):
        return bool(self._cmp0(0, lambda a, b: a != b))

    def __add__(self, o):
        return self.value() + o

    def __radd__(self, o):
        return o + self.value()

    def __sub__(self, o):
        return self.value() - o

    def __mul__(self, o):
        return self.value() * o

    def is_integer(self):
        return self.value().is_integer()

    def __format__(self, spec):
        return format(self.value(), spec)


def to_int(x=0, base=10):
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return int(bool(x))
    if isinstance(x, SymFloat):
        return int(x.value())
    if type(x) is not Rope or base != 10:
        return int(concretize(x), base) if base != 10 else int(concretize(x))
    cells = x.cells
    neg = False
    if cells and cells[0] in ("-", "+"):
        neg = cells[0] == "-"
        cells = cells[1:]
    while len(cells) > 1 and cells[0] == "0":
        cells = cells[1:]
    if len(cells) == 1 and type(cells[0]) is Num:
        return -cells[0].v if neg else cells[0].v
    if cells and all(type(c) is Ch or (type(c) is str and c in _DIGITS) for c in cells):
        # digits of a finite domain: sum of digit values
        total = 0
        for c in cells:
            total = total * 10 if type(total) is SymInt or total else 0
            if type(c) is str:
                total = total + int(c)
            else:
                if bool(c.cond(lambda ch: ch.isdecimal() and ch.isascii())):
                    total = total + _digit_value(c)
                else:
                    return int(concretize(x))
        return -total if neg else total
    return int(concretize(x))


def _digit_value(c):
    en = E.cur
    if tuple(c.tab) == tuple("0123456789"):
        return SymInt(0, {c.var: 1})
    key = ("digit", c.var, c.tab)
    name = en.names.get(key)
    if name is None:
        name = en.names[key] = en.new_nat("dg", 9)
        v, d = en.zint(c.var), en.zint(name)
        en.add(z3.And(*[z3.Implies(v == i, d == int(ch)) for i, ch in enumerate(c.tab) if ch in _DIGITS]))
        en.model = None
    return SymInt(0, {name: 1})


def to_float(x=0.0):
    if type(x) is Rope:
        return SymFloat(x)
    if isinstance(x, SymFloat):
        return x
    if type(x) is SymInt:
        return float(int(x))
    return float(x)
