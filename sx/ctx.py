"""The interface harnesses are written against: symbolic, concrete (replay) and random backends."""
import os
import random as _random
import sys

import z3

from . import engine as E
from . import state
from . import values as V


class Violation(BaseException):
    def __init__(self, msg, model=None):
        super().__init__(msg)
        self.msg = msg
        self.model = model


class Reject(BaseException):
    """Concrete run: an assumption does not hold."""


LETTER_CASES = 3
PACKAGE = os.sep + "sqlvalidator" + os.sep
LINES = 8  # lines per unit of work, about


class SymCtx:
    symbolic = True

    def __init__(self, eng):
        self.e = eng
        self.observed = []
        self.case = None  # letter case shared by names

    # ---- draws
    def _draw(self, kind, v):
        self.e.draws.append((kind, v))
        return v

    def choose(self, n):
        k = self.e.choose(n)
        return self._draw("c", k)

    def pick(self, options):
        options = list(options)
        return options[self.choose(len(options))]

    def flag(self):
        return self.choose(2) == 1

    def sflag(self):
        """Symbolic boolean: decided only where it matters."""
        name = self.e.new_nat("f", 1)
        b = V.SymBool(self.e.zint(name) == 1)
        self.e.draws.append(("b", b))
        return b

    def word(self, lo=1, hi=10, case=None):
        e = self.e
        b = e.new_nat("w", None)
        length = V.new_int(lo, hi, "wl") if hi > lo else lo
        if not isinstance(length, V.SymInt):
            length = V.SymInt(lo, {})
        if case is None:
            c = e.new_nat("wc", 2)
            if lo < 2:
                e.add(z3.Or(e.zint(c) != 2, length.e >= 2))
        elif case == "same":
            # upper or lower case, as all the names of the path that are asked for in this way
            if self.case is None:
                self.case = e.new_nat("wc", 1)
            c = self.case
        else:
            c = case
        w = V.Word(b, c, length)
        e.words[b] = w
        return self._draw("w", V.Rope((w,)))

    def steps(self, factor):
        """Allow more steps than usual."""
        self.e.step_limit *= factor

    def work(self, f, limit):
        """The work f does (functions entered and iterations of loops); more than the limit: limit + 1."""
        e = self.e
        e.work, e.work_limit = 0, limit
        try:
            f()
        except E.WorkLimit:
            pass
        except Exception:
            pass
        n = e.work
        e.work = None
        return n

    def fresh(self):
        """Module state of the code under test is what it was after import."""
        state.fresh()

    def soft(self, words):
        """From now on identifiers may also be one of these keywords (lower case)."""
        self.e.soft = frozenset(words)

    def num(self, lo=0, hi=10**9):
        """Text of an integer (decimal digits, no sign)."""
        if lo == hi:
            return self._draw("n", str(lo))
        return self._draw("n", V.Rope((V.Num(V.new_int(lo, hi, "num")),)))

    def int(self, lo, hi):
        v = V.new_int(lo, hi, "int") if hi > lo else lo
        self.e.draws.append(("i", v))
        return v

    def ch(self, dom):
        if len(dom) == 1:
            return self._draw("h", dom)
        name = self.e.new_nat("ch", len(dom) - 1)
        return self._draw("h", V.Rope((V.Ch(name, tuple(dom)),)))

    def body(self, n, dom):
        return V.mk([self.ch(dom) for _ in range(n)])

    def kw(self, text):
        """Keyword with every letter in symbolic case."""
        out = []
        for c in text:
            out.append(self.ch(c.lower() + c.upper()) if c.isalpha() else c)
        return V.mk(out)

    # ---- logic
    def assume(self, c):
        self.e.assume(c)

    def require(self, c, msg=""):
        e = self.e
        e.obligations += 1
        if c is True:
            return
        if c is False:
            raise Violation(msg)
        if isinstance(c, V.SymBool):
            r = e.check(z3.Not(c.e))
            if r == z3.sat:
                raise Violation(msg, e.solver.model())
            if r == z3.unknown:
                raise E.Incomplete("solver gave no answer")
            return
        if not c:
            raise Violation(msg)

    def fail(self, msg):
        self.e.obligations += 1
        raise Violation(msg)

    def observe(self, label, v):
        self.observed.append((label, v))

    def text(self, v):
        """For messages."""
        return v

    def model_of(self, v):
        return v


def ev(v, m):
    """Value of v under model m."""
    t = type(v)
    if t is V.Rope:
        return v.eval(m)
    if t is V.SymInt:
        return m.eval(v.e, model_completion=True).as_long()
    if t is V.SymBool:
        return z3.is_true(m.eval(v.e, model_completion=True))
    if t in (list, tuple):
        return [ev(x, m) for x in v]
    if isinstance(v, dict):
        return {ev(a, m): ev(b, m) for a, b in v.items()}
    if type(v).__name__ == "SxSet":
        return [ev(x, m) for x in v]
    if type(v).__name__ == "SxDict":
        return {ev(a, m): ev(b, m) for a, b in v.items()}
    if isinstance(v, V.SymFloat):
        return float(v.text.eval(m)) * (-1 if v.neg else 1)
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    return str(v)


def ev_draws(draws, m):
    return [[k, ev(v, m)] for k, v in draws]


class ConcCtx:
    """Replays recorded draws on the real code."""

    symbolic = False

    def __init__(self, draws):
        self.draws = draws
        self.i = 0
        self.observed = []

    def _next(self, kind):
        if self.i >= len(self.draws):
            raise Reject("draws exhausted")
        k, v = self.draws[self.i]
        if k != kind:
            raise Reject("draw of kind %s instead of %s" % (k, kind))
        self.i += 1
        return v

    def choose(self, n):
        return self._next("c")

    def pick(self, options):
        return list(options)[self._next("c")]

    def flag(self):
        return self._next("c") == 1

    def sflag(self):
        return bool(self._next("b"))

    def word(self, lo=1, hi=10, case=None):
        return self._next("w")

    def steps(self, factor):
        pass

    def work(self, f, limit):
        n = 0

        def trace(frame, event, arg):
            nonlocal n
            if PACKAGE not in frame.f_code.co_filename:
                return None
            n += 1
            if n > limit * LINES:
                raise E.WorkLimit
            return trace

        before = sys.gettrace()
        sys.settrace(trace)
        try:
            f()
        except E.WorkLimit:
            pass
        except Exception:
            pass
        finally:
            sys.settrace(before)
        return limit + 1 if n > limit * LINES else n // LINES

    def fresh(self):
        state.fresh()

    def soft(self, words):
        pass

    def num(self, lo=0, hi=10**9):
        return self._next("n")

    def int(self, lo, hi):
        return self._next("i")

    def ch(self, dom):
        return self._next("h")

    def body(self, n, dom):
        return "".join(self.ch(dom) for _ in range(n))

    def kw(self, text):
        return "".join(self.ch(c.lower() + c.upper()) if c.isalpha() else c for c in text)

    def assume(self, c):
        if not c:
            raise Reject("assumption")

    def require(self, c, msg=""):
        if not c:
            raise Violation(msg)

    def fail(self, msg):
        raise Violation(msg)

    def observe(self, label, v):
        self.observed.append((label, v))


class RandCtx(ConcCtx):
    """Random draws (used to try harnesses out, never by a check)."""

    def __init__(self, rng=None):
        self.r = rng or _random.Random()
        self.draws = []
        self.observed = []

    def _d(self, k, v):
        self.draws.append([k, v])
        return v

    def choose(self, n):
        return self._d("c", self.r.randrange(n)) if n > 1 else self._d("c", 0)

    def pick(self, options):
        options = list(options)
        return options[self.choose(len(options))]

    def flag(self):
        return self.choose(2) == 1

    def sflag(self):
        return self._d("b", self.r.random() < 0.5)

    def word(self, lo=1, hi=10, case=None):
        n = self.r.randint(lo, hi)
        while True:
            s = V.make_name(self.r.randrange(10**6), n, ())
            c = self.r.randrange(3 if n >= 2 else 2) if case is None else 0 if case == "same" else case
            return self._d("w", s if c == 0 else s.upper() if c == 1 else s.capitalize())

    def num(self, lo=0, hi=10**9):
        return self._d("n", str(self.r.randint(lo, hi)))

    def int(self, lo, hi):
        return self._d("i", self.r.randint(lo, hi))

    def ch(self, dom):
        return self._d("h", self.r.choice(dom))
