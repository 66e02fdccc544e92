"""Executes Python source symbolically: AST transformation and shadow builtins.

The modules named by PACKAGES are read from their current source, rewritten so that calls, method
calls, membership tests, subscripts, string formatting and container displays go through the
functions below, and executed with shadow builtins which understand symbolic values.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import engine as E
from . import state
from . import values as V
from .values import Rope, SymBool, SymInt

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

real = {
    n: getattr(builtins, n)
    for n in "str int float bool len set frozenset dict type repr print open format ord chr hash isinstance".split()
}
_SYM = (Rope, SymInt, SymBool)


# ------------------------------------------------------------------ containers
def _same_key(a, b):
    r = a == b
    return r if r.__class__ is bool else bool(r)


class SxSet:
    """Set whose elements may be symbolic: insertion ordered, membership by (forking) equality."""

    def __init__(self, it=()):
        self.xs = []
        for x in it:
            self.add(x)

    def add(self, x):
        if not (in_(x, self.xs)):
            self.xs.append(x)

    def __contains__(self, x):
        return bool(in_(x, self.xs))

    def __iter__(self):
        return iter(list(self.xs))

    def __len__(self):
        return len(self.xs)

    def __bool__(self):
        return bool(self.xs)

    def copy(self):
        return self.__class__(self.xs)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        for i, y in enumerate(self.xs):
            if _same_key(x, y):
                del self.xs[i]
                return

    def remove(self, x):
        n = len(self.xs)
        self.discard(x)
        if len(self.xs) == n:
            raise KeyError(x)

    def pop(self):
        if not self.xs:
            raise KeyError("pop from an empty set")
        return self.xs.pop()

    def clear(self):
        self.xs.clear()

    def union(self, *os):
        r = self.copy()
        r.update(*os)
        return r

    def intersection(self, *os):
        r = self.xs
        for o in os:
            o = list(o)
            r = [x for x in r if in_(x, o)]
        return self.__class__(r)

    def difference(self, *os):
        r = self.xs
        for o in os:
            o = list(o)
            r = [x for x in r if not in_(x, o)]
        return self.__class__(r)

    def symmetric_difference(self, o):
        o = SxSet(o)
        return self.difference(o).union(o.difference(self))

    def intersection_update(self, *os):
        self.xs = self.intersection(*os).xs

    def difference_update(self, *os):
        self.xs = self.difference(*os).xs

    def issubset(self, o):
        o = list(o)
        return all(in_(x, o) for x in self.xs)

    def issuperset(self, o):
        return all(in_(x, self.xs) for x in o)

    def isdisjoint(self, o):
        return not any(in_(x, self.xs) for x in o)

    def _o(self, o):
        return isinstance(o, (SxSet, real["set"], real["frozenset"], type({}.keys())))

    def __or__(self, o):
        return self.union(o) if self._o(o) else NotImplemented

    def __ror__(self, o):
        return SxSet(o).union(self) if self._o(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._o(o) else NotImplemented

    def __rand__(self, o):
        return self.intersection(o) if self._o(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._o(o) else NotImplemented

    def __rsub__(self, o):
        return SxSet(o).difference(self) if self._o(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._o(o) else NotImplemented

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __eq__(self, o):
        if not self._o(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return self.issubset(o) and len(self) < len(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return self.issuperset(o) and len(self) > len(o)

    def __hash__(self):
        return hash(frozenset(V.deep_concretize(x) for x in self.xs))

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.xs)) if self.xs else "set()"


class SxDict:
    """Dictionary whose keys may be symbolic."""

    def __init__(self, /, *a, **k):
        self.ks = []
        self.vs = []
        self.update(*a, **k)

    def _i(self, key):
        for i, y in enumerate(self.ks):
            if key is y or _same_key(key, y):
                return i
        return -1

    def __getitem__(self, key):
        i = self._i(key)
        if i < 0:
            m = getattr(self, "__missing__", None)
            if m is not None:
                return m(key)
            raise KeyError(key)
        return self.vs[i]

    def __setitem__(self, key, v):
        i = self._i(key)
        if i < 0:
            self.ks.append(key)
            self.vs.append(v)
        else:
            self.vs[i] = v

    def __delitem__(self, key):
        i = self._i(key)
        if i < 0:
            raise KeyError(key)
        del self.ks[i]
        del self.vs[i]

    def __contains__(self, key):
        return self._i(key) >= 0

    def __iter__(self):
        return iter(list(self.ks))

    def __reversed__(self):
        return reversed(list(self.ks))

    def __len__(self):
        return len(self.ks)

    def keys(self):
        return list(self.ks)

    def values(self):
        return list(self.vs)

    def items(self):
        return list(zip(self.ks, self.vs))

    def get(self, key, default=None):
        i = self._i(key)
        return default if i < 0 else self.vs[i]

    def setdefault(self, key, default=None):
        i = self._i(key)
        if i >= 0:
            return self.vs[i]
        self[key] = default
        return default

    def pop(self, key, *d):
        i = self._i(key)
        if i < 0:
            if d:
                return d[0]
            raise KeyError(key)
        v = self.vs[i]
        del self.ks[i]
        del self.vs[i]
        return v

    def popitem(self):
        return self.ks.pop(), self.vs.pop()

    def update(self, /, *a, **k):
        for m in a:
            if hasattr(m, "keys"):
                for key in m.keys():
                    self[key] = m[key]
            else:
                for key, v in m:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def copy(self):
        return SxDict(self)

    def clear(self):
        self.ks.clear()
        self.vs.clear()

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for x in it:
            d[x] = v
        return d

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (SxDict, real["dict"])):
            return NotImplemented
        return len(self) == len(o) and all(k in o and bool(o[k] == v) for k, v in self.items())

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % p for p in self.items())


# ------------------------------------------------------------------ shadow types
class _Meta(type):
    """Shadow of a builtin type."""

    def __instancecheck__(cls, x):
        return isinstance(x, cls._check)

    def __subclasscheck__(cls, c):
        if c is cls:
            return True
        if isinstance(c, _Meta):
            return issubclass(c._real, cls._real)
        return issubclass(c, cls._check)

    def __call__(cls, /, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    def __getattr__(cls, name):
        if name == "__name__":
            return cls._real.__name__
        r = getattr(cls._real, name)
        if cls._real is real["str"] and name in V.METHODS and name != "maketrans":
            return lambda s, /, *a, **k: call_method(s, name, *a, **k)
        return r


def _shadow(name, check, make):
    t = real[name]
    c = _Meta(name, (), {"_real": t, "_check": check, "_make": staticmethod(make), "__slots__": ()})
    c.__qualname__ = name
    type.__setattr__(c, "__module__", "builtins")
    return c


def _mk_str(*a, **k):
    if len(a) == 1 and not k:
        return V.to_str(a[0])
    if a or k:
        return real["str"](*a, **k)
    return ""


def _mk_int(*a, **k):
    if len(a) == 1 and not k and type(a[0]) in (int, str, float, bool):
        return int(a[0])
    if a and isinstance(a[0], (Rope, SymInt, SymBool, V.SymFloat)):
        return V.to_int(*a, **k)
    return int(*a, **k)


def _mk_float(*a):
    if a:
        return V.to_float(a[0])
    return 0.0


def _mk_bool(*a):
    return bool(*a)


def _mk_frozenset(it=()):
    return SxSet(it)


def _mk_dict(*a, **k):
    return SxDict(*a, **k)


S_str = _shadow("str", (str, Rope), _mk_str)
S_int = _shadow("int", (int, SymInt, SymBool), _mk_int)
S_float = _shadow("float", (float, V.SymFloat), _mk_float)
S_bool = _shadow("bool", (bool, SymBool), _mk_bool)
S_set = _shadow("set", (set, SxSet), SxSet)
S_frozenset = _shadow("frozenset", (frozenset, SxSet), _mk_frozenset)
S_dict = _shadow("dict", (dict, SxDict), _mk_dict)
SHADOW_OF = {str: S_str, int: S_int, float: S_float, bool: S_bool, set: S_set, frozenset: S_frozenset, dict: S_dict,
             Rope: S_str, SymInt: S_int, SymBool: S_bool, V.SymFloat: S_float, SxSet: S_set, SxDict: S_dict}


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, /, *a, **k):
        if len(a) == 1 and not k:
            t = type(a[0])
            return SHADOW_OF.get(t, t)
        return type(*a, **k)

    def __getattr__(cls, name):
        return getattr(type, name)


class S_type(metaclass=_TypeMeta):
    pass


def s_len(x):
    return V.rope_len(x) if type(x) is Rope else len(x)


def s_repr(x):
    return V.to_repr(x)


def s_hash(x):
    return hash(x)


def s_ord(c):
    return ord(V.concretize(c))


def s_format(v, spec=""):
    return V.format_value(v, None, spec)


class Env:
    """What the code under test sees of the outside; set per path by harnesses."""

    modules = {}
    open = None
    stdout = None


def s_print(*a, sep=" ", end="\n", file=None, flush=False):
    if Env.stdout is not None and (file is None or file is Env.stdout):
        sep = " " if sep is None else sep
        end = "\n" if end is None else end
        Env.stdout.append(V.mk([V.m_join(sep, [V.to_str(x) for x in a]), end]))
        return None
    if file is None and not os.environ.get("SX_PRINT"):
        return None
    return print(*[V.deep_concretize(x) for x in a], sep=sep, end=end, file=file)


def s_open(*a, **k):
    if Env.open is not None:
        return Env.open(*a, **k)
    raise RuntimeError("open() of the code under test without an environment")


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        stub = STUBS.get(top)
        if stub is not None:
            if "." in name and fromlist:
                m = stub
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
                return m
            return stub
    return builtins.__import__(name, globals, locals, fromlist, level)


class Stub(types.ModuleType):
    """Module which looks its attributes up in the current environment, then in the real module."""

    def __init__(self, name):
        super().__init__(name)
        self.__dict__["_real"] = None

    def __getattr__(self, attr):
        env = Env.modules.get(self.__name__)
        if env is not None and hasattr(env, attr):
            return getattr(env, attr)
        m = MODELS.get(self.__name__)
        if m is not None and hasattr(m, attr):
            return getattr(m, attr)
        r = self.__dict__["_real"]
        if r is None:
            r = self.__dict__["_real"] = importlib.import_module(self.__name__)
        return getattr(r, attr)


STUBS = {}
MODELS = {}


class Cached:
    """functools.lru_cache for symbolic arguments."""

    def __init__(self, f, maxsize):
        self.__wrapped__ = f
        self.__name__ = getattr(f, "__name__", "cached")
        self.__doc__ = f.__doc__
        self.maxsize = maxsize
        self.entries = []

    def __call__(self, /, *a, **k):
        for i, (a2, k2, v) in enumerate(self.entries):
            if len(a) == len(a2) and list(k) == list(k2) and all(_same_key(x, y) for x, y in zip(a, a2)) and all(_same_key(k[n], k2[n]) for n in k):
                self.entries.append(self.entries.pop(i))
                return v
        v = self.__wrapped__(*a, **k)
        self.entries.append((a, k, v))
        if self.maxsize is not None:
            del self.entries[: max(0, len(self.entries) - self.maxsize)]
        return v

    def __get__(self, o, owner=None):
        return self if o is None else types.MethodType(self, o)

    def cache_clear(self):
        self.entries.clear()

    def cache_info(self):
        return (0, 0, self.maxsize, len(self.entries))


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return Cached(maxsize, 128)
    return lambda f: Cached(f, maxsize)


def cache(f):
    return Cached(f, None)


def stub(*names):
    for n in names:
        STUBS[n] = Stub(n)


# ------------------------------------------------------------------ hooks
def in_(x, c):
    t = type(c)
    if t is list or t is tuple:
        if type(x) in _SYM:
            return V.Or(*[_eq(x, y) for y in c])
        for y in c:
            if type(y) in _SYM:
                return V.Or(*[_eq(x, y) for y in c])
        return x in c
    if t is str:
        if type(x) is Rope:
            return V.contains(c, x)
        return x in c
    if t is Rope:
        return V.contains(c, x)
    if t is SxSet:
        return in_(x, c.xs)
    if t is SxDict:
        return in_(x, c.ks)
    if type(x) in _SYM and isinstance(c, (set, frozenset, dict, type({}.keys()))):
        return V.Or(*[_eq(x, y) for y in _ordered(c)])
    return x in c


def _ordered(c):
    xs = list(c)
    if isinstance(c, (set, frozenset)):
        try:
            xs.sort()
        except TypeError:
            pass
    return xs


def _eq(x, y):
    if x is y:
        return True
    r = x == y
    return r


def not_in(x, c):
    return V.Not(in_(x, c))


def is_(a, b):
    if type(a) is SymBool and b.__class__ is bool:
        return a if b else V.Not(a)
    if type(b) is SymBool and a.__class__ is bool:
        return b if a else V.Not(b)
    if a is b:
        return True
    if isinstance(a, _Meta) and isinstance(b, type):
        return a._real is b
    if isinstance(b, _Meta) and isinstance(a, type):
        return b._real is a
    return False


def is_not(a, b):
    return V.Not(is_(a, b))


def get(o, i):
    t = type(o)
    if t is Rope:
        return V.getitem(o, i)
    if t is str:
        if type(i) is SymInt or (type(i) is slice and (type(i.start) is SymInt or type(i.stop) is SymInt)):
            return V.getitem(o, i)
        return o[i]
    if t is dict and type(i) in _SYM:
        for k in o:
            if _same_key(i, k):
                return o[k]
        raise KeyError(i)
    if isinstance(o, dict) and type(i) in _SYM:
        i = V.concretize(i)
    return o[i]


def fstr(*parts):
    return V.mk([p if type(p) is str else V.format_value(*p) for p in parts])


def mod(a, b):
    if type(a) in (str, Rope):
        if type(a) is Rope or V.deep_sym(b):
            return V.percent_format(a, b)
    return a % b


def rec(name):
    E.cur.functions.add(name)
    E.cur.worked()


def tick():
    E.cur.tick()
    E.cur.worked()


def base(x):
    return x._real if isinstance(x, _Meta) else x


_OK_MODULES = frozenset("itertools functools operator typing dataclasses enum contextlib collections abc copy warnings".split())
_OK_BUILTINS = set(
    getattr(builtins, n)
    for n in """isinstance issubclass any all sum max min enumerate zip map filter reversed sorted iter next getattr
    setattr hasattr list tuple range super id callable vars dir divmod abs object property staticmethod classmethod
    slice delattr __build_class__""".split()
)
_PLAIN = (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodDescriptorType, types.WrapperDescriptorType,
          types.MethodWrapperType, types.ClassMethodDescriptorType)
_CONTAINER_SELF = (list, tuple, dict, set, SxSet, SxDict, types.GeneratorType)


def _passes(f):
    """Whether f handles symbolic arguments itself."""
    tf = type(f)
    if tf is types.FunctionType:
        g = f.__globals__
        if "__sx__" in g:
            return True
        n = g.get("__name__", "")
        return n.split(".")[0] in _OK_MODULES or n.startswith("sx") or n.startswith("namedtuple_")
    if tf is types.MethodType:
        return _passes(f.__func__)
    if tf is V.BoundStr or tf is type(_passes):
        return True
    if isinstance(f, _Meta) or f is S_type:
        return True
    if isinstance(f, type):
        if f in _OK_BUILTINS or issubclass(f, (BaseException, tuple)):
            return True
        m = f.__module__
        return m.startswith(_PKG) or m.split(".")[0] in _OK_MODULES or m.startswith("sx")
    if isinstance(f, _PLAIN):
        if f in _OK_BUILTINS:
            return True
        s = getattr(f, "__self__", None)
        if s is None:
            return getattr(f, "__objclass__", None) in (list, tuple, dict, object)
        if isinstance(s, types.ModuleType):
            return s.__name__.lstrip("_") in _OK_MODULES
        return isinstance(s, _CONTAINER_SELF) or type(s).__module__ in ("collections", "itertools") or _instance_of_pkg(s)
    m = type(f).__module__ or ""
    return m.startswith(_PKG) or m.split(".")[0].lstrip("_") in _OK_MODULES or m.startswith("sx") or m == "typing"


def _instance_of_pkg(s):
    return (type(s).__module__ or "").startswith(_PKG)


_PKG = ("sqlvalidator", "harness", "repoobj")


def call(f, /, *a, **k):
    if type(f) is types.FunctionType and "__sx__" in f.__globals__:
        return f(*a, **k)
    if a or k:
        sym = False
        for x in a:
            if type(x) in _SYM or (type(x) in (list, tuple) and V.deep_sym(x)):
                sym = True
                break
        else:
            for x in k.values():
                if type(x) in _SYM or (type(x) in (list, tuple) and V.deep_sym(x)):
                    sym = True
                    break
        if sym and not _passes(f):
            V._note("call of %s" % getattr(f, "__qualname__", f))
            a = [V.deep_concretize(x) for x in a]
            k = {n: V.deep_concretize(x) for n, x in k.items()}
    return f(*a, **k)


def call_method(o, name, /, *a, **k):
    t = type(o)
    if t is str:
        if name == "join" and len(a) == 1:
            a = (list(a[0]),)
        for x in a:
            if type(x) in _SYM or (type(x) in (list, tuple) and V.deep_sym(x)):
                return V.str_method(o, name, a, k)
        if k:
            for x in k.values():
                if type(x) in _SYM or isinstance(x, (list, tuple)) and V.deep_sym(x):
                    return V.str_method(o, name, a, k)
        if name == "format" and any(not isinstance(x, (str, int, float)) for x in list(a) + list(k.values())):
            return V.brace_format(o, a, k)
        return getattr(o, name)(*a, **k)
    if t is Rope:
        if name == "join" and len(a) == 1:
            a = (list(a[0]),)
        return V.str_method(o, name, a, k)
    if t is dict and a and type(a[0]) in _SYM:
        if name == "get":
            for key in o:
                if _same_key(a[0], key):
                    return o[key]
            return a[1] if len(a) > 1 else k.get("default")
        a = (V.concretize(a[0]),) + a[1:]
    if t is list or t is tuple:
        return getattr(o, name)(*a, **k)
    return call(getattr(o, name), *a, **k)


# ------------------------------------------------------------------ transformation
class Transformer(ast.NodeTransformer):
    def __init__(self, module, record):
        self.module = module
        self.record = record
        self.stack = []

    def _h(self, name):
        return ast.Name("__sx_%s__" % name, ast.Load())

    def _call(self, name, args, keywords=()):
        return ast.Call(self._h(name), list(args), list(keywords))

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        node.bases = [ast.copy_location(self._call("base", [b]), b) if not isinstance(b, ast.Starred) else b for b in node.bases]
        self.stack.pop()
        return node

    def _func(self, node):
        self.stack.append(node.name)
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        if self.record:
            i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            name = "%s.%s" % (self.module, ".".join(self.stack))
            body.insert(i, ast.copy_location(ast.Expr(self._call("rec", [ast.Constant(name)])), node))
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars"):
            node.args = [self.visit(a) for a in node.args]
            return node
        args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        f = node.func
        if isinstance(f, ast.Attribute):
            mangled = f.attr.startswith("__") and not f.attr.endswith("__")
            if not mangled:
                new = self._call("m", [self.visit(f.value), ast.Constant(f.attr)] + args, node.keywords)
                return ast.copy_location(new, node)
        return ast.copy_location(self._call("c", [self.visit(f)] + args, node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        names = {ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}
        if len(node.ops) == 1:
            n = names.get(type(node.ops[0]))
            if n:
                if n.startswith("is") and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
                    return node
                return ast.copy_location(self._call(n, [node.left, node.comparators[0]]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call("mod", [node.left, node.right]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                none = ast.Constant(None)
                s = self._call("slice", [s.lower or none, s.upper or none, s.step or none])
            return ast.copy_location(self._call("get", [node.value, s]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(p)
            else:
                v = self.visit(p.value)
                conv = ast.Constant(None if p.conversion == -1 else chr(p.conversion))
                spec = self.visit(p.format_spec) if p.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([v, conv, spec], ast.Load()))
        return ast.copy_location(self._call("f", parts), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("set", [ast.List(node.elts, ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("set", [ast.ListComp(node.elt, node.generators)]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts = []
            for k, v in zip(node.keys, node.values):
                parts.append(v if k is None else self._call("dict", [ast.List([ast.Tuple([k, v], ast.Load())], ast.Load())]))
            return ast.copy_location(self._call("dictmerge", parts), node)
        pairs = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(self._call("dict", [ast.List(pairs, ast.Load())]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple([node.key, node.value], ast.Load())
        return ast.copy_location(self._call("dict", [ast.ListComp(pair, node.generators)]), node)

    def _while(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(self._call("tick", [])), node))
        return node

    visit_While = _while
    visit_For = _while


def dictmerge(*ds):
    d = SxDict()
    for x in ds:
        d.update(x)
    return d


HOOKS = {
    "__sx__": True,
    "__sx_c__": call,
    "__sx_m__": call_method,
    "__sx_in__": in_,
    "__sx_notin__": not_in,
    "__sx_is__": is_,
    "__sx_isnot__": is_not,
    "__sx_get__": get,
    "__sx_f__": fstr,
    "__sx_mod__": mod,
    "__sx_set__": SxSet,
    "__sx_dict__": SxDict,
    "__sx_dictmerge__": dictmerge,
    "__sx_rec__": rec,
    "__sx_tick__": tick,
    "__sx_base__": base,
    "__sx_slice__": slice,
}
SHADOWS = dict(builtins.__dict__)
SHADOWS.update(
    str=S_str, int=S_int, float=S_float, bool=S_bool, set=S_set, frozenset=S_frozenset, dict=S_dict, type=S_type,
    len=s_len, repr=s_repr, ord=s_ord, format=s_format, print=s_print, open=s_open, __import__=s_import,
)


def transform(source, module, record=True):
    tree = ast.parse(source)
    tree = Transformer(module, record).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.abc.Loader):
    def __init__(self, path, record):
        self.path = path
        self.record = record

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = compile(transform(src, module.__name__, self.record), self.path, "exec")
        module.__dict__.update(HOOKS)
        module.__dict__["__builtins__"] = SHADOWS
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)
        if self.record and not (E.cur and E.cur.active):
            state.current = state.Snapshot(module.__name__.split(".")[0])


LOADED = {}
state.CONTAINERS += [SxDict, SxSet]
E.on_reset.append(state.fresh)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # package -> (directory, record)

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        root, record = self.roots[top]
        p = os.path.join(root, *name.split("."))
        if os.path.isdir(p):
            init = os.path.join(p, "__init__.py")
            if os.path.exists(init):
                return importlib.machinery.ModuleSpec(name, Loader(init, record), is_package=True, origin=init)
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        if os.path.exists(p + ".py"):
            return importlib.machinery.ModuleSpec(name, Loader(p + ".py", record), origin=p + ".py")
        return None


def install():
    """Imports of sqlvalidator and of the harnesses are executed symbolically from now on."""
    sys.setrecursionlimit(6000)
    stub("os", "sys", "tokenize", "glob", "pathlib", "multiprocessing", "concurrent", "subprocess", "io", "codecs", "shutil", "tempfile", "logging", "signal")
    stub("functools")
    MODELS["functools"] = types.SimpleNamespace(lru_cache=lru_cache, cache=cache)
    sys.meta_path.insert(0, Finder({"sqlvalidator": (REPO, True), "harness": (VERIF, False)}))
