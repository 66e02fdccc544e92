"""State of the modules under test is what it was after their import, at the start of each path."""
import collections
import importlib
import os
import sys
import types

CONTAINERS = [list, set, dict, bytearray, collections.deque, collections.OrderedDict, collections.defaultdict, collections.Counter]


def preload(package="sqlvalidator"):
    """Imports all modules of the package, so that no import happens on a path."""
    try:
        m = importlib.import_module(package)
    except Exception:
        return  # reported by the harness's own import
    for directory in m.__path__:
        for root, dirs, files in sorted(os.walk(directory)):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py") and not f.startswith("__"):
                    parts = [package] + os.path.relpath(os.path.join(root, f[:-3]), directory).split(os.sep)
                    try:
                        importlib.import_module(".".join(parts))
                    except Exception:
                        pass


def _special(k):
    return type(k) is str and k.startswith("__")


current = None


def fresh():
    if current is not None:
        current.restore()


class Snapshot:
    def __init__(self, package="sqlvalidator"):
        self.package = package
        self.names = []  # (namespace or class, names before)
        self.containers = []  # (container, copy)
        self.caches = []
        self.seen = set()
        for name, module in list(sys.modules.items()):
            if name.split(".")[0] == package and isinstance(module, types.ModuleType):
                d = module.__dict__
                self.names.append((d, {k: v for k, v in d.items() if not _special(k)}))
                for k, v in list(d.items()):
                    if not _special(k):
                        self._visit(v)

    def _visit(self, v, depth=0):
        t = type(v)
        if t in (str, int, bool, float, type(None), bytes) or depth > 6:
            return
        if id(v) in self.seen:
            return
        self.seen.add(id(v))
        if t in CONTAINERS:
            self.containers.append((v, v.copy()))
            for x in list(v.values()) + list(v) if hasattr(v, "values") else list(v):
                self._visit(x, depth + 1)
        elif t is tuple:
            for x in v:
                self._visit(x, depth + 1)
        elif t is types.FunctionType:
            if (v.__module__ or "").split(".")[0] != self.package:
                return
            for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                self._visit(x, depth + 1)
            for c in v.__closure__ or ():
                try:
                    self._visit(c.cell_contents, depth + 1)
                except ValueError:
                    pass
            if v.__dict__:
                self.names.append((v.__dict__, dict(v.__dict__)))
                for x in list(v.__dict__.values()):
                    self._visit(x, depth + 1)
        elif isinstance(v, type):
            if (v.__module__ or "").split(".")[0] != self.package:
                return
            self.names.append((v, {k: x for k, x in vars(v).items() if not _special(k)}))
            for x in list(vars(v).values()):
                if isinstance(x, (staticmethod, classmethod)):
                    x = x.__func__
                if isinstance(x, property):
                    for g in (x.fget, x.fset):
                        self._visit(g, depth + 1)
                self._visit(x, depth + 1)
        elif hasattr(v, "cache_clear"):
            self.caches.append(v)
        elif (t.__module__ or "").split(".")[0] == self.package and hasattr(v, "__dict__"):
            self.names.append((v.__dict__, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self._visit(x, depth + 1)

    def restore(self):
        for c in self.caches:
            c.cache_clear()
        for c, old in self.containers:
            if isinstance(c, (list, bytearray)):
                c[:] = old
            elif isinstance(c, collections.deque):
                c.clear()
                c.extend(old)
            else:
                c.clear()
                c.update(old)
        for d, old in self.names:
            if isinstance(d, type):
                now = vars(d)
                for k in [k for k in now if k not in old and not _special(k)]:
                    delattr(d, k)
                for k, x in old.items():
                    if now.get(k) is not x:
                        setattr(d, k, x)
                continue
            for k in [k for k, x in d.items() if k not in old and not _special(k) and not isinstance(x, types.ModuleType)]:
                del d[k]
            for k, x in old.items():
                if d.get(k, d) is not x:
                    d[k] = x
