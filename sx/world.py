"""Files, command line and output for the code under test.

Both worlds use a scratch directory of their own for everything but the contents of files. SymWorld keeps
contents, which may be symbolic texts, aside: the real files hold their numbers only, and open() and
tokenize are modelled. ConcWorld runs the unmodified code on real files.
"""
import builtins
import contextlib
import io
import os
import pathlib
import shutil
import sys
import tempfile
import tokenize

ROOT = None


def scratch():
    """Empty directory, the same one for each path of this process."""
    global ROOT
    if ROOT is None:
        base = os.environ.get("SX_SCRATCH")
        if not base:
            base = tempfile.mkdtemp(prefix="sx")
            import atexit

            atexit.register(shutil.rmtree, base, True)
        ROOT = tempfile.mkdtemp(prefix="w", dir=base)
    for n in os.listdir(ROOT):
        p = os.path.join(ROOT, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    return ROOT


class Result:
    def __init__(self, status, out, error):
        self.status = status  # exit status
        self.out = out  # standard output
        self.error = error  # name of the exception which escaped


class Base:
    def __init__(self):
        self.root = scratch()
        self.paths = []
        self.faults = {}

    def fault(self, path, mode):
        """Opening the file for reading ("r") or writing ("w") fails."""
        self.faults[os.path.realpath(os.path.join(self.root, path)), mode] = True

    def _fault(self, path, mode):
        if (os.path.realpath(path), "r" if "r" in mode and "+" not in mode else "w") in self.faults:
            raise PermissionError(13, "Permission denied: %r" % os.path.basename(path))

    def mkdir(self, path):
        os.makedirs(os.path.join(self.root, path), exist_ok=True)

    def dangling(self, path):
        """A link to nowhere: its name is found but it cannot be opened."""
        os.symlink("nowhere", os.path.join(self.root, path))

    def garbage(self, path):
        """No text."""
        with open(os.path.join(self.root, path), "wb") as f:
            f.write(b"x = '\xff\xfe'\n")

    def file(self, path, content):
        p = os.path.join(self.root, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        self._put(p, content)
        os.utime(p, (1000, 1000))
        self.paths.append(path)

    def written(self, path):
        return os.stat(os.path.join(self.root, path)).st_mtime != 1000

    def settle(self):
        for p in self.paths:
            os.utime(os.path.join(self.root, p), (1000, 1000))

    def listing(self):
        out = []
        for root, dirs, files in os.walk(self.root):
            dirs.sort()
            for f in sorted(files):
                out.append(os.path.relpath(os.path.join(root, f), self.root))
        return out

    def _guard(self, path):
        p = os.path.realpath(path)
        if not p.startswith(os.path.realpath(self.root) + os.sep):
            raise RuntimeError("writing outside of the scratch directory: %s" % path)

    def _main(self, main, argv):
        cwd = os.getcwd()
        argv0 = sys.argv
        os.chdir(self.root)
        sys.argv = ["sqlvalidator"] + [a.replace("%ROOT%", self.root) for a in argv]
        status, error = 0, None
        try:
            main()
        except SystemExit as e:
            status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except Exception as e:
            if type(e).__module__.startswith("sx"):
                raise
            status, error = 1, type(e).__name__
        finally:
            sys.argv = argv0
            os.chdir(cwd)
        return status, error


class ConcWorld(Base):
    symbolic = False

    def _put(self, p, content):
        with open(p, "w", newline="", encoding="utf-8") as f:
            f.write(content)

    def read(self, path):
        with open(os.path.join(self.root, path), newline="", encoding="utf-8") as f:
            return f.read()

    def run(self, main, argv):
        out = io.StringIO()
        real = builtins.open

        def guarded(file, mode="r", *a, **k):
            if not isinstance(file, int):
                self._fault(file, mode)
            if not isinstance(file, int) and any(c in mode for c in "wax+"):
                self._guard(file)
            return real(file, mode, *a, **k)

        builtins.open = io.open = tokenize._builtin_open = guarded
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                status, error = self._main(main, argv)
        finally:
            builtins.open = io.open = tokenize._builtin_open = real
        return Result(status, out.getvalue().replace(self.root, "%ROOT%"), error)


class Shim:
    def __init__(self, real, **over):
        self.__dict__.update(over)
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)


class SymWorld(Base):
    symbolic = True

    def __init__(self):
        super().__init__()
        self.contents = []

    def _put(self, p, content):
        self.contents.append(content)
        with open(p, "w") as f:
            f.write("SX%d" % (len(self.contents) - 1))

    def _get(self, p):
        with open(p, encoding="latin-1") as f:
            t = f.read()
        if not t.startswith("SX"):
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
        return int(t[2:])

    def read(self, path):
        return self.contents[self._get(os.path.join(self.root, path))]

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if "b" in mode or "+" in mode or isinstance(file, int):
            raise NotImplementedError("open() with mode %s" % mode)
        path = os.fspath(file)
        self._fault(path, mode)
        if "r" in mode:
            with open(path):
                pass
            return ModelFile(self, path, None, newline, False)
        self._guard(path)
        old = ""
        if "a" in mode:
            old = self.contents[self._get(path)]
        elif "x" in mode and os.path.exists(path):
            raise FileExistsError(path)
        self._put(path, old)
        return ModelFile(self, path, len(self.contents) - 1, newline, True)

    def run(self, main, argv):
        from . import instrument as I
        from . import values as V
        from harness import pytok

        out = []
        I.Env.open = self.open
        I.Env.stdout = out
        tok = Shim(None, generate_tokens=pytok.generate, open=self.open)
        fakeio = Shim(io, open=self.open, StringIO=StringFile)
        I.Env.modules = {
            "tokenize": Shim(__import__("tokenize"), generate_tokens=pytok.generate, open=self.open),
            "io": fakeio,
            "sys": Shim(sys, stdout=Out(out), stderr=Out([])),
        }
        del tok
        real = pathlib.io
        pathlib.io = fakeio
        # the instrumented code has up to about two frames for one of the code itself
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(2000)
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                status, error = self._main(main, argv)
        finally:
            sys.setrecursionlimit(limit)
            pathlib.io = real
            I.Env.open = None
            I.Env.stdout = None
            I.Env.modules = {}
        text = V.mk(out)
        if type(text) is str:
            text = text.replace(self.root, "%ROOT%")
        return Result(status, text, error)


class Out:
    def __init__(self, out):
        self.out = out

    def write(self, s):
        self.out.append(s)
        return 0

    def flush(self):
        pass

    def isatty(self):
        return False


class ModelFile:
    encoding = "utf-8"

    def __init__(self, world, path, number, newline, writing):
        self.world = world
        self.name = path
        self.newline = newline
        self.number = number
        self.writing = writing
        self.closed = False
        self._lines = None
        self._newlines = None

    # reading
    def _load(self):
        from . import values as V

        if self._lines is not None:
            return
        raw = self.world.contents[self.world._get(self.name)]
        cells = V.cells_of(raw)
        kinds = []
        out = []
        line = []
        i = 0
        while i < len(cells):
            c = cells[i]
            k = "\n" if V.is_char(c, "\n") else "\r" if V.is_char(c, "\r") else None
            if k:
                if k == "\r" and i + 1 < len(cells) and V.is_char(cells[i + 1], "\n"):
                    k = "\r\n"
                i += len(k)
                if k not in kinds:
                    kinds.append(k)
                line.append("\n" if self.newline is None else k)
                out.append(V.mk(line))
                line = []
                continue
            line.append(c)
            i += 1
        if line:
            out.append(V.mk(line))
        self._lines = out
        self._at = 0
        if self.newline is None and kinds:
            self._newlines = kinds[0] if len(kinds) == 1 else tuple(sorted(kinds))

    @property
    def newlines(self):
        return self._newlines

    def read(self, n=-1):
        from . import values as V

        self._load()
        out = V.mk(self._lines[self._at :])
        self._at = len(self._lines)
        return out

    def readline(self):
        self._load()
        if self._at == len(self._lines):
            return ""
        self._at += 1
        return self._lines[self._at - 1]

    def readlines(self):
        self._load()
        out = self._lines[self._at :]
        self._at = len(self._lines)
        return out

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if type(l) is str and not l:
            raise StopIteration
        return l

    def seek(self, n, whence=0):
        assert n == 0
        self._load()
        self._at = 0

    # writing
    def write(self, s):
        from . import values as V

        if not self.writing:
            raise io.UnsupportedOperation("not writable")
        if self.newline not in (None, "", "\n"):
            s = V.mk([self.newline if V.is_char(c, "\n") else c for c in V.cells_of(s)])
        self.world.contents[self.number] = V.mk([self.world.contents[self.number], s])
        return 0

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def truncate(self, n=None):
        pass

    def flush(self):
        pass

    def fileno(self):
        raise NotImplementedError("fileno")

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class StringFile(ModelFile):
    def __init__(self, content="", newline="\n"):
        self.content = content
        super().__init__(self, "", 0, None, True)
        self.contents = [content]

    def _get(self, p):
        return 0

    def getvalue(self):
        return self.contents[0]
