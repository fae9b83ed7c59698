"""model of files and pickling for symbolic values: `open` on the virtual files
of the current path, pickle.dump/load/dumps/loads by the same object protocol
(__reduce_ex__, __getstate__, __setstate__) that pickle uses.  The replay of a
counterexample and the validation of sampled paths use real files and pickle."""
import copy
import io
import os
import types
from . import engine as E


class Blob:
    """pickled bytes: a list of pickled objects"""

    def __init__(self, recs):
        self.recs = list(recs)

    def __add__(self, o):
        return Blob(self.recs + o.recs)

    def __bool__(self):
        return bool(self.recs)


class VFile:
    def __init__(self, store, path, mode):
        self.store, self.path, self.mode = store, path, mode
        self.name = path
        self.closed = False
        m = mode.replace("b", "").replace("t", "").replace("+", "")
        if m not in ("r", "w", "a", "x") or len(m) != 1:
            raise ValueError(f"invalid mode: {mode!r}")
        if m == "r" and path not in store:
            raise FileNotFoundError(2, "No such file or directory", path)
        if m == "x" and path in store:
            raise FileExistsError(17, "File exists", path)
        if m in ("w", "x"):
            store[path] = []
        store.setdefault(path, [])
        self.pos = len(store[path]) if m == "a" else 0

    def _need(self, write):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if "b" not in self.mode:
            raise TypeError("a bytes-like object is required, not 'str'")
        ok = "+" in self.mode or (self.mode[0] == "r") != write
        if not ok:
            raise io.UnsupportedOperation("write" if write else "read")

    def write(self, b):
        self._need(True)
        if not isinstance(b, Blob):
            raise E.PathAbort("write of other data to a modelled file")
        recs = self.store[self.path]
        if "a" in self.mode:
            self.pos = len(recs)
        recs[self.pos:self.pos + len(b.recs)] = b.recs
        self.pos += len(b.recs)
        return len(b.recs)

    def read(self, n=-1):
        self._need(False)
        if n is not None and n >= 0:
            raise E.PathAbort("partial read of a modelled file")
        b = Blob(self.store[self.path][self.pos:])
        self.pos = len(self.store[self.path])
        return b

    def take(self):
        self._need(False)
        recs = self.store[self.path]
        if self.pos >= len(recs):
            raise EOFError("Ran out of input")
        self.pos += 1
        return recs[self.pos - 1]

    def seek(self, p, whence=0):
        if p != 0 or whence not in (0, 2):
            raise E.PathAbort("seek in a modelled file")
        self.pos = 0 if whence == 0 else len(self.store[self.path])
        return self.pos

    def truncate(self, n=None):
        del self.store[self.path][self.pos if n is None else n:]

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def store():
    s = getattr(E.ENG, "vfs", None)
    if s is None:
        raise E.PathAbort("file access outside a file harness")
    return s


def v_open(path, mode="r", *a, **k):
    s = store()
    return VFile(s, os.fspath(path), mode)


def _check(x, seen):
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, types.FunctionType) and "<" in x.__qualname__:
        raise AttributeError(f"Can't get local object {x.__qualname__!r}")
    if isinstance(x, (list, tuple, set)):
        for y in x:
            _check(y, seen)
    elif isinstance(x, dict):
        for k, y in x.items():
            _check(k, seen)
            _check(y, seen)
    elif hasattr(x, "__dict__") and not isinstance(x, (type, types.ModuleType)) and \
            type(x).__module__.startswith(("dany", "symx_dany")):
        _check(vars(x), seen)
    elif isinstance(x, types.ModuleType):
        raise TypeError("cannot pickle 'module' object")


class _Pickle:
    HIGHEST_PROTOCOL = 5
    DEFAULT_PROTOCOL = 5
    PicklingError = __import__("pickle").PicklingError
    UnpicklingError = __import__("pickle").UnpicklingError
    PickleError = __import__("pickle").PickleError

    @staticmethod
    def dumps(obj, *a, **k):
        c = copy.deepcopy(obj)
        _check(c, set())
        return Blob([c])

    @staticmethod
    def loads(b, *a, **k):
        if not isinstance(b, Blob):
            raise TypeError("a bytes-like object is required")
        if not b.recs:
            raise EOFError("Ran out of input")
        return copy.deepcopy(b.recs[0])

    @classmethod
    def dump(cls, obj, f, *a, **k):
        f.write(cls.dumps(obj))

    @staticmethod
    def load(f, *a, **k):
        return copy.deepcopy(f.take())


PICKLE = _Pickle()
