"""One harness body, two interpretations: SymApi (symbolic inputs, assertions
go to the solver) and ConcApi (inputs from a counterexample/sample, real dany
and numpy)."""
import os
import sys
import time
import warnings
from fractions import Fraction
import numpy as _np
from . import engine as E
from . import snp
from . import grids


class NotEncodable(Exception):
    """the harness cannot drive this version of the code (not a violation)"""


class CodeError(Exception):
    def __init__(self, exc):
        super().__init__(f"{type(exc).__name__}: {exc}")
        self.exc = exc


class BaseApi:
    def info(self, spec):
        return grids.info(spec)

    # ---- helpers common to both modes
    def flat(self, a):
        """list of elements of an array in node order"""
        if isinstance(a, snp.SArray):
            return list(snp.raw(a).ravel())
        return list(_np.asarray(a).ravel())

    def set_internal(self, obj, **kw):
        for k, v in kw.items():
            if not hasattr(obj, k):
                raise NotEncodable(f"{type(obj).__name__} has no attribute {k}")
            setattr(obj, k, v)

    def call(self, f, *a, **k):
        try:
            return f(*a, **k)
        except (NotEncodable, CodeError):
            raise
        except Exception as e:
            raise CodeError(e) from e

    def raises(self, f, *a, **k):
        """exception raised by the code, or None"""
        try:
            f(*a, **k)
        except Exception as e:
            return e
        return None

    def isnan(self, x):
        return (not snp._sym(x)) and x is not None and x != x

    def known_on(self, fid):
        return fid in self.known_ids


class SymApi(BaseApi):
    sym = True

    def __init__(self, eng, pkg, known_ids=()):
        self.e = eng
        self.pkg = pkg
        self.np = snp.NP
        self.known_ids = set(known_ids)
        self.dany = pkg.load("dany")
        eng.vfs = None

    def scratch(self):
        """directory for the files of one run (virtual)"""
        self.e.vfs = {}
        return "/scratch"

    def mod(self, name):
        return self.pkg.load("dany." + name)

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        v = self.e.var_real(name)
        if lo is not None:
            self.e.assume(E.le(lo, v))
        if hi is not None:
            self.e.assume(E.le(v, hi))
        return v

    def int(self, name, lo, hi):
        return self.e.var_int(name, range(lo, hi + 1))

    def choice(self, name, options):
        return self.e.var_int(name, options)

    def bool(self, name):
        return self.e.var_bool(name)

    def flag(self, name):
        """forked python bool"""
        return bool(self.e.var_bool(name))

    def pick(self, name, options):
        """forked element of a list of python objects"""
        i = self.e.concretize(self.e.var_int(name, range(len(options)))) \
            if len(options) > 1 else 0
        return options[i]

    def num(self, b):
        """bool -> 0/1"""
        return E.b2n(b)

    # ---- values
    def array(self, vals, kind="f", shape=None):
        a = snp.from_list(list(vals), kind)
        if getattr(shape, "order", "C") == "F":
            return snp.f_asfortranarray(a.reshape(shape))
        return a.reshape(shape) if shape is not None else a

    def grid(self, spec):
        from .loader import GridProxy
        return GridProxy(grids.fresh(spec))

    def grid_with(self, spec, **ov):
        from .loader import GridProxy, _Lazy
        return GridProxy(grids.fresh(spec), ov)

    def grid_poly(self, kind, verts, cells, nominal):
        """vertex/unstructured grid with symbolic vertex coordinates (the
        topology is that of `cells`; nominal: some concrete coordinates)"""
        from .loader import GridProxy
        g = grids._poly(nominal, cells, kind)
        xv = [[verts[k][0] for k in c] for c in cells]
        yv = [[verts[k][1] for k in c] for c in cells]
        xc = self.array([self.sum(v) / len(v) for v in xv])
        yc = self.array([self.sum(v) / len(v) for v in yv])
        return GridProxy(g, dict(
            verts=self.array([t for v in verts for t in v], "f", (len(verts), 2)),
            cross_section_vertices=(xv, yv), xvertices=xv, yvertices=yv,
            xyzvertices=(xv, yv, None), xcellcenters=xc, ycellcenters=yc,
            xyzcellcenters=(xc, yc, None)))

    def grid_rect(self, delr, delc, xoff, yoff, rot):
        """structured grid with symbolic cell sizes and offset; rot = (cos, sin)"""
        from .loader import GridProxy
        nr, nc = len(delc), len(delr)
        x = [self.sum(delr[:j]) for j in range(nc + 1)]
        y = [self.sum(delc[i:]) for i in range(nr + 1)]
        c, s = rot

        def P(a, b):
            return a * c - b * s + xoff, a * s + b * c + yoff
        V = [[P(x[j], y[i]) for j in range(nc + 1)] for i in range(nr + 1)]
        M = [[P((x[j] + x[j + 1]) / 2, (y[i] + y[i + 1]) / 2) for j in range(nc)]
             for i in range(nr)]

        def arr(m, k):
            return self.array([p[k] for r in m for p in r], "f", (len(m), len(m[0])))
        cells = [[V[i][j], V[i + 1][j], V[i + 1][j + 1], V[i][j + 1], V[i][j]]
                 for i in range(nr) for j in range(nc)]
        xc, yc = arr(M, 0), arr(M, 1)
        return GridProxy(grids.structured(nr, nc), dict(
            delr=self.array(delr), delc=self.array(delc), xoffset=xoff, yoffset=yoff,
            verts=self.array([t for r in V for p in r for t in p], "f",
                             ((nr + 1) * (nc + 1), 2)),
            cross_section_vertices=(arr(cells, 0), arr(cells, 1)),
            xvertices=arr(V, 0), yvertices=arr(V, 1),
            xyzvertices=(arr(V, 0), arr(V, 1), None),
            xcellcenters=xc, ycellcenters=yc, xyzcellcenters=(xc, yc, None)))

    # ---- logic
    def And(self, *xs):
        return E.band(*[E.liftb(x) for x in xs])

    def Or(self, *xs):
        return E.bor(*[E.liftb(x) for x in xs])

    def Not(self, x):
        return E.bnot(E.liftb(x))

    def Implies(self, a, b):
        return E.implies(E.liftb(a), E.liftb(b))

    def Iff(self, a, b):
        return E.biff(E.liftb(a), E.liftb(b))

    def If(self, c, a, b):
        return E.ite(E.liftb(c), a, b)

    def eq(self, a, b, tol=None):
        return snp.e_eq(a, b)

    def same(self, a, b):
        if self.isnan(a) or self.isnan(b):
            return self.isnan(a) and self.isnan(b)
        return snp.e_eq(a, b)

    def le(self, a, b, tol=None):
        return snp.e_le(a, b)

    def lt(self, a, b):
        return snp.e_lt(a, b)

    def min(self, *xs):
        return E.nmin(*xs)

    def max(self, *xs):
        return E.nmax(*xs)

    def sum(self, xs):
        s = 0
        for x in xs:
            s = snp.e_add(s, snp._el(x))
        return s

    def abs(self, x):
        return snp.e_abs(x)

    def uf(self, name, *a):
        return snp.UF[name][0](*a)

    def at(self, lst, i):
        """lst[i] with a possibly symbolic i (merged)"""
        if type(i) is not E.SNum:
            return lst[int(i)]
        return snp._merge_vals(i, [(v, lst[v]) for v in (E.domain(i) or range(len(lst)))
                                   if 0 <= v < len(lst)])

    def conc(self, i):
        """concretise an integer (forks)"""
        return self.e.concretize(i) if type(i) is E.SNum else int(i)

    def conc_float(self, x):
        """a value that must be concrete on this path (e.g. a cell centre)"""
        if type(x) is E.SNum:
            v = self.e.concretize(x)
            return float(v)
        return float(x)

    def decide(self, b):
        """python bool of a condition (forks)"""
        return bool(E.liftb(b))

    # ---- obligations
    def assume(self, c):
        self.e.assume(E.liftb(c))

    def check(self, label, c, known=None, detail=None):
        c = E.liftb(c)
        if known is not None:
            for fid, cond in known:
                if fid in self.known_ids:
                    c = E.bor(c, E.liftb(cond))
        self.e.require(label, c, detail)

    def observe(self, name, value):
        self.e.observed.append((name, _snap(value)))

    def reach(self):
        """marks that the end of the harness is reachable (vacuity guard)"""
        self.e.flush()
        self.e.reached = True


def _snap(v):
    if isinstance(v, snp.SArray):
        return list(snp.raw(v).ravel())
    if isinstance(v, snp.SRec):
        return [[list(r) for r in v]]
    if isinstance(v, _np.ndarray):
        return _snap(list(v.ravel()))
    if isinstance(v, dict):
        return [[_snap(k), _snap(x)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [_snap(x) for x in v]
    if isinstance(v, snp.SRecRow):
        return [_snap(x) for x in v]
    if isinstance(v, _np.void):
        return [_snap(x) for x in v]
    return v


def eval_snap(v, m):
    if isinstance(v, list):
        return [eval_snap(x, m) for x in v]
    if type(v) in (E.SNum, E.SBool):
        return E.ev_float(v, m)
    if isinstance(v, _np.generic):
        return v.item()
    return v


def same_snap(a, b, rel=1e-9):
    """compare evaluated symbolic and concrete observations; observations whose
    name ends in ~ are stored in single precision by the code"""
    if isinstance(a, list) and len(a) == 2 and isinstance(a[0], str) and a[0].endswith("~"):
        rel = 1e-6
    if isinstance(a, tuple):
        a = list(a)
    if isinstance(b, tuple):
        b = list(b)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and \
            all(same_snap(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if rel < 1e-8:
            return abs(a - b) <= rel * max(1.0, abs(a), abs(b))
        return abs(a - b) <= rel * (1e-3 + abs(a) + abs(b))
    return a == b


class AssumeFailed(BaseException):
    pass


class ConcApi(BaseApi):
    sym = False

    def __init__(self, model, known_ids=()):
        self.m = model
        self.np = _np
        self.known_ids = set(known_ids)
        self.failed = []
        self._tmp = None
        self.nchecks = 0
        self.observed = []
        import dany
        self.dany = dany

    def mod(self, name):
        import importlib
        return importlib.import_module("dany." + name)

    def real(self, name, lo=None, hi=None):
        v = _np.float64(float(self.m.get(name, 0)))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            if lo is not None and v < lo:
                v = _np.float64(lo)
            if hi is not None and v > hi:
                v = _np.float64(hi)
        return v

    def int(self, name, lo, hi):
        return _np.int64(self.m.get(name, lo))

    def choice(self, name, options):
        return _np.int64(self.m.get(name, sorted(options)[0]))

    def bool(self, name):
        return bool(self.m.get(name, False))

    flag = bool

    def pick(self, name, options):
        return options[int(self.m.get(name, 0)) if len(options) > 1 else 0]

    def num(self, b):
        return int(b)

    def array(self, vals, kind="f", shape=None):
        a = _np.array(list(vals), dtype=snp.KIND_DTYPE[kind])
        return a if shape is None else _np.array(a.reshape(shape),
                                                 order=getattr(shape, "order", "C"))

    def scratch(self):
        """directory for the files of one run, removed with this object"""
        import tempfile
        self._tmp = tempfile.TemporaryDirectory(prefix="dany_verif_")
        return self._tmp.name

    def grid(self, spec):
        return grids.fresh(spec)

    def grid_with(self, spec, **ov):
        g = grids.fresh(spec)
        cls = type(g)
        sub = type(cls.__name__, (cls,), {
            k: property(lambda self, v=v: v) for k, v in ov.items()})
        g.__class__ = sub
        return g

    def grid_poly(self, kind, verts, cells, nominal):
        return grids._poly([(float(x), float(y)) for x, y in verts], cells, kind)

    def grid_rect(self, delr, delc, xoff, yoff, rot):
        import math
        g = grids.structured(len(delc), len(delr), delr, delc)
        g.set_coord_info(xoff=float(xoff), yoff=float(yoff),
                         angrot=math.degrees(math.atan2(rot[1], rot[0])))
        return g

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def _tol(self, a, b, tol):
        if tol is not None:
            return tol
        return 1e-9 * max(1.0, abs(float(a)), abs(float(b)))

    def eq(self, a, b, tol=None):
        if isinstance(a, (bool, _np.bool_)) or isinstance(b, (bool, _np.bool_)):
            return bool(a == b)
        if isinstance(a, (int, _np.integer)) and isinstance(b, (int, _np.integer)):
            return bool(a == b)
        if a is None or b is None:
            return a is b
        a, b = float(a), float(b)
        if a == b:
            return True
        return abs(a - b) <= self._tol(a, b, tol)

    def same(self, a, b):
        if a != a or b != b:
            return a != a and b != b
        return self.eq(a, b)

    def le(self, a, b, tol=None):
        a, b = float(a), float(b)
        return a <= b + self._tol(a, b, tol)

    def lt(self, a, b):
        return bool(a < b)

    def min(self, *xs):
        return min(xs)

    def max(self, *xs):
        return max(xs)

    def sum(self, xs):
        s = 0
        for x in xs:
            s = s + x
        return s

    def abs(self, x):
        return abs(x)

    def uf(self, name, *a):
        return getattr(_np, name)(*a)

    def at(self, lst, i):
        return lst[int(i)]

    def conc(self, i):
        return int(i)

    def conc_float(self, x):
        return float(x)

    def decide(self, b):
        return bool(b)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, label, c, known=None, detail=None):
        self.nchecks += 1
        if known is not None:
            for fid, cond in known:
                if fid in self.known_ids and bool(cond):
                    return
        if not bool(c):
            self.failed.append((label, str(detail) if detail is not None else ""))

    def observe(self, name, value):
        self.observed.append((name, eval_snap(_snap(value), {})))

    def reach(self):
        pass


# ----------------------------------------------------------- model (de)coding
def enc_model(m):
    out = {}
    for k, v in (m or {}).items():
        if isinstance(v, bool):
            out[k] = v
        elif isinstance(v, int):
            out[k] = v
        else:
            out[k] = str(Fraction(v))
    return out


def dec_model(m):
    out = {}
    for k, v in m.items():
        if isinstance(v, str):
            out[k] = Fraction(v)
        else:
            out[k] = v
    return out
