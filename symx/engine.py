"""Path-forking symbolic executor core.

Symbolic values (SNum, SBool) are hash-consed terms.  Branching on an SBool
asks the engine, which decides feasibility of both sides with z3 under the
current path condition.  Every feasible side is explored (re-execution with a
decision prefix), so the set of completed paths covers every value of the
symbolic inputs within the harness' bounds.
"""
import sys
import math
import time
from fractions import Fraction
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)     # the solver's values can be long

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
import numpy as np  # noqa: E402


# ------------------------------------------------------------------ control
class PathEnd(BaseException):
    """Unwinds the execution of one path."""


class PathInfeasible(PathEnd):
    """An assumption cannot be met on this path."""


class PathAbort(PathEnd):
    """Path left the encodable fragment (reason recorded)."""

    def __init__(self, reason):
        super().__init__(reason)
        self.reason = reason


class TickLimit(PathEnd):
    """Loop bound exceeded on a path (possible non-termination)."""


class DeadlineHit(PathEnd):
    pass


ENG = None  # current engine


def set_engine(e):
    global ENG
    ENG = e


# ------------------------------------------------------------------ numbers
def norm(c):
    """canonical exact number: int when integral, Fraction otherwise"""
    if type(c) is int:
        return c
    if type(c) is Fraction:
        return c.numerator if c.denominator == 1 else c
    if isinstance(c, (bool, np.bool_)):
        return int(c)
    if isinstance(c, (int, np.integer)):
        return int(c)
    if isinstance(c, (float, np.floating)):
        f = float(c)
        if f.is_integer():
            return int(f)
        return Fraction(f)
    raise TypeError(f"not a number: {c!r}")


def isfinite(c):
    return not (isinstance(c, (float, np.floating)) and
                (math.isinf(c) or math.isnan(c)))


class Atom:
    __slots__ = ("id", "kind", "args", "isint", "name", "dom", "_z3", "side", "_sq")

    def __repr__(self):
        if self.kind == "var":
            return self.name
        return f"{self.kind}{self.args!r}"


class Table:
    """hash-consing tables (one per process)"""

    def __init__(self):
        self.atoms = {}
        self.atom_by_id = {}
        self.nums = {}
        self.cmps = {}
        self.num_by_id = {}
        self.bools = {}
        self.bool_by_id = {}


TAB = Table()


def reset_tables():
    global TAB
    _SUP.clear()
    _TABLES.clear()
    TAB.atoms.clear()
    TAB.atom_by_id.clear()
    TAB.nums.clear()
    TAB.cmps.clear()
    TAB.num_by_id.clear()
    TAB.bools.clear()
    TAB.bool_by_id.clear()
    _mk_consts()


def _key(x):
    t = type(x)
    if t is SNum:
        return (1, x.id)
    if t is SBool:
        return (2, x.id)
    if t is Atom:
        return (3, x.id)
    return x


def _digest(key, table):
    """creation-order independent id (equal in every worker process), so that
    normal forms, and with them the branch sequence, are reproducible"""
    h = hash(key) & 0x1fffffffffffffff
    while h in table:
        h += 1
    return h


def mk_atom(kind, args, isint, name=None, dom=None):
    key = (kind, tuple(map(_key, args)), isint, name)
    a = TAB.atoms.get(key)
    if a is None:
        a = Atom()
        a.id = _digest(key, TAB.atom_by_id)
        a.kind, a.args, a.isint, a.name, a.dom = kind, args, isint, name, dom
        a._z3 = None
        a._sq = None
        TAB.atoms[key] = a
        TAB.atom_by_id[a.id] = a
    return a


NONE = object()


class SNum:
    """linear form c + sum(coef * atom); hash-consed"""
    __slots__ = ("c", "t", "isint", "id")
    __array_ufunc__ = None
    __array_priority__ = 1000

    # ---- misc
    def __repr__(self):
        s = [str(self.c)] if self.c or not self.t else []
        s += [f"{k}*{a!r}" for a, k in self.t]
        return "<" + " + ".join(s) + ">"

    @property
    def dtype(self):
        return np.dtype(int) if self.isint else np.dtype(float)

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return add(self, o)

    __radd__ = __add__

    def __neg__(self):
        return scale(self, -1)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return sub(self, o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return sub(o, self)

    def __mul__(self, o):
        if type(o) in (list, tuple, str):
            if not self.isint:
                raise TypeError("can't multiply sequence by non-int of type 'float'")
            return o * ENG.concretize(self)
        o = lift(o)
        if o is None:
            return NotImplemented
        return mul(self, o)

    __rmul__ = __mul__

    def __str__(self):
        """whole numbers of few values are spelled out (forks)"""
        if self.isint and len(domain(self) or ()) in range(1, 65):
            return str(ENG.concretize(self))
        return repr(self)

    def __format__(self, spec):
        if self.isint and len(domain(self) or ()) in range(1, 65):
            return format(ENG.concretize(self), spec)
        if spec:
            raise PathAbort("format of a symbolic value")
        return repr(self)

    def _bit(op):
        def f(self, o):
            if not self.isint:
                raise TypeError("unsupported operand type(s) for bitwise operation")
            o = b2n(o) if type(o) is SBool else o
            if type(o) is SNum:
                o = ENG.concretize(o)
            if not isinstance(o, (int, np.integer)):
                return NotImplemented
            return np.int64(op(int(ENG.concretize(self)), int(o)))
        return f
    __and__ = __rand__ = _bit(lambda x, y: x & y)
    __or__ = __ror__ = _bit(lambda x, y: x | y)
    __xor__ = __rxor__ = _bit(lambda x, y: x ^ y)
    __lshift__, __rshift__ = _bit(lambda x, y: x << y), _bit(lambda x, y: x >> y)
    __rlshift__, __rrshift__ = _bit(lambda x, y: y << x), _bit(lambda x, y: y >> x)
    del _bit

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return div(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return sub(self, mul(o, floordiv(self, o)))

    def __rmod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return sub(o, mul(self, floordiv(o, self)))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, SNum):
            if not o.t:
                o = o.c
            else:
                raise PathAbort("symbolic exponent")
        o = norm(o)
        if o == 2:
            return mul(self, self)
        if o == 1:
            return self
        if o == 0:
            return const(1, self.isint)
        if o == Fraction(1, 2):
            return sqrt(self)
        if isinstance(o, int) and o > 0:
            r = self
            for _ in range(o - 1):
                r = mul(r, self)
            return r
        if isinstance(o, int) and o < 0:
            return div(1, self ** (-o))
        raise PathAbort("power")

    def __rpow__(self, o):
        raise PathAbort("symbolic exponent")

    def __abs__(self):
        return sabs(self)

    def __round__(self, n=None):
        r = rounded(self, n or 0)
        return r if n is not None or type(r) is not SNum else trunc(r)

    # numpy object-array protocol (np.sqrt(objarray) calls .sqrt())
    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def tolist(self):
        return self

    def astype(self, t, **k):
        from . import snp
        return snp.cast(self, snp.kind_of_dtype(t))

    # ---- comparison
    def __lt__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return lt(self, o)

    def __le__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return le(self, o)

    def __gt__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return lt(o, self)

    def __ge__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return le(o, self)

    def __eq__(self, o):
        if o is self:
            return TRUE
        o = lift(o)
        if o is None:
            return NotImplemented
        return eq(self, o)

    def __ne__(self, o):
        if o is self:
            return FALSE
        o = lift(o)
        if o is None:
            return NotImplemented
        return bnot(eq(self, o))

    # ---- concretisation
    def __bool__(self):
        return bool(bnot(eq(self, 0)))

    def __index__(self):
        if not self.isint:
            raise TypeError("symbolic float used as an index")
        return ENG.concretize(self)

    def __int__(self):
        if self.isint:
            return ENG.concretize(self)
        return ENG.concretize(trunc(self))

    def __float__(self):
        if not self.t:
            return float(self.c)
        raise PathAbort("float() of a symbolic value")

    def __hash__(self):
        if not self.t:
            return hash(self.c)
        if self.isint:
            return hash(ENG.concretize(self))
        return 0

    def is_integer(self):
        if self.isint:
            return True
        return eq(self, trunc(self))

    def __reduce__(self):
        raise PathAbort("pickling symbolic value")


def _mk_num(c, t, isint):
    key = (c, t, isint)
    n = TAB.nums.get(key)
    if n is None:
        n = SNum.__new__(SNum)
        n.c, n.t, n.isint = c, t, isint
        n.id = _digest((c, tuple((a.id, k) for a, k in t), isint), TAB.num_by_id)
        TAB.num_by_id[n.id] = n
        TAB.nums[key] = n
    return n


def mk_num(c, t, isint):
    """result constructor: collapses to a concrete numpy scalar if constant"""
    if not t:
        return const(c, isint)
    return _mk_num(c, t, isint)


def const(c, isint):
    c = norm(c)
    if isint:
        if type(c) is int:
            return np.int64(c)
        raise TypeError("non-integral int")
    f = float(c)
    if type(c) is int:
        if abs(c) < 2 ** 53 or int(f) == c:
            return np.float64(f)
    elif Fraction(f) == c:
        return np.float64(f)
    return _mk_num(c, (), False)


def lift(o):
    """accepted operand -> SNum or concrete scalar; None otherwise"""
    t = type(o)
    if t is SNum or t is int or t is float or t is np.float64 or t is np.int64:
        return o
    if isinstance(o, (int, float, np.integer, np.floating, np.bool_, Fraction)):
        return o
    if t is SBool:
        return b2n(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o[()])
    return None


def parts(o):
    """(c, t, isint) of an operand"""
    if type(o) is SNum:
        return o.c, o.t, o.isint
    if isinstance(o, Fraction):
        return norm(o), (), False
    isint = isinstance(o, (int, np.integer, np.bool_))
    return norm(o), (), isint


def is_conc(o):
    return type(o) is not SNum


def add(a, b):
    if not isfinite(a) or not isfinite(b):
        return _nonfin_addsub(a, b, 1)
    ca, ta, ia = parts(a)
    cb, tb, ib = parts(b)
    return mk_num(norm(ca + cb), _merge(ta, tb, 1), ia and ib)


def sub(a, b):
    if not isfinite(a) or not isfinite(b):
        return _nonfin_addsub(a, b, -1)
    ca, ta, ia = parts(a)
    cb, tb, ib = parts(b)
    return mk_num(norm(ca - cb), _merge(ta, tb, -1), ia and ib)


def _nonfin_addsub(a, b, s):
    fa = 0.0 if type(a) is SNum else float(a)
    fb = 0.0 if type(b) is SNum else float(b)
    return np.float64(fa + s * fb)


def _merge(ta, tb, s):
    if not tb:
        return ta
    if not ta:
        return tb if s == 1 else tuple((x, -k) for x, k in tb)
    out = []
    i = j = 0
    na, nb = len(ta), len(tb)
    while i < na and j < nb:
        xa, ka = ta[i]
        xb, kb = tb[j]
        if xa is xb:
            k = norm(ka + s * kb)
            if k:
                out.append((xa, k))
            i += 1
            j += 1
        elif xa.id < xb.id:
            out.append(ta[i])
            i += 1
        else:
            out.append((xb, s * kb))
            j += 1
    out.extend(ta[i:])
    if s == 1:
        out.extend(tb[j:])
    else:
        out.extend((x, -k) for x, k in tb[j:])
    return tuple(out)


def scale(a, k, kint=True):
    c, t, i = parts(a)
    k = norm(k)
    kint = kint and type(k) is int
    if k == 0:
        return const(0, i and kint)
    return mk_num(norm(c * k), tuple((x, norm(q * k)) for x, q in t), i and kint)


def _monos(atom):
    return atom.args if atom.kind == "mono" else (atom,)


def mul(a, b):
    if not isfinite(a) or not isfinite(b):
        # sign of the symbolic factor decides
        if type(a) is SNum or type(b) is SNum:
            s, f = (a, b) if type(a) is SNum else (b, a)
            if math.isnan(f):
                return np.float64(np.nan)
            if lt(s, 0):
                return np.float64(-f)
            if lt(0, s):
                return np.float64(f)
            return np.float64(np.nan)
        return np.float64(float(a) * float(b))
    ca, ta, ia = parts(a)
    cb, tb, ib = parts(b)
    isint = ia and ib
    if not ta:
        return scale(b, ca, isint) if tb else const(norm(ca * cb), isint)
    if not tb:
        return scale(a, cb, isint)
    for x, y in ((a, b), (b, a)):
        t = table("val", (x,), lambda v: v)
        if t is not None and len(t) <= 16:
            return select(t, lambda v: scale(y, v, isint and isinstance(v, int))
                          if v else const(0, isint))
    # resolve 0/1 ite factors by distributing, keeps products linear
    acc = {}
    c = norm(ca * cb)

    def put(atom, k):
        acc[atom] = norm(acc.get(atom, 0) + k)
    for x, k in ta:
        if cb:
            put(x, k * cb)
    for x, k in tb:
        if ca:
            put(x, k * ca)
    extra = 0
    for x, k in ta:
        for y, q in tb:
            ms = tuple(sorted(_monos(x) + _monos(y), key=lambda z: z.id))
            # sqrt(e)*sqrt(e) -> e
            if len(ms) == 2 and ms[0] is ms[1] and ms[0].kind == "sqrt":
                extra = add(extra, scale(ms[0].args[0], norm(k * q)))
                continue
            put(mk_atom("mono", ms, x.isint and y.isint), k * q)
    t = tuple(sorted(((x, k) for x, k in acc.items() if k), key=lambda z: z[0].id))
    r = mk_num(c, t, isint)
    if not (type(extra) is int and extra == 0):
        r = add(r, extra)
    return r


def _fdiv(a, b):
    with np.errstate(all="ignore"):
        return np.float64(np.divide(np.float64(a), np.float64(b)))


# ---- values that depend on a few finite-domain variables only
_SUP = {}


def _support(x):
    """finite-domain variables x depends on (frozenset of atoms), or None"""
    t = type(x)
    if t is SNum:
        key = x.id
        if key in _SUP:
            return _SUP[key]
        r = frozenset()
        for a, _ in x.t:
            q = _support(a)
            if q is None or len(q | r) > 4:
                r = None
                break
            r = r | q
        _SUP[key] = r
        return r
    if t is Atom:
        if x.kind == "var":
            return frozenset((x,)) if x.dom is not None else None
        if x.kind == "uf":
            return None
        key = ("a", x.id)
    elif t is SBool:
        if x.op == "var":
            return None
        key = ("b", x.id)
    else:
        return frozenset()
    if key in _SUP:
        return _SUP[key]
    r = frozenset()
    for a in x.args:
        q = _support(a)
        if q is None or len(q | r) > 4:
            r = None
            break
        r = r | q
    _SUP[key] = r
    return r


_TABLES = {}
TABMAX = 256


def table(key, args, f):
    """f of finite-domain arguments as [(condition, value)], one entry per
    distinct value; None when the arguments are not finite"""
    k = (key, tuple(_key(x) for x in args))
    if k in _TABLES:
        return _TABLES[k]
    sup = frozenset()
    res = None
    for x in args:
        q = _support(x)
        if q is None:
            break
        sup = sup | q
    else:
        n = 1
        for a in sup:
            n *= len(a.dom)
        if 0 < len(sup) <= 4 and n <= TABMAX:
            res = _table(sorted(sup, key=lambda a: a.name), args, f)
    _TABLES[k] = res
    return res


def _table(sup, args, f):
    import itertools
    groups = {}
    for vals in itertools.product(*[a.dom for a in sup]):
        m = {a.name: v for a, v in zip(sup, vals)}
        try:
            r = f(*[ev_num(x, m, {}) for x in args])
        except Inexact:
            return None
        kk = "nan" if r != r else r
        c = band(*[eq(_mk_num(0, ((a, 1),), True), v) for a, v in zip(sup, vals)])
        groups.setdefault(kk, [r, []])[1].append(c)
    return [(bor(*cs), r) for r, cs in groups.values()]


def select(tab, g=None, forkzero=False):
    """value of a table (of g of its entries); non-finite entries fork, the
    others merge"""
    live = [(c, r) for c, r in tab if ENG.known(c) is not False]
    if not live:
        raise PathInfeasible()
    out = []
    for n, (c, r) in enumerate(live):
        last = n == len(live) - 1 and not out
        if (forkzero and r == 0) or not isfinite(r):
            if last or bool(c):
                return r if g is None else g(r)
            continue
        out.append((c, r))
    v = None
    for c, r in reversed(out):
        if g is not None:
            r = g(r)
        v = r if v is None else ite(c, r, v)
    return v


def div(a, b):
    """true division with numpy semantics (x/0 -> inf/nan)"""
    if type(a) is not SNum and type(b) is not SNum:
        return _fdiv(a, b)
    if type(b) is SNum and b.t:
        if type(a) is not SNum or a.t:
            t = table("div", (a, b), _fdiv) if type(a) is SNum or isfinite(a) else None
            if t is not None:
                return select(t)
        t = table("val", (b,), lambda x: x)
        if t is not None and len(t) <= 16:
            return select(t, lambda v: div(a, np.float64(float(v))), True)
    if type(b) is not SNum:
        if math.isnan(b):
            return np.float64(np.nan)
        if math.isinf(b):
            return np.float64(0.0)
        if b == 0:
            if eq(a, 0):
                return np.float64(np.nan)
            if lt(a, 0):
                return np.float64(-np.inf)
            return np.float64(np.inf)
        return scale(a, norm(Fraction(1) / norm(b)), False)
    if not b.t:
        return scale(a, norm(Fraction(1) / b.c), False)
    if type(a) is not SNum and not isfinite(a):
        return np.float64(a) if lt(0, b) else np.float64(-a)
    if eq(b, 0):
        if eq(a, 0):
            return np.float64(np.nan)
        if lt(a, 0):
            return np.float64(-np.inf)
        return np.float64(np.inf)
    # canonical: (k*x)/(x) -> k
    ca, ta, _ = parts(a)
    if ta:
        x, k = b.t[0]
        ka = dict(ta).get(x)
        if ka is not None:
            q = norm(Fraction(ka) / Fraction(k))
            r = sub(a, scale(b, q, False))
            if type(r) is not SNum and r == 0:
                return const(q, False)
    elif ca == 0:
        return np.float64(0.0)
    # pull the leading coefficient out so that equal ratios share one atom
    lead = Fraction(b.t[0][1])
    bb = scale(b, 1 / lead, False)
    # a/b = sum coef * (atom / b)
    c, t, _ = parts(a)
    out = []
    if c:
        out.append((mk_atom("div", (const_(1), bb), False), norm(c / lead)))
    for x, k in t:
        out.append((mk_atom("div", (_mk_num(0, ((x, 1),), False), bb), False),
                    norm(Fraction(k) / lead)))
    out.sort(key=lambda z: z[0].id)
    ENG.nonlinear = True
    return mk_num(0, tuple(out), False)


def const_(c):
    return _mk_num(norm(c), (), False)


def floordiv(a, b):
    if type(a) is not SNum and type(b) is not SNum:
        return a // b
    if type(b) is not SNum and type(a) is SNum and a.isint and \
            isinstance(norm(b), int) and norm(b) > 0:
        return mk_num(0, ((mk_atom("idiv", (a, norm(b)), True), 1),), True)
    return floor(div(a, b))


def floor(a):
    if type(a) is not SNum:
        return np.floor(a)
    if a.isint:
        return a
    return mk_num(0, ((mk_atom("floor", (a,), True), 1),), True)


def rounded(a, n=0):
    """rounding to n decimals, halves to even"""
    if type(a) is not SNum:
        return np.round(a, n)
    if a.isint and n >= 0:
        return a
    y = a * 10 ** n if n >= 0 else div(a, 10 ** -n)
    k = floor(y + Fraction(1, 2))
    tie = band(eq(y + Fraction(1, 2), k), bnot(eq(mul(floordiv(k, 2), 2), k)))
    k = toreal(ite(tie, k - 1, k))
    return div(k, 10 ** n) if n >= 0 else k * 10 ** -n


def single_precision():
    """a symbolic value is stored in single precision: not modelled, see runner"""
    ENG.rough = True
    ENG.note_incomplete("single precision: decided on sampled inputs only")


def trunc(a):
    """C-style float -> int conversion"""
    if type(a) is not SNum:
        return np.int64(int(a))
    if a.isint:
        return a
    return mk_num(0, ((mk_atom("trunc", (a,), True), 1),), True)


def toreal(a):
    if type(a) is SNum:
        return _mk_num(a.c, a.t, False) if a.isint else a
    return np.float64(a)


def sabs(a):
    if type(a) is not SNum:
        return abs(a)
    return ite(le(0, a), a, scale(a, -1))


def _fsqrt(v):
    with np.errstate(all="ignore"):
        return np.sqrt(np.float64(float(v)))


def sqrt(a):
    if type(a) is not SNum:
        return np.sqrt(np.float64(a))
    t = table("sqrt", (a,), _fsqrt)
    if t is not None:
        return select(t)
    if lt(a, 0):
        return np.float64(np.nan)
    # perfect square of a single atom/linear form is not recognised; exact
    ENG.nonlinear = True
    return mk_num(0, ((mk_atom("sqrt", (a,), False), 1),), False)


def uf(name, *args):
    """uninterpreted real function (transcendentals); concrete args evaluate"""
    if name in UF_EVAL:
        t = table(name, args, lambda *v: np.float64(UF_EVAL[name](*[float(x) for x in v])))
        if t is not None:
            return select(t)
    args = tuple(toreal(x) if type(x) is SNum else const_(norm(x)) for x in args)
    return mk_num(0, ((mk_atom("uf", args, False, name=name), 1),), False)


UF_EVAL = {"arctan2": np.arctan2, "cos": np.cos, "sin": np.sin,
           "arctan": math.atan, "tan": math.tan, "exp": math.exp,
           "degrees": math.degrees, "radians": math.radians}


# ------------------------------------------------------------------ booleans
class SBool:
    __slots__ = ("op", "args", "id", "_z3", "neg", "_sq")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __repr__(self):
        return f"B[{self.op} {self.args!r}]"

    dtype = np.dtype(bool)
    shape = ()
    ndim = 0
    size = 1

    def __bool__(self):
        return ENG.branch(self)

    def __and__(self, o):
        o = liftb(o)
        return NotImplemented if o is None else band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        o = liftb(o)
        return NotImplemented if o is None else bor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        o = liftb(o)
        return NotImplemented if o is None else bnot(biff(self, o))

    __rxor__ = __xor__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return biff(self, liftb(o))
        o = lift(o)
        if o is None:
            return NotImplemented
        return eq(b2n(self), o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __add__(self, o):
        return b2n(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return b2n(self) - o

    def __rsub__(self, o):
        return o - b2n(self)

    def __mul__(self, o):
        return b2n(self) * o

    __rmul__ = __mul__

    def __neg__(self):
        return -b2n(self)

    def __lt__(self, o):
        return b2n(self) < o

    def __le__(self, o):
        return b2n(self) <= o

    def __gt__(self, o):
        return b2n(self) > o

    def __ge__(self, o):
        return b2n(self) >= o

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def all(self):
        return self

    def any(self):
        return self


def _mk_bool(op, args):
    key = (op, tuple(map(_key, args)))
    b = TAB.bools.get(key)
    if b is None:
        b = SBool.__new__(SBool)
        b.op, b.args = op, args
        b.id = _digest(key, TAB.bool_by_id)
        b._z3 = None
        b.neg = None
        b._sq = None
        TAB.bools[key] = b
        TAB.bool_by_id[b.id] = b
    return b


TRUE = np.True_
FALSE = np.False_


def _mk_consts():
    pass


def liftb(o):
    if type(o) is SBool or isinstance(o, (bool, np.bool_)):
        return o
    if type(o) is SNum:
        return bnot(eq(o, 0))
    if isinstance(o, (int, np.integer)):
        return bool(o)
    return None


def bnot(a):
    if type(a) is not SBool:
        return np.bool_(not a)
    if a.neg is not None:
        return a.neg
    if a.op == "not":
        r = a.args[0]
    elif a.op == "lt":        # not(e<0) -> -e<=0
        r = _cmp("le", scale(a.args[0], -1))
    elif a.op == "le":
        r = _cmp("lt", scale(a.args[0], -1))
    elif a.op == "and":
        r = bor(*[bnot(x) for x in a.args])
    elif a.op == "or":
        r = band(*[bnot(x) for x in a.args])
    else:
        r = _mk_bool("not", (a,))
    a.neg = r
    if type(r) is SBool and r.neg is None:
        r.neg = a
    return r


def band(*xs):
    out = {}
    for x in xs:
        if type(x) is not SBool:
            if not x:
                return FALSE
            continue
        if x.op == "and":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    if not out:
        return TRUE
    if len(out) > 1:
        for y in list(out.values()):
            if y.op not in ("and", "or"):
                n = bnot(y)
                if type(n) is SBool and n.id in out:
                    return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk_bool("and", tuple(out[i] for i in sorted(out)))


def bor(*xs):
    out = {}
    for x in xs:
        if type(x) is not SBool:
            if x:
                return TRUE
            continue
        if x.op == "or":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    if not out:
        return FALSE
    if len(out) > 1:
        for y in list(out.values()):
            if y.op not in ("and", "or"):
                n = bnot(y)
                if type(n) is SBool and n.id in out:
                    return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk_bool("or", tuple(out[i] for i in sorted(out)))


def implies(a, b):
    return bor(bnot(a), b)


def biff(a, b):
    if type(a) is not SBool:
        return b if a else bnot(b)
    if type(b) is not SBool:
        return a if b else bnot(a)
    if a is b:
        return TRUE
    if bnot(a) is b:
        return FALSE
    return bor(band(a, b), band(bnot(a), bnot(b)))


def b2n(b):
    if type(b) is not SBool:
        return np.int64(1 if b else 0)
    return ite(b, 1, 0)


def bvar(name):
    return _mk_bool("var", (name,))


def _cmp(op, e):
    """e <op> 0 with op in lt, le, eq"""
    if type(e) is SNum:
        k = (op, e.id)
        r = TAB.cmps.get(k)
        if r is None:
            r = TAB.cmps[k] = _cmp1(op, e)
        return r
    return _cmp1(op, e)


def _cmp1(op, e):
    if type(e) is not SNum:
        if op == "lt":
            return np.bool_(e < 0)
        if op == "le":
            return np.bool_(e <= 0)
        return np.bool_(e == 0)
    if not e.t:
        c = e.c
        return np.bool_(c < 0 if op == "lt" else c <= 0 if op == "le" else c == 0)
    # single ite/min/max atom: distribute (keeps the boolean structure visible)
    if len(e.t) == 1:
        a, k = e.t[0]
        if a.kind == "ite":
            cnd, x, y = a.args
            return bite(cnd, _cmp(op, add(scale(x, k), e.c)),
                        _cmp(op, add(scale(y, k), e.c)))
    for a, k in e.t:
        if a.kind in ("min", "max"):
            rest = sub(e, _mk_num(0, ((a, k),), e.isint))
            terms = [add(rest, scale(x, k)) for x in a.args]
            up = (a.kind == "max") == (k > 0)   # k*a is the max of k*x
            if op == "eq":
                # k*a + rest == 0
                if up:
                    return band(*([_cmp("le", x) for x in terms] +
                                  [bor(*[_cmp("eq", x) for x in terms])]))
                return band(*([_cmp("le", scale(x, -1)) for x in terms] +
                              [bor(*[_cmp("eq", x) for x in terms])]))
            f = band if up else bor
            return f(*[_cmp(op, x) for x in terms])
    # normalise scale
    lead = e.t[0][1]
    if op == "eq":
        f = Fraction(1) / lead
    else:
        f = Fraction(1) / abs(lead)
    allint = e.isint or all(a.isint for a, _ in e.t)
    if allint:
        # integral coefficients, gcd 1
        den = 1
        for _, k in e.t:
            if type(k) is Fraction:
                den = den * k.denominator // math.gcd(den, k.denominator)
        ks = [int(k * den) for _, k in e.t]
        g = 0
        for k in ks:
            g = math.gcd(g, abs(k))
        f = Fraction(den, g)
        if op == "eq" and lead < 0:
            f = -f
        c = norm(e.c * f)
        t = tuple((a, norm(k * f)) for a, k in e.t)
        if op == "lt":     # ints: e<0 -> e+1<=0 after making c integral
            c = math.floor(c) + 1 if type(c) is not int else c + 1
            op = "le"
        elif op == "le":
            c = math.ceil(c)
        elif type(c) is not int:
            return FALSE
        e = _mk_num(c, t, True)
        dom = _lin_range(e)
        if dom is not None:
            lo, hi = dom
            if op == "le":
                if hi <= 0:
                    return TRUE
                if lo > 0:
                    return FALSE
            elif lo > 0 or hi < 0:
                return FALSE
    elif f != 1:
        e = scale(e, f, False)
    return _mk_bool(op, (e,))


def _lin_range(e):
    lo = hi = e.c
    for a, k in e.t:
        d = a.dom
        if d is None:
            return None
        if k > 0:
            lo += k * d[0]
            hi += k * d[-1]
        else:
            lo += k * d[-1]
            hi += k * d[0]
    return lo, hi


def bite(c, a, b):
    if type(c) is not SBool:
        return a if c else b
    if a is b:
        return a
    if type(a) is not SBool and type(b) is not SBool and bool(a) == bool(b):
        return a
    return bor(band(c, a), band(bnot(c), b))


def _finite2(a, b):
    return isfinite(a) and isfinite(b)


def lt(a, b):
    if not _finite2(a, b):
        return _nonfin_cmp(a, b, "lt")
    if type(a) is not SNum and type(b) is not SNum:
        return np.bool_(a < b)
    return _cmp("lt", sub(a, b))


def le(a, b):
    if not _finite2(a, b):
        return _nonfin_cmp(a, b, "le")
    if type(a) is not SNum and type(b) is not SNum:
        return np.bool_(a <= b)
    return _cmp("le", sub(a, b))


def eq(a, b):
    if not _finite2(a, b):
        return _nonfin_cmp(a, b, "eq")
    if type(a) is not SNum and type(b) is not SNum:
        return np.bool_(a == b)
    return _cmp("eq", sub(a, b))


def _nonfin_cmp(a, b, op):
    a = 0.0 if type(a) is SNum else float(a)
    b = 0.0 if type(b) is SNum else float(b)
    if op == "lt":
        return np.bool_(a < b)
    if op == "le":
        return np.bool_(a <= b)
    return np.bool_(a == b)


def _num_leaf(x):
    return type(x) is SNum or isinstance(x, (int, float, np.integer, np.floating,
                                             np.bool_, Fraction))


def ite(c, a, b):
    """merge two values; forks when the values cannot be merged"""
    if type(c) is not SBool:
        return a if c else b
    v = ENG.known(c)
    if v is not None:
        return a if v else b
    if a is b:
        return a
    ab, bb = type(a) is SBool, type(b) is SBool
    if ab or bb or (isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_))):
        la, lb = liftb(a), liftb(b)
        if la is not None and lb is not None:
            return bite(c, la, lb)
    if not (_num_leaf(a) and _num_leaf(b)) or not _finite2(a, b):
        if _num_leaf(a) and _num_leaf(b) and not isfinite(a) and not isfinite(b):
            if a == b or (a != a and b != b):
                return a
        return a if bool(c) else b
    ca, ta, ia = parts(a)
    cb, tb, ib = parts(b)
    if ca == cb and ta == tb:
        return a
    isint = ia and ib
    # factor the common part:  ite(c, a, b) = common + ite(c, ra, rb)
    if ta and tb:
        da, db = dict(ta), dict(tb)
        com = [(x, k) for x, k in ta if db.get(x) == k]
        if com:
            common = _mk_num(0, tuple(com), isint)
            return add(common, ite(c, sub(a, common), sub(b, common)))
    fa = _mk_num(ca, ta, isint)
    fb = _mk_num(cb, tb, isint)
    if c.op == "not":
        c, fa, fb = c.args[0], fb, fa
    dom = None
    if isint:
        d1, d2 = domain(fa), domain(fb)
        if d1 is not None and d2 is not None:
            dom = tuple(sorted(set(d1) | set(d2)))
    at = mk_atom("ite", (c, fa, fb), isint, dom=dom)
    return mk_num(0, ((at, 1),), isint)


def domain(n):
    """finite set of possible integer values (syntactic), or None"""
    if type(n) is not SNum:
        v = norm(n)
        return (v,) if isinstance(v, int) else None
    if not n.t:
        return (n.c,) if isinstance(n.c, int) else None
    if len(n.t) == 1:
        a, k = n.t[0]
        if a.dom is not None:
            return tuple(sorted(k * d + n.c for d in a.dom))
        return None
    r = {n.c}
    for a, k in n.t:
        if a.dom is None:
            return None
        r = {x + k * d for x in r for d in a.dom}
        if len(r) > 200:
            return None
    return tuple(sorted(r))


def nmin(*xs):
    return _minmax("min", xs)


def nmax(*xs):
    return _minmax("max", xs)


def _minmax(kind, xs):
    fl = []
    best = None
    allint = True
    for x in xs:
        if type(x) is SBool:
            x = b2n(x)
        if type(x) is SNum:
            if not x.isint:
                allint = False
            if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0].kind == kind:
                fl.extend(x.t[0][0].args)
            else:
                fl.append(x)
        else:
            if not isinstance(x, (int, np.integer)):
                allint = False
            if isinstance(x, (float, np.floating)) and x != x:
                return np.float64(np.nan)
            if best is None or (x < best if kind == "min" else x > best):
                best = x
    if not fl:
        return best
    if best is not None:
        if not isfinite(best):
            # +inf is neutral for min, -inf absorbs
            if (best > 0) == (kind == "min"):
                best = None
            else:
                return np.float64(best)
        else:
            fl.append(_mk_num(norm(best), (), isinstance(best, (int, np.integer))))
    uniq = {}
    for x in fl:
        if not allint and x.isint:
            x = _mk_num(x.c, x.t, False)
        uniq[x.id] = x
    xs = [uniq[i] for i in sorted(uniq)]
    # drop arguments dominated by a constant offset of another
    keep = {}
    for x in xs:
        k = x.t
        if k in keep:
            y = keep[k]
            if (x.c < y.c) == (kind == "min"):
                keep[k] = x
        else:
            keep[k] = x
    xs = list(keep.values())
    if len(xs) == 1:
        x = xs[0]
        return x if x.t else const(x.c, x.isint)
    dom = None
    if allint:
        ds = [domain(x) for x in xs]
        if all(d is not None for d in ds):
            dom = tuple(sorted(set().union(*ds)))
    a = mk_atom(kind, tuple(xs), allint, dom=dom)
    return mk_num(0, ((a, 1),), allint)


# ------------------------------------------------------------------ to z3
def zval(c, isint):
    if type(c) is int:
        return z3.IntVal(c) if isint else z3.RealVal(c)
    return z3.RealVal(f"{c.numerator}/{c.denominator}")


_UFS = {}


def z_atom(a):
    z = a._z3
    if z is not None:
        return z
    k = a.kind
    if k == "var":
        z = z3.Int(a.name) if a.isint else z3.Real(a.name)
    elif k == "ite":
        c, x, y = a.args
        z = z3.If(z_bool(c), z_num(x, a.isint), z_num(y, a.isint))
    elif k in ("min", "max"):
        z = z_num(a.args[0], a.isint)
        for x in a.args[1:]:
            zx = z_num(x, a.isint)
            z = z3.If(zx <= z if k == "min" else zx >= z, zx, z)
    elif k == "mono":
        z = None
        for x in a.args:
            zx = z_atom(x)
            if x.isint and not a.isint:
                zx = z3.ToReal(zx)
            z = zx if z is None else z * zx
    elif k == "div":
        z = z_num(a.args[0], False) / z_num(a.args[1], False)
    elif k == "idiv":
        z = z_num(a.args[0], True) / z3.IntVal(a.args[1])
    elif k == "floor":
        z = z3.ToInt(z_num(a.args[0], False))
    elif k == "trunc":
        x = z_num(a.args[0], False)
        z = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    elif k == "sqrt":
        x = z_num(a.args[0], False)
        z = z3.Real(f"sqrt!{a.id}")
        a.side = z3.And(z >= 0, z3.Implies(x >= 0, z * z == x))
    elif k == "uf":
        f = _UFS.get((a.name, len(a.args)))
        if f is None:
            f = z3.Function(a.name, *([z3.RealSort()] * (len(a.args) + 1)))
            _UFS[(a.name, len(a.args))] = f
        z = f(*[z_num(x, False) for x in a.args])
    else:
        raise AssertionError(k)
    a._z3 = z
    return z


def z_num(n, isint):
    """n: SNum (internal, possibly constant)"""
    if type(n) is not SNum:
        return zval(norm(n), isint)
    if isint:
        ts = []
        for a, k in n.t:
            z = z_atom(a)
            ts.append(z if k == 1 else z3.IntVal(k) * z)
        if n.c or not ts:
            ts.append(z3.IntVal(n.c))
    else:
        ts = []
        for a, k in n.t:
            z = z_atom(a)
            if a.isint:
                z = z3.ToReal(z)
            ts.append(z if k == 1 else zval(k, False) * z)
        if n.c or not ts:
            ts.append(zval(n.c, False))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def z_bool(b):
    if type(b) is not SBool:
        return z3.BoolVal(bool(b))
    z = b._z3
    if z is not None:
        return z
    op = b.op
    if op == "var":
        z = z3.Bool(b.args[0])
    elif op == "not":
        z = z3.Not(z_bool(b.args[0]))
    elif op == "and":
        z = z3.And([z_bool(x) for x in b.args])
    elif op == "or":
        z = z3.Or([z_bool(x) for x in b.args])
    else:
        e = b.args[0]
        isint = e.isint
        if isint and (type(e.c) is Fraction or
                      any(type(k) is Fraction for _, k in e.t)):
            isint = False
        # move to  lhs op -c
        ts = []
        for a, k in e.t:
            za = z_atom(a)
            if a.isint and not isint:
                za = z3.ToReal(za)
            ts.append(za if k == 1 else zval(k, isint) * za)
        lhs = ts[0] if len(ts) == 1 else z3.Sum(ts)
        rhs = zval(norm(-e.c), isint)
        z = lhs < rhs if op == "lt" else lhs <= rhs if op == "le" else lhs == rhs
    b._z3 = z
    return z


_EMPTY = frozenset()


def sqrts(x):
    """sqrt atoms occurring in a term (their defining constraints are added to
    every query that mentions them)"""
    t = type(x)
    if t is SNum:
        r = _EMPTY
        for a, _ in x.t:
            q = sqrts(a)
            if q:
                r = r | q
        return r
    if t is not SBool and t is not Atom:
        return _EMPTY
    if x._sq is None:
        r = _EMPTY
        for y in x.args:
            q = sqrts(y)
            if q:
                r = r | q
        if t is Atom and x.kind == "sqrt":
            r = r | {x}
        x._sq = r
    return x._sq


# ------------------------------------------------------------------ eval
class Inexact(Exception):
    pass


def ev_atom(a, m, cache):
    v = cache.get(a.id, NONE)
    if v is not NONE:
        return v
    k = a.kind
    if k == "var":
        v = m.get(a.name, 0 if a.dom is None else a.dom[0])
    elif k == "ite":
        c, x, y = a.args
        v = ev_num(x if ev_bool(c, m, cache) else y, m, cache)
    elif k == "min":
        v = min(ev_num(x, m, cache) for x in a.args)
    elif k == "max":
        v = max(ev_num(x, m, cache) for x in a.args)
    elif k == "mono":
        v = 1
        for x in a.args:
            v = v * ev_atom(x, m, cache)
        v = norm(v)
    elif k == "div":
        d = ev_num(a.args[1], m, cache)
        if d == 0:
            raise Inexact()
        v = norm(Fraction(ev_num(a.args[0], m, cache)) / Fraction(d))
    elif k == "idiv":
        v = ev_num(a.args[0], m, cache) // a.args[1]
    elif k == "floor":
        v = math.floor(ev_num(a.args[0], m, cache))
    elif k == "trunc":
        v = math.trunc(ev_num(a.args[0], m, cache))
    elif k == "sqrt":
        x = Fraction(ev_num(a.args[0], m, cache))
        if x < 0:
            raise Inexact()
        p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if p * p == x.numerator and q * q == x.denominator:
            v = norm(Fraction(p, q))
        else:
            raise Inexact()
    else:
        raise Inexact()
    cache[a.id] = v
    return v


def ev_num(n, m, cache):
    if type(n) is not SNum:
        return norm(n)
    s = n.c
    for a, k in n.t:
        s += k * ev_atom(a, m, cache)
    return norm(s)


def ev_bool(b, m, cache):
    if type(b) is not SBool:
        return bool(b)
    key = -1 - b.id
    v = cache.get(key)
    if v is not None:
        return v
    op = b.op
    if op == "lt":
        v = ev_num(b.args[0], m, cache) < 0
    elif op == "le":
        v = ev_num(b.args[0], m, cache) <= 0
    elif op == "eq":
        v = ev_num(b.args[0], m, cache) == 0
    elif op == "and":
        v = all(ev_bool(x, m, cache) for x in b.args)
    elif op == "or":
        v = any(ev_bool(x, m, cache) for x in b.args)
    elif op == "not":
        v = not ev_bool(b.args[0], m, cache)
    elif op == "var":
        v = bool(m.get(b.args[0], False))
    cache[key] = v
    return v


def ev_float(n, m):
    """approximate evaluation for reporting (transcendentals allowed)"""
    if type(n) is SBool:
        return ev_bool(n, m, {})
    if type(n) is not SNum:
        return n
    try:
        return float(ev_num(n, m, {}))
    except Inexact:
        pass
    s = float(n.c)
    for a, k in n.t:
        s += float(k) * _evf_atom(a, m)
    return s


def _evf_atom(a, m):
    k = a.kind
    if k == "var":
        return float(m.get(a.name, 0 if a.dom is None else a.dom[0]))
    if k == "ite":
        return ev_float(a.args[1] if ev_bool(a.args[0], m, {}) else a.args[2], m)
    if k == "uf":
        f = UF_EVAL.get(a.name)
        if f is None:
            raise Inexact()
        return f(*[ev_float(x, m) for x in a.args])
    if k == "sqrt":
        return math.sqrt(ev_float(a.args[0], m))
    if k == "div":
        return ev_float(a.args[0], m) / ev_float(a.args[1], m)
    if k == "mono":
        v = 1.0
        for x in a.args:
            v *= _evf_atom(x, m)
        return v
    if k in ("min", "max"):
        return (min if k == "min" else max)(ev_float(x, m) for x in a.args)
    raise Inexact()


# ------------------------------------------------------------------ engine
class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.aborted = 0
        self.branches = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.assert_queries = 0
        self.assertions = 0
        self.assert_trivial = 0
        self.concretised = 0

    def merge(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


class Candidate:
    def __init__(self, kind, label, model, detail=""):
        self.kind, self.label, self.model, self.detail = kind, label, model, detail


class Engine:
    """explores all paths of body(); use run_item for one work item subtree"""

    def __init__(self, solver_timeout_ms=20000, tick_limit=20000, seed=1):
        self.solver = z3.Solver()
        self.timeout_ms = solver_timeout_ms
        self.solver.set("timeout", solver_timeout_ms)
        self.solver.set("random_seed", seed)
        self.trail = []      # z3-asserted bools (SBool ids) in push order
        self.stats = Stats()
        self.tick_limit = tick_limit
        self.nonlinear = False
        self.work = []
        self.deadline = None
        self.vars = {}       # name -> (SNum/SBool, kind, domain)
        self.candidates = []
        self.incomplete = {}
        self.fns = set()
        self.base = []

    # -------------------------------------------------- solver plumbing
    def _sync(self):
        """make the z3 stack equal to self.asserted"""
        a, t = self.asserted, self.trail
        n = 0
        m = min(len(a), len(t))
        while n < m and a[n] is t[n]:
            n += 1
        if len(t) > n:
            self.solver.pop(len(t) - n)
            del t[n:]
        for b in a[n:]:
            z = z_bool(b)
            self.solver.push()
            self.solver.add(z)
            t.append(b)

    def _sides(self, *bs):
        r = self.sq_asserted
        for b in bs:
            q = sqrts(b)
            if q:
                r = r | q
        if not r:
            return []
        out = []
        for a in sorted(r, key=lambda a: a.id):
            z_atom(a)
            out.append(a.side)
        return out

    def _check(self, b=None):
        """sat?  of asserted /\\ b;   returns 'sat','unsat','unknown'"""
        if self.deadline is not None and time.time() > self.deadline:
            raise DeadlineHit()
        t0 = time.time()
        self._sync()
        s = self.solver
        zb = z_bool(b) if b is not None else None
        side = self._sides(b) if b is not None else self._sides()
        s.push()
        if side:
            s.add(side)
        if zb is not None:
            s.add(zb)
        r = s.check()
        if r == z3.sat:
            self._last = s.model()
            self.stats.sat += 1
            res = "sat"
        elif r == z3.unsat:
            self.stats.unsat += 1
            res = "unsat"
        else:
            res = "unknown"
        s.pop()
        if res == "unknown":
            s2 = z3.Solver()
            s2.set("timeout", self.timeout_ms)
            s2.add([z_bool(x) for x in self.asserted])
            s2.add(side)
            if zb is not None:
                s2.add(zb)
            r = s2.check()
            if r == z3.sat:
                self._last = s2.model()
                self.stats.sat += 1
                res = "sat"
            elif r == z3.unsat:
                self.stats.unsat += 1
                res = "unsat"
            else:
                self.stats.unknown += 1
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return res

    def extract(self, zm):
        m = {}
        for name, (v, kind, dom) in self.vars.items():
            if kind == "bool":
                z = zm.eval(z_bool(v), model_completion=True)
                m[name] = z3.is_true(z)
            else:
                at = v.t[0][0]
                z = zm.eval(z_atom(at), model_completion=True)
                if z3.is_int_value(z):
                    m[name] = z.as_long()
                elif z3.is_rational_value(z):
                    m[name] = norm(Fraction(z.numerator_as_long(),
                                            z.denominator_as_long()))
                elif z3.is_algebraic_value(z):
                    q = z.approx(30)
                    m[name] = norm(Fraction(q.numerator_as_long(),
                                            q.denominator_as_long()))
                else:
                    m[name] = 0
        return m

    # -------------------------------------------------- path state
    def start(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.asserted = []
        self.sq_asserted = _EMPTY
        self.knownmap = {}
        self.knone = set()
        self.model = model          # dict satisfying the prefix
        self.cache = {}
        self.ticks = 0
        self.pending = []           # (label, SBool, detail)
        self.checked = []
        self.vars = {}
        self.observed = []
        self.nonlinear = False
        self.notes = []

    def known(self, b):
        if type(b) is not SBool:
            return bool(b)
        v = self.knownmap.get(b.id)
        if v is None:
            n = bnot(b)
            if type(n) is not SBool:
                return not n
            v = self.knownmap.get(n.id)
            if v is not None:
                return not v
            if b.op != "and" and b.op != "or":
                return None
            if b.id in self.knone:
                return None
            stop = b.op == "or"
            r = not stop
            for x in b.args:
                k = self.known(x)
                if k is stop:
                    self.knownmap[b.id] = stop
                    return stop
                if k is None:
                    r = None
            if r is None:
                self.knone.add(b.id)
            else:
                self.knownmap[b.id] = r
            return r
        return v

    def _learn(self, b, v):
        st = [(b, v)]
        self.knone.clear()
        while st:
            b, v = st.pop()
            if type(b) is not SBool:
                continue
            self.knownmap[b.id] = v
            if b.op == "not":
                st.append((b.args[0], not v))
            elif b.op == "and" and v:
                st.extend((x, True) for x in b.args)
            elif b.op == "or" and not v:
                st.extend((x, False) for x in b.args)
            elif b.op == "eq" and v:
                e = b.args[0]
                for n1 in (_cmp("le", e), _cmp("le", scale(e, -1))):
                    if type(n1) is SBool:
                        self.knownmap[n1.id] = True
            elif b.op == "lt" and v:
                e = b.args[0]
                n1 = _cmp("le", e)
                if type(n1) is SBool:
                    self.knownmap[n1.id] = True
                n1 = _cmp("eq", e)
                if type(n1) is SBool:
                    self.knownmap[n1.id] = False

    def _assume_lit(self, b, v):
        self._learn(b, v)
        self._push(b if v else bnot(b))

    def _push(self, b):
        self.asserted.append(b)
        q = sqrts(b)
        if q:
            self.sq_asserted = self.sq_asserted | q

    def ev(self, b):
        """value of b under the path model or None (unknown/inexact)"""
        if self.model is None:
            return None
        try:
            return ev_bool(b, self.model, self.cache)
        except Inexact:
            return None

    def _setmodel(self, m):
        self.model = m
        self.cache = {}

    def branch(self, b):
        k = self.known(b)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            d = self._next("bi", b)
            if d[0] == "b":
                self._assume_lit(b, d[1])
            else:                    # implied literal
                self._learn(b, d[1])
            return d[1]
        self.stats.branches += 1
        v = self.ev(b)
        if v is None:
            r = self._check(b)
            if r == "sat":
                v = True
                self._setmodel(self._model())
            elif r == "unsat":
                return self._implied(b, False)
            else:
                self.note_incomplete("solver unknown on a branch")
                r2 = self._check(bnot(b))
                if r2 == "unsat":
                    return self._implied(b, True)
                if r2 == "unknown":
                    raise PathAbort("solver unknown on both sides of a branch")
                # explore False (sat); True side is left unexplored
                self._setmodel(self._model())
                self._dec(b, False)
                return False
        other = bnot(b) if v else b
        r = self._check(other)
        if r == "sat":
            self.work.append((self.decisions + [("b", not v)], self._model()))
            self._dec(b, v)
            return v
        if r == "unsat":
            return self._implied(b, v)
        self.note_incomplete("solver unknown on a branch")
        self._dec(b, v)
        return v

    def _model(self):
        return self.extract(self._last)

    def _dec(self, b, v):
        self.decisions.append(("b", v))
        self.pos = len(self.prefix)
        self._assume_lit(b, v)

    def _implied(self, b, v):
        self.decisions.append(("i", v))
        self._learn(b, v)
        return v

    def _next(self, kinds, b=None):
        d = self.prefix[self.pos]
        self.pos += 1
        self.decisions.append(d)
        if d[0] not in kinds:
            raise PathAbort("re-execution diverged")
        if b is not None:
            v = self.ev(b)
            if v is not None and v != d[1]:
                raise PathAbort("re-execution diverged")
        return d

    def concretize(self, n):
        """fork over the integer values of n"""
        if type(n) is not SNum:
            return int(n)
        if not n.t:
            return int(n.c)
        self.stats.concretised += 1
        dom = domain(n)
        if dom is not None:
            for d in dom:
                b = eq(n, d)
                if (self.known(b) if type(b) is SBool else b):
                    return d
        guard = 0
        while True:
            guard += 1
            if guard > 400:
                raise PathAbort("unbounded integer concretisation")
            if self.pos < len(self.prefix):
                d = self._next("c")
                _, val, taken, implied = d
                b = eq(n, val)
                if implied:
                    self._learn(b, taken)
                else:
                    self._assume_lit(b, taken)
                if taken:
                    return val
                continue
            val = self._pick(n)
            b = eq(n, val)
            self.stats.branches += 1
            r = self._check(bnot(b))
            if r == "unsat":
                self.decisions.append(("c", val, True, True))
                self._learn(b, True)
                return val
            if r == "sat":
                self.work.append((self.decisions + [("c", val, False, False)],
                                  self._model()))
            else:
                self.note_incomplete("solver unknown on a concretisation")
            self.decisions.append(("c", val, True, False))
            self._assume_lit(b, True)
            return val

    def _pick(self, n):
        if self.model is not None:
            try:
                return int(ev_num(n, self.model, self.cache))
            except Inexact:
                pass
        r = self._check()
        if r != "sat":
            raise PathAbort("cannot pick a value")
        self._setmodel(self._model())
        try:
            return int(ev_num(n, self.model, self.cache))
        except Inexact:
            raise PathAbort("cannot evaluate integer")

    # -------------------------------------------------- harness services
    def var_real(self, name):
        a = mk_atom("var", (), False, name=name)
        v = _mk_num(0, ((a, 1),), False)
        self.vars[name] = (v, "real", None)
        return v

    def var_int(self, name, dom):
        dom = tuple(sorted(dom))
        a = mk_atom("var", dom, True, name=name, dom=dom)
        v = _mk_num(0, ((a, 1),), True)
        self.vars[name] = (v, "int", dom)
        if name not in (self.model or {}):
            pass
        lo, hi = dom[0], dom[-1]
        cs = [_mk_bool("le", (_mk_num(lo, ((a, -1),), True),)),
              _mk_bool("le", (_mk_num(-hi, ((a, 1),), True),))]
        if len(dom) != hi - lo + 1:
            cs.append(bor(*[eq(v, d) for d in dom]))
        for c in cs:
            self._push(c)
        if len(dom) == 1:
            return np.int64(dom[0])
        return v

    def var_bool(self, name):
        b = bvar(name)
        self.vars[name] = (b, "bool", None)
        return b

    def assume(self, b):
        if type(b) is not SBool:
            if not b:
                raise PathInfeasible()
            return
        k = self.known(b)
        if k is True:
            return
        if k is False:
            raise PathInfeasible()
        self.flush()
        if self.pos < len(self.prefix):
            self._assume_lit(b, True)
            return
        v = self.ev(b)
        if v is not True:
            r = self._check(b)
            if r == "unsat":
                raise PathInfeasible()
            if r == "unknown":
                raise PathAbort("solver unknown on an assumption")
            self._setmodel(self._model())
        self._assume_lit(b, True)

    def require(self, label, b, detail=None):
        """queue an assertion; decided at path end (or by flush)"""
        if type(b) is SBool:
            k = self.known(b)
            if k is not None:
                b = k
        self.stats.assertions += 1
        if type(b) is not SBool:
            if not b:
                # violated on every input of this path
                self.pending.append((label, FALSE, detail))
            else:
                self.stats.assert_trivial += 1
            return
        self.pending.append((label, b, detail))

    def flush(self):
        """decide the queued assertions; record candidates"""
        if not self.pending:
            return
        todo = self.pending
        self.pending = []
        falses = [x for x in todo if type(x[1]) is not SBool]
        syms = [x for x in todo if type(x[1]) is SBool]
        if falses:
            m = self.nice_model()
            self.candidates.append(Candidate("assert", falses[0][0], m, falses[0][2]))
            return
        if not syms:
            return
        bad = bor(*[bnot(x[1]) for x in syms])
        if type(bad) is not SBool:
            if not bad:
                return
        self.stats.assert_queries += 1
        r = self._check(bad)
        if r == "unsat":
            return
        if r == "unknown":
            # one by one
            for lab, b, det in syms:
                self.stats.assert_queries += 1
                r = self._check(bnot(b))
                if r == "sat":
                    self._cand(syms, bnot(b))
                    return
                if r == "unknown":
                    self.note_incomplete(f"solver unknown on assertion {lab}")
            return
        self._cand(syms, bad)

    def _cand(self, syms, bad):
        m0 = self._model()
        m = self.nice_model(bad) or m0
        label, det = None, None
        for lab, b, d in syms:
            try:
                if not ev_bool(b, m, {}):
                    label, det = lab, d
                    break
            except Inexact:
                label = label or lab
        self.candidates.append(Candidate("assert", label or "?", m, det))
        if m is not m0:
            self.candidates[-1].alt = m0

    QUANTA = (60, 15, 1, Fraction(1, 4), Fraction(1, 1024), Fraction(1, 2 ** 22),
              Fraction(1, 2 ** 32))

    def nice_model(self, extra=None):
        """a model whose reals are short dyadic numbers where possible (so that
        they are exact as floats): pins one variable after the other"""
        self._sync()
        s = self.solver
        base = s.num_scopes()
        s.push()
        try:
            if extra is not None:
                s.add(z_bool(extra))
            s.add(self._sides() if extra is None else self._sides(extra))
            s.set("timeout", 3000)
            if s.check() != z3.sat:
                return None
            m = self.extract(s.model())
            t0 = time.time()
            s.set("timeout", 300)
            for name, (v, kind, dom) in self.vars.items():
                if kind != "real":
                    continue
                if time.time() - t0 > 2:
                    break
                x = Fraction(m[name])
                zv = z_num(v, False)
                for q in self.QUANTA:
                    done = False
                    r = round(x / q) * q
                    for c in ((r, 0) if q == 60 else (r, r + q, r - q)):
                        s.push()
                        s.add(zv == z3.RealVal(str(c)))
                        if s.check() == z3.sat:
                            m = self.extract(s.model())
                            done = True
                            break
                        s.pop()
                    if done:
                        break
            return m
        finally:
            s.pop(s.num_scopes() - base)
            s.set("timeout", self.timeout_ms)

    def note_incomplete(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    def tick(self):
        self.ticks += 1
        if self.ticks > self.tick_limit:
            raise TickLimit()
        if self.deadline is not None and not (self.ticks & 1023) and \
                time.time() > self.deadline:
            raise DeadlineHit()

