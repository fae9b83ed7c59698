"""numpy look-alike whose arrays may hold symbolic values.

SArray is an ndarray subclass over dtype=object; every element is a numpy
scalar (np.float64/np.int64/np.bool_), an SNum, an SBool or (kind 'O') any
python object.  `kind` mirrors the dtype numpy would have used, so that stores
are cast exactly as numpy casts them.  Functions that are not listed here run
numpy's own implementation on the object array (comparisons inside then fork).
"""
import builtins
import math as _math
import operator
import numpy as _np
from . import engine as E
from .engine import SNum, SBool, ite, PathAbort

_nd = _np.ndarray
_pyint, _pyfloat, _pybool = int, float, bool

KIND_DTYPE = {"f": _np.dtype(float), "i": _np.dtype(int), "b": _np.dtype(bool),
              "O": _np.dtype(object)}


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _pyint.__instancecheck__(x) if False else isinstance(x, _pyint) or \
            (type(x) is SNum and x.isint and False)

    def __call__(cls, *a, **k):
        if a and type(a[0]) is SNum:
            return E.trunc(a[0])
        if a and type(a[0]) is SBool:
            return E.b2n(a[0])
        if a and isinstance(a[0], SArray):
            return ShimInt(a[0].item())
        return _pyint(*a, **k)

    def __eq__(cls, o):
        return o is _pyint or o is cls

    def __hash__(cls):
        return hash(_pyint)

    def __or__(cls, o):
        return _pyint | o


class ShimInt(metaclass=_IntMeta):
    from_bytes = _pyint.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _pyfloat) or (type(x) is SNum and not x.isint)

    def __call__(cls, *a, **k):
        if a and type(a[0]) is SNum:
            return E.toreal(a[0])
        if a and type(a[0]) is SBool:
            return E.toreal(E.b2n(a[0]))
        if a and isinstance(a[0], SArray):
            return ShimFloat(a[0].item())
        return _pyfloat(*a, **k)

    def __eq__(cls, o):
        return o is _pyfloat or o is cls

    def __hash__(cls):
        return hash(_pyfloat)

    def __or__(cls, o):
        return _pyfloat | o


class ShimFloat(metaclass=_FloatMeta):
    fromhex = _pyfloat.fromhex


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _pybool)

    def __call__(cls, *a, **k):
        if a and type(a[0]) is SBool:
            return a[0]
        if a and type(a[0]) is SNum:
            return E.bnot(E.eq(a[0], 0))
        return _pybool(*a, **k)

    def __eq__(cls, o):
        return o is _pybool or o is cls

    def __hash__(cls):
        return hash(_pybool)


class ShimBool(metaclass=_BoolMeta):
    pass


def kind_of_dtype(d):
    if d is None:
        return None
    if d is ShimInt or d is _pyint:
        return "i"
    if d is ShimFloat or d is _pyfloat:
        return "f"
    if d is ShimBool or d is _pybool:
        return "b"
    if d is object:
        return "O"
    try:
        d = _np.dtype(d)
    except TypeError:
        return "O"
    if d.kind in "iu":
        return NK("i", d) if d.itemsize < 8 else "i"
    if d.kind == "f":
        return NK("f", d) if d.itemsize < 8 else "f"
    if d.kind == "b":
        return "b"
    return "O"


def base_kind(d):
    """kind of native arrays and of record fields, whose width is not modelled"""
    k = kind_of_dtype(d)
    return k.base if type(k) is NK else k


class NK(str):
    """kind of an array narrower than 64 bit: compares like its base kind"""
    _made = {}

    def __new__(cls, base, d):
        k = cls._made.get(d)
        if k is None:
            k = cls._made[d] = str.__new__(cls, base)
            k.np = d
            k.base = base
        return k

    def __reduce__(self):
        return NK, (self.base, self.np)


def cast_narrow(x, kind):
    d = kind.np
    if kind.base == "f":
        v = cast(x, "f")
        if type(v) is SNum:
            E.single_precision()
            return v
        return _np.float64(d.type(v))
    if isinstance(x, _pyint) and not isinstance(x, _pybool):
        return _np.int64(d.type(x))          # (OverflowError as numpy)
    v = cast(x, "i")
    ii = _np.iinfo(d)
    if type(v) is SNum:
        if bool(E.band(e_le(ii.min, v), e_le(v, ii.max))):
            return v
        return (v - ii.min) % (ii.max - ii.min + 1) + ii.min
    return _np.int64(_np.int64(v).astype(d))


def cast(x, kind):
    """cast one element to the array kind"""
    if type(kind) is NK:
        return cast_narrow(x, kind)
    t = type(x)
    if kind == "f":
        if t is _np.float64:
            return x
        if t is SNum:
            return E.toreal(x)
        if t is SBool:
            return E.toreal(E.b2n(x))
        if x is None:
            return _np.float64(_np.nan)
        return _np.float64(x)
    if kind == "i":
        if t is _np.int64:
            return x
        if t is SNum:
            return E.trunc(x)
        if t is SBool:
            return E.b2n(x)
        if isinstance(x, (_pyfloat, _np.floating)):
            if x != x:
                raise ValueError("cannot convert float NaN to integer")
            return _np.int64(_pyint(x))
        return _np.int64(x)
    if kind == "b":
        if t is SBool or t is _np.bool_:
            return x
        if t is SNum:
            return E.bnot(E.eq(x, 0))
        return _np.bool_(x)
    return x


def kind_of(x):
    t = type(x)
    if t is SNum:
        return "i" if x.isint else "f"
    if t is SBool:
        return "b"
    if isinstance(x, SArray):
        return x.kind
    if isinstance(x, (_pybool, _np.bool_)):
        return "b"
    if isinstance(x, (_pyint, _np.integer)):
        return "i"
    if isinstance(x, (_pyfloat, _np.floating)):
        return "f"
    if isinstance(x, _nd):
        return base_kind(x.dtype)
    return "O"


_ORD = {"b": 0, "i": 1, "f": 2, "O": 3}


def join(*ks):
    k = max(ks, key=_ORD.__getitem__)
    if type(k) is NK or any(type(j) is NK for j in ks):
        top = [j for j in ks if j == k]
        if any(type(j) is not NK for j in top):
            return k.base if type(k) is NK else k
        if k == "f" and any(j == "i" and (type(j) is not NK or j.np.itemsize > 2) for j in ks):
            return "f"
        return kind_of_dtype(_np.result_type(*[j.np for j in top]))
    return k


def raw(x):
    """plain object ndarray (shares memory for SArray)"""
    if isinstance(x, SArray):
        return x.view(_nd)
    if type(x) is SNum or type(x) is SBool:
        o = _np.empty((), object)
        o[()] = x
        return o
    if isinstance(x, _nd):
        if _nd.dtype.__get__(x) == object:
            return x
        return objarr(x)
    if isinstance(x, (list, tuple)):
        return raw(array(x))
    o = _np.empty((), object)
    o[()] = x
    return o


def objarr(a):
    o = _np.empty(a.shape, object)
    if a.ndim == 0:
        o[()] = a[()]
    else:
        f = o.reshape(-1)
        for i, v in enumerate(a.ravel()):
            f[i] = v
    return o


def wrap(r, kind=None):
    """real ndarray / object ndarray -> SArray"""
    if isinstance(r, SArray):
        return r
    if isinstance(r, _nd):
        d = _nd.dtype.__get__(r)
        if d.names:
            return SRec.from_struct(r)
        if d != object:
            k = base_kind(d)
            if k == "O":
                return r
            o = objarr(r).view(SArray)
            o.kind = k
            return o
        if kind is None:
            kind = "b"
            if r.size == 0:
                kind = "f"
            for v in r.ravel():
                kind = join(kind, kind_of(v))
        o = r.view(SArray)
        o.kind = kind
        return o
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) if isinstance(x, _nd) else x for x in r]
    return r


def mk(shape, fillv, kind):
    o = _np.empty(shape, object)
    o.fill(fillv)
    o = o.view(SArray)
    o.kind = kind
    return o


def from_list(lst, kind):
    o = _np.empty(len(lst), object)
    for i, v in enumerate(lst):
        o[i] = cast(v, kind)
    o = o.view(SArray)
    o.kind = kind
    return o


def cast_arr(r, kind):
    """object ndarray -> new SArray with every element cast"""
    o = _np.empty(r.shape, object)
    if r.ndim == 0:
        o[()] = cast(r[()], kind)
    else:
        f = o.reshape(-1)
        for i, v in enumerate(r.ravel()):
            f[i] = cast(v, kind)
    o = o.view(SArray)
    o.kind = kind
    return o


def laid(o, src, order):
    """o with the memory layout numpy gives a copy of src made with this order"""
    if o.ndim < 2 or order == "C":
        return o
    f = order == "F" or (isinstance(src, _nd) and src.flags.f_contiguous
                         and not src.flags.c_contiguous)
    if not f:
        return o
    k = o.kind
    o = _np.asfortranarray(raw(o)).view(SArray)
    o.kind = k
    return o


def has_sym(x):
    t = type(x)
    if t is SNum or t is SBool:
        return True
    if isinstance(x, SArray):
        return True
    if t is list or t is tuple:
        return any(has_sym(y) for y in x)
    if t is dict:
        return any(has_sym(y) for y in x.values())
    return False


# ------------------------------------------------------------ element ops
def _el(x):
    return E.b2n(x) if type(x) is SBool else x


def _sym(*xs):
    for x in xs:
        t = type(x)
        if t is SNum or t is SBool:
            return True
    return False


def e_add(a, b):
    if _sym(a, b):
        if kind_of(a) == "b" and kind_of(b) == "b":
            return E.bor(a, b)
        return E.add(_el(a), _el(b))
    return a + b


def e_sub(a, b):
    if _sym(a, b):
        return E.sub(_el(a), _el(b))
    return a - b


def e_mul(a, b):
    if _sym(a, b):
        if kind_of(a) == "b" and kind_of(b) == "b":
            return E.band(a, b)
        return E.mul(_el(a), _el(b))
    return a * b


def e_div(a, b):
    if _sym(a, b):
        return E.div(_el(a), _el(b))
    return E._fdiv(a, b)


def e_floordiv(a, b):
    if _sym(a, b):
        return E.floordiv(_el(a), _el(b))
    return a // b


def e_mod(a, b):
    if _sym(a, b):
        return _el(a) % _el(b)
    return a % b


def e_pow(a, b):
    if _sym(a):
        return _el(a) ** b
    if _sym(b):
        raise PathAbort("symbolic exponent")
    with _np.errstate(all="ignore"):
        return _np.power(a, b)


def e_neg(a):
    return E.scale(_el(a), -1) if _sym(a) else -a


def e_abs(a):
    return E.sabs(_el(a)) if _sym(a) else abs(a)


def e_sqrt(a):
    if _sym(a):
        return E.sqrt(_el(a))
    with _np.errstate(all="ignore"):
        return _np.sqrt(_np.float64(a))


def e_square(a):
    return e_mul(a, a)


def e_lt(a, b):
    return E.lt(_el(a), _el(b)) if _sym(a, b) else a < b


def e_le(a, b):
    return E.le(_el(a), _el(b)) if _sym(a, b) else a <= b


def e_gt(a, b):
    return E.lt(_el(b), _el(a)) if _sym(a, b) else a > b


def e_ge(a, b):
    return E.le(_el(b), _el(a)) if _sym(a, b) else a >= b


def e_eq(a, b):
    if _sym(a, b):
        if kind_of(a) == "b" and kind_of(b) == "b":
            return E.biff(E.liftb(a), E.liftb(b))
        if kind_of(a) == "O" or kind_of(b) == "O":
            return _np.False_
        return E.eq(_el(a), _el(b))
    return _np.bool_(a == b)


def e_ne(a, b):
    return E.bnot(e_eq(a, b))


def _bits(f, a, b):
    """bitwise operation on integers: made concrete (forks)"""
    v = [x if not _sym(x) else E.b2n(x) if type(x) is SBool else x for x in (a, b)]
    if any(kind_of(x) == "f" for x in v):
        raise TypeError("ufunc 'bitwise' not supported for the input types")
    return f(*[_np.int64(E.ENG.concretize(x) if _sym(x) else x) for x in v])


def e_and(a, b):
    if _sym(a, b):
        if kind_of(a) != "b" or kind_of(b) != "b":
            return _bits(lambda x, y: x & y, a, b)
        return E.band(E.liftb(a), E.liftb(b))
    return a & b


def e_or(a, b):
    if _sym(a, b):
        if kind_of(a) != "b" or kind_of(b) != "b":
            return _bits(lambda x, y: x | y, a, b)
        return E.bor(E.liftb(a), E.liftb(b))
    return a | b


def e_xor(a, b):
    if _sym(a, b):
        if kind_of(a) != "b" or kind_of(b) != "b":
            return _bits(lambda x, y: x ^ y, a, b)
        return E.bnot(E.biff(E.liftb(a), E.liftb(b)))
    return a ^ b


def e_inv(a):
    if _sym(a):
        if type(a) is SNum:
            return E.sub(-1, a)
        return E.bnot(a)
    return ~a


def e_land(a, b):
    return E.band(E.liftb(a), E.liftb(b))


def e_lor(a, b):
    return E.bor(E.liftb(a), E.liftb(b))


def e_lnot(a):
    return E.bnot(E.liftb(a))


def e_lxor(a, b):
    return E.bnot(E.biff(E.liftb(a), E.liftb(b)))


def e_isnan(a):
    if _sym(a):
        return _np.False_
    if a is None:
        raise TypeError("isnan of None")
    return _np.isnan(a)


def e_isfinite(a):
    return _np.True_ if _sym(a) else _np.isfinite(a)


def e_isinf(a):
    return _np.False_ if _sym(a) else _np.isinf(a)


def e_max(a, b):
    if _sym(a, b):
        return E.nmax(_el(a), _el(b))
    return _np.maximum(a, b)


def e_min(a, b):
    if _sym(a, b):
        return E.nmin(_el(a), _el(b))
    return _np.minimum(a, b)


def e_fmax(a, b):
    if a != a if not _sym(a) else False:
        return b
    if b != b if not _sym(b) else False:
        return a
    return e_max(a, b)


def e_fmin(a, b):
    if a != a if not _sym(a) else False:
        return b
    if b != b if not _sym(b) else False:
        return a
    return e_min(a, b)


def e_sign(a):
    if _sym(a):
        a = _el(a)
        return ite(E.lt(a, 0), -1, ite(E.lt(0, a), 1, 0))
    return _np.sign(a)


def e_floor(a):
    return E.toreal(E.floor(_el(a))) if _sym(a) else _np.floor(a)


def e_ceil(a):
    return E.toreal(-E.floor(-_el(a))) if _sym(a) else _np.ceil(a)


def e_trunc(a):
    return E.toreal(E.trunc(_el(a))) if _sym(a) else _np.trunc(a)


def _uf1(name, f):
    def g(a):
        return E.uf(name, _el(a)) if _sym(a) else _np.float64(f(a))
    return g


def e_arctan2(a, b):
    if _sym(a, b):
        return E.uf("arctan2", _el(a), _el(b))
    return _np.arctan2(a, b)


def e_hypot(a, b):
    if _sym(a, b):
        return e_sqrt(e_add(e_mul(a, a), e_mul(b, b)))
    return _np.hypot(a, b)


def e_rad(a):
    return e_mul(a, _np.pi / 180)


def e_deg(a):
    return e_mul(a, 180 / _np.pi)


def k_join(*ks):
    return join(*ks)


def k_num(*ks):
    k = join(*ks)
    return k


def k_f(*ks):
    return "f"


def k_b(*ks):
    return "b"


UF = {}


def reg(name, fn, nin, kf, at=None):
    UF[name] = (fn, nin, kf, _np.frompyfunc(fn, nin, 1))


for _n, _f, _k in (
        ("add", e_add, k_num), ("subtract", e_sub, k_num), ("multiply", e_mul, k_num),
        ("divide", e_div, k_f), ("true_divide", e_div, k_f),
        ("floor_divide", e_floordiv, k_num), ("mod", e_mod, k_num),
        ("remainder", e_mod, k_num), ("power", e_pow, k_num),
        ("float_power", e_pow, k_f),
        ("less", e_lt, k_b), ("less_equal", e_le, k_b), ("greater", e_gt, k_b),
        ("greater_equal", e_ge, k_b), ("equal", e_eq, k_b), ("not_equal", e_ne, k_b),
        ("bitwise_and", e_and, k_join), ("bitwise_or", e_or, k_join),
        ("bitwise_xor", e_xor, k_join),
        ("logical_and", e_land, k_b), ("logical_or", e_lor, k_b),
        ("logical_xor", e_lxor, k_b),
        ("maximum", e_max, k_join), ("minimum", e_min, k_join),
        ("fmax", e_fmax, k_join), ("fmin", e_fmin, k_join),
        ("arctan2", e_arctan2, k_f), ("hypot", e_hypot, k_f)):
    reg(_n, _f, 2, _k)
for _n, _f, _k in (
        ("negative", e_neg, k_num), ("absolute", e_abs, k_num), ("abs", e_abs, k_num),
        ("fabs", e_abs, k_f), ("positive", lambda a: a, k_num),
        ("sqrt", e_sqrt, k_f), ("square", e_square, k_num),
        ("invert", e_inv, k_join), ("bitwise_not", e_inv, k_join),
        ("logical_not", e_lnot, k_b), ("isnan", e_isnan, k_b),
        ("isfinite", e_isfinite, k_b), ("isinf", e_isinf, k_b),
        ("sign", e_sign, k_num), ("floor", e_floor, k_f), ("ceil", e_ceil, k_f),
        ("trunc", e_trunc, k_f),
        ("cos", _uf1("cos", _np.cos), k_f), ("sin", _uf1("sin", _np.sin), k_f),
        ("tan", _uf1("tan", _np.tan), k_f), ("arctan", _uf1("arctan", _np.arctan), k_f),
        ("exp", _uf1("exp", _np.exp), k_f),
        ("radians", e_rad, k_f), ("deg2rad", e_rad, k_f),
        ("degrees", e_deg, k_f), ("rad2deg", e_deg, k_f)):
    reg(_n, _f, 1, _k)


def call_uf(name, args, out=None, where=True, dtype=None, **kw):
    fn, nin, kf, pf = UF[name]
    ks = [_opkind(a) for a in args]
    if any(type(k) is NK for k in ks):
        # python scalars do not widen narrow arrays
        m = max(_ORD[k] for k in ks if type(k) is NK)
        ks = [k for k, a in zip(ks, args)
              if not (type(a) in (_pyint, _pyfloat, _pybool) and _ORD[k] <= m)] \
            if kf is k_join else ks
    rs = [raw(a) for a in args]
    r = pf(*rs)
    kind = kf(*ks)
    if dtype is not None:
        kind = kind_of_dtype(dtype)
    if isinstance(r, _nd) and r.ndim > 0:
        w = where
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            if w is not True:
                out[wrap(_np.asarray(w)) if not isinstance(w, SArray) else w] = \
                    cast_arr(r, kind)[w]
            else:
                out[...] = r
            return out
        r = cast_arr(r, kind)
        return r
    if isinstance(r, _nd):
        r = r[()]
    if kind == "O":
        return r
    return cast(r, kind)


def _opkind(a):
    if isinstance(a, (list, tuple)):
        return array(a).kind
    return kind_of(a)


# ------------------------------------------------------------ the array type
def _binop(name, swap=False):
    def f(self, o):
        if isinstance(o, (str, dict, set)) or o is None:
            if name == "equal":
                return mk(self.shape, _np.False_, "b")
            if name == "not_equal":
                return mk(self.shape, _np.True_, "b")
            return NotImplemented
        return call_uf(name, (o, self) if swap else (self, o))
    return f


def _iop(name):
    def f(self, o):
        r = call_uf(name, (self, o))
        if _ORD[kind_of(r)] > _ORD[self.kind] and self.kind in "ib" and \
                kind_of(r) == "f":
            raise TypeError("Cannot cast ufunc output from float to int")
        self[...] = r
        return self
    return f


class SArray(_nd):
    __array_priority__ = 500

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", "f") if obj is not None else "f"

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        if method == "__call__":
            if name in UF:
                return call_uf(name, inputs, out=out, **kw)
        elif method == "at" and name in UF:
            return UFuncShim(name).at(*inputs)
        elif method == "reduce" and name in UF:
            return UFuncShim(name).reduce(*inputs, **kw)
        ins = [raw(x) if isinstance(x, (SArray, SNum, SBool)) else x for x in inputs]
        r = getattr(ufunc, method)(*ins, **kw)
        return wrap(r)

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        return generic(func, args, kwargs)

    @property
    def dtype(self):
        return self.kind.np if type(self.kind) is NK else KIND_DTYPE[self.kind]

    @property
    def itemsize(self):
        return self.dtype.itemsize

    for _o, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"),
                   ("truediv", "divide"), ("floordiv", "floor_divide"),
                   ("mod", "mod"), ("pow", "power"), ("and", "bitwise_and"),
                   ("or", "bitwise_or"), ("xor", "bitwise_xor")):
        locals()[f"__{_o}__"] = _binop(_u)
        locals()[f"__r{_o}__"] = _binop(_u, True)
        locals()[f"__i{_o}__"] = _iop(_u)
    for _o, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"),
                   ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")):
        locals()[f"__{_o}__"] = _binop(_u)
    del _o, _u
    __hash__ = None

    def __neg__(self):
        return call_uf("negative", (self,))

    def __abs__(self):
        return call_uf("absolute", (self,))

    def __invert__(self):
        return call_uf("invert", (self,))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous. Use a.any() or a.all()")
        return bool(E.liftb(self.item()))

    def __int__(self):
        return ShimInt(self.item())

    def __index__(self):
        if self.ndim == 0 or self.size == 1:
            x = self.item()
            return x.__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __contains__(self, x):
        return bool((self == x).any())

    def __deepcopy__(self, memo):
        return self.copy("K")

    def __copy__(self):
        return self.copy("K")

    def __reduce__(self):
        raise PathAbort("pickling a symbolic array")

    # ---- indexing
    def __getitem__(self, key):
        k, sym = norm_key(key, self)
        r = raw(self)
        if not sym:
            x = r[k]
            if type(x) is _nd:
                x = x.view(SArray)
                x.kind = self.kind
            return x
        return sym_get(self, r, k)

    def __setitem__(self, key, val):
        if type(key) is SArray and key.kind == "b" and masked_set(self, key, val):
            return
        k, sym = norm_key(key, self)
        r = raw(self)
        if sym:
            return sym_set(self, r, k, val)
        kind = self.kind
        if isinstance(val, (list, tuple)):
            val = array(val)
        if isinstance(val, _nd):
            r[k] = raw(cast_arr(raw(val), kind)) if kind != "O" else raw(val)
        elif kind == "O":
            r[k] = val
        else:
            t = r[k]
            v = cast(val, kind)
            if isinstance(t, _nd):
                if t.base is not None and not _is_fancy(k):
                    t.fill(v)
                else:
                    o = _np.empty(t.shape, object)
                    o.fill(v)
                    r[k] = o
            else:
                r[k] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    # ---- methods
    def item(self, *a):
        r = raw(self)
        if a:
            return r[tuple(a)] if len(a) > 1 else r.ravel()[a[0]]
        if r.size != 1:
            raise ValueError("can only convert an array of size 1")
        return r.ravel()[0]

    def tolist(self):
        def conv(x):
            return x.item() if isinstance(x, _np.generic) else x

        def rec(a):
            if a.ndim == 0:
                return conv(a[()])
            if a.ndim == 1:
                return [conv(v) for v in a]
            return [rec(v) for v in a]
        return rec(raw(self))

    def astype(self, dtype, order="K", **k):
        return laid(cast_arr(raw(self), kind_of_dtype(dtype)), self, order)

    def copy(self, order="C"):
        r = raw(self).copy(order).view(SArray)
        r.kind = self.kind
        return r

    def flatten(self, order="C"):
        r = raw(self).flatten(order).view(SArray)
        r.kind = self.kind
        return r

    def fill(self, v):
        raw(self).fill(cast(v, self.kind))

    def sum(self, axis=None, dtype=None, **k):
        return f_sum(self, axis, dtype=dtype, **k)

    def prod(self, axis=None, dtype=None, **k):
        _kw(k)
        a = self if dtype is None else self.astype(dtype)
        return reduce_(a, axis, lambda xs: _fold(e_mul, xs, _np.int64(1)))

    def mean(self, axis=None, dtype=None, **k):
        return f_mean(self, axis, dtype=dtype, **k)

    def var(self, axis=None, **k):
        return f_var(self, axis, **k)

    def std(self, axis=None, **k):
        return f_std(self, axis, **k)

    def min(self, axis=None, **k):
        return f_min(self, axis, **k)

    def max(self, axis=None, **k):
        return f_max(self, axis, **k)

    def any(self, axis=None, **k):
        return f_any(self, axis, **k)

    def all(self, axis=None, **k):
        return f_all(self, axis, **k)

    def argmin(self, axis=None, **k):
        return f_argmin(self, axis, **k)

    def argmax(self, axis=None, **k):
        return f_argmax(self, axis, **k)

    def ptp(self, axis=None, **k):
        return f_ptp(self, axis, **k)

    def choose(self, choices, **k):
        return f_choose(self, choices, **k)

    def nonzero(self):
        return f_nonzero(self)

    def cumsum(self, axis=None, dtype=None, **k):
        return f_cumsum(self, axis, dtype=dtype, **k)

    def argsort(self, axis=-1, kind=None, **k):
        return f_argsort(self, axis, kind, **k)

    def sort(self, axis=-1, **k):
        self[...] = f_sort(self, axis, **k)

    def round(self, *a, **k):
        if any(_sym(v) for v in raw(self).ravel()):
            n = a[0] if a else k.get("decimals", 0)
            o = _np.empty(self.shape, object)
            for ix in _np.ndindex(*o.shape):
                o[ix] = E.rounded(_el(raw(self)[ix]), n)
            return wrap(o, self.kind)
        return wrap(_np.round(raw(self).astype(_pyfloat), *a, **k))

    def clip(self, lo=None, hi=None, **k):
        return f_clip(self, lo, hi, **k)

    def take(self, idx, axis=None, **k):
        return f_take(self, idx, axis, **k)

    def dot(self, o):
        return f_dot(self, o)

    def tobytes(self, *a):
        raise PathAbort("tobytes")

    def view(self, *a, **k):
        if a and a[0] in (_nd,):
            return _nd.view(self, *a, **k)
        if not a and not k:
            r = _nd.view(self)
            return r
        if a and a[0] is SArray:
            return _nd.view(self, SArray)
        raise PathAbort("view with another dtype")

    def __repr__(self):
        return f"SArray({raw(self).tolist()!r}, kind={self.kind})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _is_fancy(k):
    if isinstance(k, tuple):
        return any(isinstance(x, (_nd, list)) for x in k)
    return isinstance(k, (_nd, list))


def _norm_slice(s):
    def c(v):
        if v is None:
            return None
        return v.__index__()
    if s.start is None and s.stop is None and s.step is None:
        return s
    return slice(c(s.start), c(s.stop), c(s.step))


def norm_key1(k):
    """-> (key usable by numpy or symbolic, is_symbolic)"""
    t = type(k)
    if t is SNum:
        if not k.t:
            raise IndexError("float index")
        if not k.isint:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                             "numpy.newaxis (`None`) and integer or boolean "
                             "arrays are valid indices")
        d = E.domain(k)
        if d is not None:
            for v in d:
                b = E.eq(k, v)
                if b is E.TRUE or (type(b) is SBool and E.ENG.known(b)):
                    return v, False
        if E.ENG.concrete_index or d is None or len(d) > 64:
            return E.ENG.concretize(k), False
        return k, True
    if t is SBool:
        return bool(k), False
    if t is slice:
        return _norm_slice(k), False
    if t is list:
        if not k:
            return _np.array([], dtype=_pyint), False
        k = array(k)
        t = SArray
    if t is SArray:
        if k.kind == "b":
            r = raw(k)
            o = _np.empty(r.shape, _pybool)
            f = o.reshape(-1) if o.ndim else None
            if f is None:
                return bool(r[()]), False
            for i, v in enumerate(r.ravel()):
                f[i] = bool(v)
            return o, False
        if k.kind == "f":
            if k.size == 0:
                return _np.array([], dtype=_pyint), False
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        r = raw(k)
        sym = False
        o = _np.empty(r.shape, object)
        f = o.reshape(-1) if o.ndim else o
        if o.ndim == 0:
            return norm_key1(r[()])
        for i, v in enumerate(r.ravel()):
            if type(v) is SNum:
                v, s = norm_key1(v)
                sym = sym or s
            f[i] = v
        if not sym:
            return o.astype(_pyint), False
        return o, True
    return k, False


def norm_key(key, arr):
    t = type(key)
    if t is _pyint or t is _np.int64:
        return key, False
    if t is tuple:
        out = []
        sym = False
        for k in key:
            k, s = norm_key1(k)
            sym = sym or s
            out.append(k)
        return tuple(out), sym
    return norm_key1(key)


def _bounds(k, n):
    """symbolic index in range?  (forks; IndexError like numpy otherwise)"""
    d = E.domain(k)
    if d[0] < -n or d[-1] >= n:
        ok = E.band(E.le(-n, k), E.lt(k, n))
        if not bool(ok):
            raise IndexError(f"index out of bounds for axis with size {n}")
    return [v for v in d if -n <= v < n]


def _merge_vals(k, vals):
    """vals: list of (intvalue, element) -> merged element"""
    # group equal results
    groups = []
    for v, x in vals:
        if type(x) is SBool or _np.isscalar(x) or type(x) is SNum:
            pass
        b = E.eq(k, v)
        if type(b) is not SBool:
            if b:
                return x
            continue
        kn = E.ENG.known(b)
        if kn is True:
            return x
        if kn is False:
            continue
        groups.append((b, x))
    if not groups:
        raise E.PathInfeasible()
    # merge identical values
    byid = {}
    for b, x in groups:
        key = id(x) if type(x) in (SNum, SBool) else (type(x), x if x == x else "nan") \
            if isinstance(x, (_np.generic, _pyint, _pyfloat)) else ("o", id(x))
        if key in byid:
            byid[key] = (E.bor(byid[key][0], b), x)
        else:
            byid[key] = (b, x)
    items = list(byid.values())
    res = items[-1][1]
    for b, x in reversed(items[:-1]):
        res = ite(b, x, res)
    return res


def sym_get(arr, r, k):
    if type(k) is SNum:
        n = r.shape[0] if r.ndim else 0
        if r.ndim == 0:
            raise IndexError("too many indices for array")
        dom = _bounds(k, n)
        if r.ndim == 1:
            if arr.kind == "O":
                return r[E.ENG.concretize(k)]
            return _merge_vals(k, [(v, r[v]) for v in dom])
        o = _np.empty(r.shape[1:], object)
        f = o.reshape(-1)
        rows = [(v, r[v].ravel()) for v in dom]
        for i in range(o.size):
            f[i] = _merge_vals(k, [(v, row[i]) for v, row in rows])
        o = o.view(SArray)
        o.kind = arr.kind
        return o
    if isinstance(k, _nd):       # integer array with symbolic entries
        o = _np.empty(k.shape + r.shape[1:], object)
        for ix in _np.ndindex(*k.shape):
            o[ix] = raw_(sym_get(arr, r, k[ix])) if type(k[ix]) is SNum else r[k[ix]]
        o = o.view(SArray)
        o.kind = arr.kind
        return o
    # tuple
    if any(isinstance(x, _nd) for x in k):
        bs = []
        for x in k:
            if isinstance(x, slice) or x is None or x is Ellipsis:
                k2 = tuple(_conc(y) for y in k)
                y = r[k2]
                return wrap(y, arr.kind) if isinstance(y, _nd) else y
            bs.append(raw(x) if not isinstance(x, _nd) else x.astype(object))
        bs = _np.broadcast_arrays(*bs)
        o = _np.empty(bs[0].shape, object)
        for ix in _np.ndindex(*o.shape):
            o[ix] = sym_get_t(arr, r, tuple(b[ix] for b in bs))
        o = o.view(SArray)
        o.kind = arr.kind
        return o
    return sym_get_t(arr, r, k)


def raw_(x):
    return raw(x) if isinstance(x, SArray) else x


def _conc(y):
    if type(y) is SNum:
        return E.ENG.concretize(y)
    if isinstance(y, _nd) and _nd.dtype.__get__(y) == object:
        return _np.array([_pyint(E.ENG.concretize(v)) for v in y.ravel()],
                         dtype=_pyint).reshape(y.shape)
    return y


def sym_get_t(arr, r, k):
    pos = [i for i, x in enumerate(k) if type(x) is SNum]
    if not pos:
        x = r[k]
        return wrap(x, arr.kind) if isinstance(x, _nd) else x
    if any(x is Ellipsis or x is None for x in k):
        x = r[tuple(_conc(y) for y in k)]
        return wrap(x, arr.kind) if isinstance(x, _nd) else x
    p = pos[0]
    dom = _bounds(k[p], r.shape[p])
    subs = []
    for v in dom:
        kk = k[:p] + (v,) + k[p + 1:]
        subs.append((v, sym_get_t(arr, r, kk)))
    if isinstance(subs[0][1], _nd):
        o = _np.empty(subs[0][1].shape, object)
        f = o.reshape(-1)
        rows = [(v, raw(s).ravel()) for v, s in subs]
        for i in range(o.size):
            f[i] = _merge_vals(k[p], [(v, row[i]) for v, row in rows])
        o = o.view(SArray)
        o.kind = arr.kind
        return o
    return _merge_vals(k[p], subs)


def masked_set(arr, mask, val):
    """arr[mask] = scalar with a symbolic mask: merged, without a fork"""
    m = raw(mask)
    r = raw(arr)
    if arr.kind == "O" or not m.ndim or m.shape != r.shape[:m.ndim]:
        return False
    if isinstance(val, _nd) and val.ndim == 0:
        val = wrap(val).item()
    if isinstance(val, (_nd, list, tuple)) or not any(_sym(x) for x in m.ravel()):
        return False
    v = cast(val, arr.kind)
    for ix in _np.ndindex(*m.shape):
        c = E.liftb(m[ix])
        if m.ndim == r.ndim:
            r[ix] = ite(c, v, r[ix])
        else:
            row = r[ix]
            for jx in _np.ndindex(*row.shape):
                row[jx] = ite(c, v, row[jx])
    return True


def sym_set(arr, r, k, val):
    kind = arr.kind
    if kind == "O":
        arr[_conc(k) if not isinstance(k, tuple) else tuple(_conc(y) for y in k)] = val
        return
    if type(k) is SNum:
        dom = _bounds(k, r.shape[0])
        n = r.shape[0]
        tgt = {}
        for v in dom:
            tgt.setdefault(v % n, []).append(v)
        if r.ndim == 1:
            if isinstance(val, _nd):
                val = wrap(val).item()
            v_ = cast(val, kind)
            for j, vs in tgt.items():
                c = E.bor(*[E.eq(k, v) for v in vs])
                r[j] = ite(c, v_, r[j])
            return
        val = _np.broadcast_to(raw(val), r.shape[1:])
        for j, vs in tgt.items():
            c = E.bor(*[E.eq(k, v) for v in vs])
            row = r[j]
            for ix in _np.ndindex(*row.shape):
                row[ix] = ite(c, cast(val[ix], kind), row[ix])
        return
    if isinstance(k, _nd):
        vals = _np.broadcast_to(raw(val), k.shape + r.shape[1:])
        for ix in _np.ndindex(*k.shape):
            arr[k[ix]] = wrap(vals[ix], kind) if isinstance(vals[ix], _nd) else vals[ix]
        return
    # tuple
    if any(isinstance(x, _nd) for x in k) or any(
            isinstance(x, slice) or x is None or x is Ellipsis for x in k):
        arr[tuple(_conc(y) for y in k)] = val
        return
    v_ = cast(val, kind)
    doms = []
    for p, x in enumerate(k):
        if type(x) is SNum:
            doms.append(_bounds(x, r.shape[p]))
        else:
            doms.append([x])
    import itertools
    for combo in itertools.product(*doms):
        c = E.band(*[E.eq(x, v) for x, v in zip(k, combo) if type(x) is SNum])
        r[combo] = ite(c, v_, r[combo])


# ------------------------------------------------------------ reductions
def _fold(f, xs, init=None):
    it = iter(xs)
    if init is None:
        try:
            acc = next(it)
        except StopIteration:
            raise ValueError("zero-size array to reduction operation")
    else:
        acc = init
    for x in it:
        acc = f(acc, x)
    return acc


def reduce_(a, axis, f, keepdims=False, kind=None):
    a = asarray(a)
    r = raw(a)
    if axis is None:
        v = f(list(r.ravel()))
        if keepdims:
            o = _np.empty((1,) * r.ndim, object)
            o.fill(v)
            return wrap(o)
        return v
    if isinstance(axis, tuple):
        if len(axis) == r.ndim:
            return reduce_(a, None, f, keepdims)
        raise PathAbort("multi-axis reduction")
    if axis < -r.ndim or axis >= r.ndim:
        raise ValueError(f"axis {axis} is out of bounds")
    m = _np.moveaxis(r, axis, -1)
    o = _np.empty(m.shape[:-1], object)
    for ix in _np.ndindex(*o.shape):
        o[ix] = f(list(m[ix]))
    if keepdims:
        o = _np.expand_dims(o, axis)
    if o.ndim == 0:
        return o[()]
    return wrap(o, kind)


def _notnan(xs):
    return [x for x in xs if _sym(x) or x == x]


def _r_sum(xs):
    s = _np.int64(0)
    isf = False
    for x in xs:
        if kind_of(x) == "f":
            isf = True
        s = e_add(s, _el(x) if _sym(x) else (_np.int64(x) if kind_of(x) == "b" else x))
    if isf or not xs:
        s = cast(s, "f")
    return s


def _r_mean(xs):
    if not xs:
        return _np.float64(_np.nan)
    return e_div(_r_sum(xs), len(xs))


def _r_min(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    if any(_sym(x) for x in xs):
        return E.nmin(*[_el(x) for x in xs])
    return _np.min(_np.array(xs))


def _r_max(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    if any(_sym(x) for x in xs):
        return E.nmax(*[_el(x) for x in xs])
    return _np.max(_np.array(xs))


def _nan_of(f, empty=_np.float64(_np.nan)):
    def g(xs):
        ys = _notnan(xs)
        if not ys:
            if not xs and f in (_r_min, _r_max):
                raise ValueError("zero-size array to reduction operation")
            return empty
        return f(ys)
    return g


def _sorted(xs):
    """sorted copy; a comparator network of min/max keeps it merged when short"""
    xs = list(xs)
    n = len(xs)
    if any(_sym(x) for x in xs) and n <= 4:
        for i in range(n):
            for j in range(n - 1 - i):
                a, b = xs[j], xs[j + 1]
                c = e_le(a, b)
                xs[j], xs[j + 1] = ite(c, a, b), ite(c, b, a)
        return xs
    return sorted(xs)


def _r_median(xs):
    if not xs:
        return _np.float64(_np.nan)
    if any((not _sym(x)) and x != x for x in xs):
        return _np.float64(_np.nan)
    ys = _sorted(xs)
    n = len(ys)
    if n % 2:
        return cast(ys[n // 2], "f")
    return e_div(e_add(ys[n // 2 - 1], ys[n // 2]), 2)


def _kw(k):
    """keywords without influence on the modelled result; others end the path"""
    for n, v in k.items():
        if v is None or v is _np._NoValue or (n == "where" and v is True) or n in (
                "kind", "order", "stable", "subok", "casting", "assume_unique", "like",
                "equal_nan", "mean"):
            continue
        raise PathAbort(f"keyword {n} of a numpy function")


def f_sum(a, axis=None, dtype=None, keepdims=False, initial=None, where=None, **k):
    _kw(k)
    if dtype is not None:
        a = asarray(a).astype(dtype)
    if where is not None and where is not True:
        a = f_where(where, a, 0)
    if not isinstance(a, _nd) and not isinstance(a, (list, tuple)) and hasattr(a, "__iter__"):
        return builtins.sum(a)
    r = reduce_(a, axis, _r_sum, keepdims)
    if initial is not None:
        r = r + initial
    return r


def f_mean(a, axis=None, dtype=None, keepdims=False, where=None, **k):
    _kw(k)
    if where is not None and where is not True:
        return f_sum(a, axis, dtype, keepdims, where=where) / f_sum(
            _np.broadcast_to(raw(asarray(where)), asarray(a).shape), axis, keepdims=keepdims)
    if dtype is not None:
        a = asarray(a).astype(dtype)
    return reduce_(a, axis, _r_mean, keepdims)


def f_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if returned:
        raise PathAbort("average returned")
    if weights is None:
        return f_mean(a, axis, keepdims=keepdims)
    a, w = asarray(a), asarray(weights)
    if w.shape != a.shape:
        if axis is None or isinstance(axis, tuple) or w.ndim != 1:
            raise PathAbort("average weights")
        sh = [1] * a.ndim
        sh[axis] = w.size
        w = w.reshape(sh)
    w = w * ones(a.shape)
    return f_sum(a * w, axis, keepdims=keepdims) / f_sum(w, axis, keepdims=keepdims)


def _extreme(f, op):
    def g(a, axis=None, keepdims=False, initial=None, where=None, **k):
        _kw(k)
        if initial is _np._NoValue:
            initial = None
        if where is None or where is True or where is _np._NoValue:
            ext = [] if initial is None else [initial]
            return reduce_(a, axis, lambda xs: f(xs + ext), keepdims)
        if initial is None:
            raise ValueError("reduction operation does not have an identity, so to use a "
                             "where mask one has to specify 'initial'")
        return reduce_(f_where(where, a, initial), axis, lambda xs: f(xs + [initial]), keepdims)
    return g


f_min = _extreme(_r_min, "min")
f_max = _extreme(_r_max, "max")


def f_ptp(a, axis=None, keepdims=False, **k):
    _kw(k)
    return f_max(a, axis, keepdims) - f_min(a, axis, keepdims)


def f_any(a, axis=None, keepdims=False, where=None, **k):
    _kw(k)
    if where is not None and where is not True:
        a = call_uf("logical_and", (a, where))
    return reduce_(a, axis, lambda xs: E.bor(*[E.liftb(x) for x in xs]), keepdims)


def f_all(a, axis=None, keepdims=False, where=None, **k):
    _kw(k)
    if where is not None and where is not True:
        a = call_uf("logical_or", (a, call_uf("logical_not", (where,))))
    return reduce_(a, axis, lambda xs: E.band(*[E.liftb(x) for x in xs]), keepdims)


def _arg(xs, better):
    """first index attaining the extremum; merged"""
    if not xs:
        raise ValueError("attempt to get argmax of an empty sequence")
    for i, x in enumerate(xs):
        if not _sym(x) and x != x:
            return _np.int64(i)
    if not any(_sym(x) for x in xs):
        best = 0
        for i in range(1, len(xs)):
            if better(xs[i], xs[best]):
                best = i
        return _np.int64(best)
    bi, bv = _np.int64(0), xs[0]
    for i in range(1, len(xs)):
        c = better(xs[i], bv)
        bi, bv = ite(c, _np.int64(i), bi), ite(c, xs[i], bv)
    return bi


def f_argmax(a, axis=None, keepdims=False, **k):
    _kw(k)
    return reduce_(a, axis, lambda xs: _arg(xs, e_gt), keepdims is True, kind="i")


def f_argmin(a, axis=None, keepdims=False, **k):
    _kw(k)
    return reduce_(a, axis, lambda xs: _arg(xs, e_lt), keepdims is True, kind="i")


def _nanarg(xs, better):
    ys = [(i, x) for i, x in enumerate(xs) if _sym(x) or x == x]
    if not ys:
        raise ValueError("All-NaN slice encountered")
    bi, bv = _np.int64(ys[0][0]), ys[0][1]
    for i, x in ys[1:]:
        c = better(x, bv)
        bi, bv = ite(c, _np.int64(i), bi), ite(c, x, bv)
    return bi


def f_nanargmax(a, axis=None, keepdims=False, **k):
    _kw(k)
    return reduce_(a, axis, lambda xs: _nanarg(xs, e_gt), keepdims is True, kind="i")


def f_nanargmin(a, axis=None, keepdims=False, **k):
    _kw(k)
    return reduce_(a, axis, lambda xs: _nanarg(xs, e_lt), keepdims is True, kind="i")


def f_nonzero(a):
    r = raw(asarray(a))
    m = _np.zeros(r.shape, _pybool)
    f = m.reshape(-1)
    for i, v in enumerate(r.ravel()):
        f[i] = bool(E.liftb(v)) if E.liftb(v) is not None else bool(v)
    return tuple(wrap(x) for x in _np.nonzero(m))


def f_flatnonzero(a):
    return f_nonzero(asarray(a).ravel())[0]


def f_argwhere(a):
    return wrap(_np.array([raw(x).astype(_pyint) for x in f_nonzero(a)]).T)


def f_where(c, x=None, y=None):
    if x is None and y is None:
        if not isinstance(c, _nd):
            c = asarray(c)
        if c.ndim == 0:
            c = asarray([c.item()])
        return f_nonzero(c)
    k = join(_opkind(x), _opkind(y))
    rs = _np.broadcast_arrays(raw(asarray(c)), raw(asarray(x)), raw(asarray(y)))
    o = _np.empty(rs[0].shape, object)
    for ix in _np.ndindex(*o.shape):
        cc, a, b = rs[0][ix], rs[1][ix], rs[2][ix]
        o[ix] = ite(E.liftb(cc), cast(a, k), cast(b, k))
    o = o.view(SArray)
    o.kind = k
    return o


def f_count_nonzero(a, axis=None, keepdims=False, **k):
    _kw(k)
    return reduce_(a, axis, lambda xs: _r_sum([E.b2n(E.liftb(x)) for x in xs]), keepdims)


def f_cumsum(a, axis=None, dtype=None, **k):
    _kw(k)
    a = asarray(a)
    if dtype is not None:
        a = a.astype(dtype)
    r = raw(a)
    if axis is None:
        r = r.ravel()
    elif r.ndim == 2 and axis in (0, 1, -1, -2):
        rows = r if axis in (1, -1) else r.T
        o = wrap(_np.array([raw(f_cumsum(wrap(x, a.kind))) for x in rows]))
        return o if axis in (1, -1) else o.T
    elif r.ndim != 1:
        raise PathAbort("cumsum axis")
    out, s = [], None
    for x in r:
        s = x if s is None else e_add(s, x)
        out.append(s)
    return from_list(out, "i" if kind_of(a) == "b" else asarray(a).kind)


def f_argsort(a, axis=-1, kind=None, **k):
    _kw(k)
    a = asarray(a)
    if axis is None:
        a = a.ravel()
    if a.ndim == 2 and axis in (1, -1):
        return wrap(_np.array([raw(f_argsort(wrap(x, a.kind))) for x in raw(a)]), "i")
    if a.ndim == 2 and axis in (0, -2):
        return f_argsort(a.T).T
    if a.ndim != 1:
        raise PathAbort("argsort of array with several dimensions")
    import functools
    xs = list(raw(a))

    def cmp(i, j):
        x, y = xs[i], xs[j]
        xn, yn = (not _sym(x) and x != x), (not _sym(y) and y != y)
        if xn or yn:
            return (0 if xn and yn else 1 if xn else -1)
        if bool(e_lt(x, y)):
            return -1
        if bool(e_lt(y, x)):
            return 1
        return 0
    return from_list(sorted(range(len(xs)), key=functools.cmp_to_key(cmp)), "i")


def f_sort(a, axis=-1, **k):
    _kw(k)
    a = asarray(a)
    if axis is None:
        a = a.ravel()
    if a.ndim == 1:
        return a[f_argsort(a)]
    if a.ndim == 2 and axis in (1, -1):
        return wrap(_np.array([raw(f_sort(wrap(x, a.kind))) for x in raw(a)]), a.kind)
    if a.ndim == 2 and axis in (0, -2):
        return f_sort(a.T).T
    raise PathAbort("sort of array with several dimensions")


def f_lexsort(keys, axis=-1):
    ks = [list(raw(asarray(k))) for k in keys][::-1]
    import functools

    def cmp(i, j):
        for k in ks:
            if bool(e_lt(k[i], k[j])):
                return -1
            if bool(e_lt(k[j], k[i])):
                return 1
        return 0
    return from_list(sorted(range(len(ks[0])), key=functools.cmp_to_key(cmp)), "i")


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    _kw(k)
    a = asarray(a).ravel()
    xs = list(raw(a))
    order = list(raw(f_argsort(a)))
    vals, idx, inv, cnt = [], [], [None] * len(xs), []
    for i in order:
        if vals and bool(e_eq(vals[-1], xs[i])):
            cnt[-1] += 1
        else:
            vals.append(xs[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    res = [from_list(vals, a.kind)]
    if return_index:
        res.append(from_list(idx, "i"))
    if return_inverse:
        res.append(from_list(inv, "i"))
    if return_counts:
        res.append(from_list(cnt, "i"))
    return res[0] if len(res) == 1 else tuple(res)


def f_isin(a, b, invert=False, **k):
    _kw(k)
    b = list(raw(asarray(list(b) if isinstance(b, (set, dict)) else b)).ravel())
    r = raw(asarray(a))
    o = _np.empty(r.shape, object)
    for ix in _np.ndindex(*r.shape):
        v = E.bor(*[e_eq(r[ix], y) for y in b])
        o[ix] = E.bnot(v) if invert else v
    if o.ndim == 0:
        return o[()]
    return wrap(o, "b")


def f_clip(a, lo=None, hi=None, a_min=None, a_max=None, out=None, **k):
    if out is not None:
        out[...] = f_clip(a, lo, hi, a_min, a_max, **k)
        return out
    lo = k.pop("min", lo)
    hi = k.pop("max", hi)
    _kw(k)
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    if lo is not None:
        a = call_uf("maximum", (a, lo))
    if hi is not None:
        a = call_uf("minimum", (a, hi))
    return a


def f_take(a, idx, axis=None, **k):
    _kw(k)
    a = asarray(a)
    idx = idx if isinstance(idx, (_pyint, _np.integer, SNum)) else asarray(idx)
    if axis is None:
        return a.ravel()[idx]
    return a[(slice(None),) * (axis % a.ndim) + (idx,)]


def _conc_ix(x):
    """indices made concrete (forks)"""
    if _sym(x):
        return E.ENG.concretize(x)
    if isinstance(x, (_nd, list, tuple)) and not isinstance(x, str):
        r = raw(asarray(x))
        o = _np.array([E.ENG.concretize(v) if _sym(v) else v for v in r.ravel()])
        kd = asarray(x).kind
        return o.astype(_pybool if kd == "b" else _pyint).reshape(r.shape)
    return x


def f_delete(a, idx, axis=None):
    a = asarray(a)
    if isinstance(idx, _nd) and asarray(idx).kind == "b":
        idx = f_flatnonzero(idx)
    r = wrap(_np.delete(raw(a), _conc_ix(idx), axis))
    r.kind = a.kind
    return r


def f_repeat(a, n, axis=None):
    a = asarray(a)
    r = wrap(_np.repeat(raw(a), _conc_ix(n), axis))
    r.kind = a.kind
    return r


def f_choose(i, choices, out=None, mode="raise"):
    if out is not None or mode != "raise":
        raise PathAbort("choose")
    cs = [asarray(c) for c in choices]
    i = asarray(i)
    if bool(f_any((i < 0) | (i >= len(cs)))):
        raise ValueError("invalid entry in choice array")
    r = cs[-1]
    for n in range(len(cs) - 2, -1, -1):
        r = f_where(i == n, cs[n], r)
    return r if i.ndim or r.ndim else r.item()


def f_take_along_axis(a, idx, axis=-1):
    a, idx = asarray(a), asarray(idx)
    if a.ndim == 1:
        return a[idx]
    if axis is None:
        return a.ravel()[idx]
    if a.ndim != 2:
        raise PathAbort("take_along_axis")
    axis %= 2
    n = idx.shape[1 - axis]
    o = _np.empty(idx.shape, object)
    for ix in _np.ndindex(*idx.shape):
        line = ix[1 - axis] if a.shape[1 - axis] > 1 else 0
        row = raw(a)[line] if axis else raw(a)[:, line]
        o[ix] = wrap(row, a.kind)[idx[ix]]
    return wrap(o, a.kind)


def f_put_along_axis(a, idx, v, axis=-1):
    idx = asarray(idx)
    if a.ndim == 1:
        a[idx] = v
        return
    if a.ndim != 2:
        raise PathAbort("put_along_axis")
    axis %= 2
    v = _np.broadcast_to(raw(asarray(v)), idx.shape)
    for ix in _np.ndindex(*idx.shape):
        if axis:
            a[ix[0], idx[ix]] = v[ix]
        else:
            a[idx[ix], ix[1]] = v[ix]


def f_ravel_multi_index(ix, dims, mode="raise", order="C"):
    if mode != "raise" or order != "C":
        raise PathAbort("ravel_multi_index")
    dims = [_conc_ix(d) for d in dims]
    r = 0
    for i, d in zip(ix, dims):
        i = asarray(i) if isinstance(i, (list, tuple)) else i
        bad = (i < 0) | (i >= d)
        if bool(f_any(bad) if isinstance(bad, _nd) else bad):
            raise ValueError("invalid entry in coordinates array")
        r = r * _pyint(d) + i
    return r


def f_unravel_index(i, shape, order="C"):
    if order != "C":
        raise PathAbort("unravel_index")
    shape = [_pyint(_conc_ix(d)) for d in (shape if isinstance(shape, (tuple, list, _nd)) else [shape])]
    i = asarray(i) if isinstance(i, (list, tuple)) else i
    n = 1
    for d in shape:
        n *= d
    bad = (i < 0) | (i >= n)
    if bool(f_any(bad) if isinstance(bad, _nd) else bad):
        raise ValueError(f"index is out of bounds for array with size {n}")
    out = []
    for d in reversed(shape):
        out.append(i % d)
        i = i // d
    return tuple(reversed(out))


def f_divmod(a, b):
    return call_uf("floor_divide", (a, b)), call_uf("mod", (a, b))


def f_percentile(scale):
    def g(a, q, axis=None, method="linear", keepdims=False, **k):
        _kw(k)
        if method != "linear" or isinstance(q, (list, tuple, _nd)) or _sym(q):
            raise PathAbort("percentile")

        def f(xs):
            o = [raw(x) if isinstance(x, _nd) else x for x in raw(f_sort(from_list(xs, "f")))]
            t = q / scale * (len(o) - 1)
            lo = _pyint(t // 1)
            hi = builtins.min(lo + 1, len(o) - 1)
            return e_add(o[lo], e_mul(e_sub(o[hi], o[lo]), t - lo))
        return reduce_(a, axis, f, keepdims)
    return g


class _RCls:
    def __getitem__(self, k):
        ks = k if type(k) is tuple else (k,)
        if any(isinstance(x, (slice, str)) for x in ks):
            if _has_symval(ks):
                raise PathAbort("np.r_ with slices")
            return wrap(_np.r_[tuple(_native(x) for x in ks)])
        return FUNCS["concatenate"]([asarray(x) if isinstance(x, (_nd, list, tuple)) else asarray([x])
                                     for x in ks])


class _CCls:
    def __getitem__(self, k):
        ks = k if type(k) is tuple else (k,)
        if any(isinstance(x, (slice, str)) for x in ks):
            raise PathAbort("np.c_ with slices")
        return FUNCS["column_stack"](ks)


r_, c_ = _RCls(), _CCls()


def f_bincount(x, weights=None, minlength=0):
    x = asarray(x).ravel()
    xs = list(raw(x))
    hi = minlength
    for v in xs:
        d = E.domain(v)
        if d is None:
            v = E.ENG.concretize(v)
            d = (v,)
        if d[0] < 0:
            if bool(E.lt(v, 0)):
                raise ValueError("'list' argument must have no negative elements")
        if d[-1] >= hi:
            # result length depends on the maximum
            m = E.ENG.concretize(v) if type(v) is SNum else _pyint(v)
            hi = builtins.max(hi, m + 1)
    ws = [_np.int64(1)] * len(xs) if weights is None else \
        [cast(w, "f") for w in raw(asarray(weights)).ravel()]
    k = "i" if weights is None else "f"
    out = []
    for j in range(hi):
        s = cast(0, k)
        for v, w in zip(xs, ws):
            s = e_add(s, ite(E.eq(v, j), w, cast(0, k)))
        out.append(s)
    return from_list(out, k)


def f_dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    raise PathAbort("dot")


def f_diff(a, n=1, axis=-1, prepend=_np._NoValue, append=_np._NoValue):
    a = asarray(a)
    n = operator.index(n)
    ax = axis + a.ndim if axis < 0 else axis
    if n < 0 or not 0 <= ax < a.ndim:
        raise PathAbort("diff")
    if n == 0:
        return a

    def end(x):
        x = asarray(x)
        if x.ndim == 0:
            sh = list(a.shape)
            sh[ax] = 1
            x = full(tuple(sh), x[()])
        return x
    parts = ([end(prepend)] if prepend is not _np._NoValue else []) + [a] + (
        [end(append)] if append is not _np._NoValue else [])
    if len(parts) > 1:
        a = FUNCS["concatenate"](parts, axis=ax)
    pre = (slice(None),) * ax
    for _ in range(n):
        hi, lo = a[pre + (slice(1, None),)], a[pre + (slice(None, -1),)]
        a = hi != lo if hi.kind == "b" else hi - lo
    return a


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    _kw(dict(k, dtype=dtype, out=out))
    a = asarray(a)
    m = FUNCS["mean"](a, axis=axis, keepdims=True)
    d = call_uf("subtract", (a, m))
    t = f_sum(call_uf("multiply", (d, d)), axis=axis, keepdims=keepdims)
    n = a.size if axis is None else a.shape[axis]
    return t / (n - ddof)


def f_std(a, axis=None, **k):
    return call_uf("sqrt", (f_var(a, axis, **k),))


def f_issubdtype(a, b):
    un = lambda t: _native(t._np if isinstance(t, _ScalarMeta) else t)
    return _np.issubdtype(un(a), un(b))


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = call_uf("absolute", (call_uf("subtract", (a, b)),))
    return call_uf("less_equal", (d, call_uf("add", (
        call_uf("multiply", (call_uf("absolute", (b,)), rtol)), atol))))


def f_allclose(a, b, **k):
    return f_all(f_isclose(a, b, **k))


def f_array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return f_all(a == b)


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    r = f_where(call_uf("isnan", (x,)), nan, x)
    for inf, to in ((_np.inf, posinf), (-_np.inf, neginf)):
        r = f_where(call_uf("equal", (r, inf)), _np.sign(inf) * 1.7976931348623157e308
                    if to is None else to, r)
    if copy is True or _np.ndim(raw(x)) == 0:
        return r
    x[...] = r
    return x


def f_interp(*a, **k):
    raise PathAbort("interp")


# ------------------------------------------------------------ creation
def _flatten(x):
    """nested sequence -> (shape, flat list) ; objects count as leaves"""
    if isinstance(x, SArray):
        return x.shape, list(raw(x).ravel())
    if isinstance(x, _nd):
        return x.shape, list(objarr(x).ravel())
    if isinstance(x, (list, tuple)) and not isinstance(x, SRecRow):
        if len(x) == 0:
            return (0,), []
        subs = [_flatten(y) for y in x]
        sh = subs[0][0]
        for s, _ in subs:
            if s != sh:
                raise ValueError("setting an array element with a sequence. The "
                                 "requested array has an inhomogeneous shape")
        flat = []
        for _, f in subs:
            flat.extend(f)
        return (len(x),) + sh, flat
    if isinstance(x, range):
        return (len(x),), [_np.int64(i) for i in x]
    return (), [x]


def array(x, dtype=None, copy=True, order="K", **k):
    r = _array(x, dtype, copy, **k)
    return laid(r, x, order) if isinstance(r, SArray) else r


def _array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, SRec):
        return x.copy()
    if dtype is not None and not _simple_dtype(dtype):
        return SRec.from_rows(x, dtype)
    if isinstance(x, _nd) and not isinstance(x, SArray) and x.dtype.names:
        return SRec.from_struct(x)
    if isinstance(x, (set, dict)) or (hasattr(x, "__next__")):
        o = _np.empty((), object)
        o[()] = x
        return o
    shape, flat = _flatten(x)
    kind = kind_of_dtype(dtype)
    if kind is None:
        if isinstance(x, SArray):
            kind = x.kind
        elif isinstance(x, _nd):
            kind = base_kind(x.dtype)
        elif not flat:
            kind = "f"
        else:
            kind = "b"
            for v in flat:
                kind = join(kind, kind_of(v))
            if kind == "O" and builtins.all(isinstance(v, str) for v in flat):
                return _np.array(x)
    o = _np.empty(len(flat), object)
    for i, v in enumerate(flat):
        o[i] = cast(v, kind)
    o = o.reshape(shape)
    if ndmin > o.ndim:
        o = o.reshape((1,) * (ndmin - o.ndim) + o.shape)
    o = o.view(SArray)
    o.kind = kind
    return o


def _simple_dtype(d):
    if isinstance(d, (list, dict)):
        return False
    try:
        if isinstance(d, _np.dtype) and d.names:
            return False
    except TypeError:
        pass
    return True


def _same_kind(a, b):
    return a == b and (a is b or (type(a) is not NK and type(b) is not NK))


def asarray(x, dtype=None, order="K", **k):
    if isinstance(x, SArray) and (dtype is None or _same_kind(kind_of_dtype(dtype), x.kind)):
        if x.ndim < 2 or order in ("K", "A", None) or x.flags[
                "C_CONTIGUOUS" if order == "C" else "F_CONTIGUOUS"]:
            return x
    if isinstance(x, SRec):
        return x
    return array(x, dtype, order=order or "K")


def f_ascontiguousarray(x, dtype=None):
    return asarray(x, dtype, order="C")


def f_asfortranarray(x, dtype=None):
    return asarray(x, dtype, order="F")


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(v.__index__() for v in s)
    if isinstance(s, _nd):
        return tuple(v.__index__() for v in s)
    return s.__index__()


def zeros(shape, dtype=float, **k):
    if not _simple_dtype(dtype):
        return SRec.empty(_shape(shape), dtype)
    kd = kind_of_dtype(dtype)
    return mk(_shape(shape), cast(0, kd), kd)


def ones(shape, dtype=float, **k):
    kd = kind_of_dtype(dtype)
    return mk(_shape(shape), cast(1, kd), kd)


def empty(shape, dtype=float, **k):
    return zeros(shape, dtype)


def full(shape, v, dtype=None, **k):
    kd = kind_of_dtype(dtype) or _opkind(v)
    if isinstance(v, (_nd, list, tuple)):
        o = mk(_shape(shape), cast(0, kd), kd)
        o[...] = v
        return o
    return mk(_shape(shape), cast(v, kd), kd)


def _like(f):
    def g(a, *args, dtype=None, shape=None, **k):
        a = asarray(a)
        return f(a.shape if shape is None else shape, *args,
                 dtype=a.dtype if dtype is None else dtype)
    return g


def arange(*a, dtype=None, **k):
    if any(_sym(x) for x in a):
        a = [x.__index__() if _sym(x) else x for x in a]
    r = wrap(_np.arange(*a))
    return r.astype(dtype) if dtype is not None else r


def f_copy(a, order="K", **k):
    return asarray(a).copy(order) if isinstance(a, SArray) else array(a)


def f_fromiter(it, dtype, count=-1):
    return from_list(list(it), kind_of_dtype(dtype))


def _joinf(func):
    def g(arrs, *a, **k):
        arrs = [asarray(x) for x in arrs]
        ks = [x.kind for x in arrs]
        dt = k.pop("dtype", None)
        r = func([raw(x) for x in arrs], *a, **k)
        return cast_arr(r, kind_of_dtype(dt) or join(*ks))
    return g


def _shapef(func):
    """structure-only function of one array: keeps the kind (views kept)"""
    def g(a, *args, **k):
        if isinstance(a, SRec):
            raise PathAbort("shape function on a record array")
        a = asarray(a)
        args = [tuple(v.__index__() for v in x) if isinstance(x, tuple) else x for x in args]
        r = func(raw(a), *args, **k)
        if isinstance(r, _nd):
            return wrap(r, a.kind)
        if isinstance(r, list):
            return [wrap(x, a.kind) for x in r]
        return r
    return g


def f_append(a, v, axis=None):
    if axis is None:
        return _joinf(_np.concatenate)([asarray(a).ravel(), asarray(v).ravel()])
    return _joinf(_np.concatenate)([a, v], axis=axis)


def f_ravel(a, order="C"):
    a = asarray(a)
    return wrap(raw(a).ravel(order), a.kind)


def f_ndenumerate(a):
    a = asarray(a)
    for ix in _np.ndindex(*a.shape):
        yield ix, a[ix]


def f_nditer(*a, **k):
    raise PathAbort("nditer")


def f_vectorize(f, otypes=None, **k):
    def g(*args):
        rs = _np.broadcast_arrays(*[raw(asarray(x)) for x in args])
        o = _np.empty(rs[0].shape, object)
        for ix in _np.ndindex(*o.shape):
            o[ix] = f(*[r[ix] for r in rs])
        return wrap(o)
    return g


def f_isscalar(x):
    return type(x) in (SNum, SBool) or _np.isscalar(x)


def f_select(conds, choices, default=0):
    r = default
    for c, x in zip(reversed(conds), reversed(choices)):
        r = f_where(c, x, r)
    return r


def f_put(a, idx, v, **k):
    a.reshape(-1)[asarray(idx)] = v


def f_copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[...] = f_where(where, src, dst)


def f_putmask(a, mask, v):
    a[...] = f_where(mask, v, a)


def f_iterable(x):
    return not _sym(x) and _np.iterable(x)


def _nanred(f):
    def g(a, axis=None, keepdims=False, **k):
        _kw(k)
        return reduce_(a, axis, f, keepdims is True)
    return g


def _nanfirst(f):
    def g(a, q, axis=None, **k):
        if axis is not None:
            raise PathAbort("nanpercentile axis")
        return f(from_list(_notnan(list(raw(asarray(a)).ravel())), "f"), q, **k)
    return g


FUNCS = dict(
    sum=f_sum, mean=f_mean, average=f_average, min=f_min, max=f_max, amin=f_min,
    amax=f_max, ptp=f_ptp, any=f_any, all=f_all, argmax=f_argmax,
    argmin=f_argmin, nanargmax=f_nanargmax, nanargmin=f_nanargmin,
    nonzero=f_nonzero, flatnonzero=f_flatnonzero, argwhere=f_argwhere,
    round=lambda a, decimals=0, **k: asarray(a).round(decimals)
    if isinstance(a, (_nd, list, tuple)) else (E.rounded(a, decimals) if _sym(a) else _np.round(a, decimals)),
    around=lambda a, decimals=0, **k: asarray(a).round(decimals)
    if isinstance(a, (_nd, list, tuple)) else (E.rounded(a, decimals) if _sym(a) else _np.round(a, decimals)),
    rint=lambda a, **k: asarray(a).round(0)
    if isinstance(a, (_nd, list, tuple)) else (E.rounded(a, 0) if _sym(a) else _np.rint(a)),
    where=f_where, count_nonzero=f_count_nonzero, cumsum=f_cumsum,
    argsort=f_argsort, sort=f_sort, lexsort=f_lexsort, unique=f_unique,
    isin=f_isin, in1d=f_isin, clip=f_clip, take=f_take, bincount=f_bincount,
    dot=f_dot, diff=f_diff, var=f_var, std=f_std, issubdtype=f_issubdtype, isclose=f_isclose, allclose=f_allclose,
    array_equal=f_array_equal, nan_to_num=f_nan_to_num,
    nansum=_nanred(_nan_of(_r_sum, _np.float64(0))), nanmean=_nanred(_nan_of(_r_mean)),
    nanmin=_nanred(_nan_of(_r_min)), nanmax=_nanred(_nan_of(_r_max)),
    nanmedian=_nanred(_nan_of(_r_median)), median=_nanred(_r_median),
    prod=lambda a, axis=None, **k: asarray(a).prod(axis, **k),
    array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=f_ascontiguousarray,
    asfortranarray=f_asfortranarray,
    atleast_1d=lambda a: asarray(a) if asarray(a).ndim else asarray(a).reshape(1),
    zeros=zeros, ones=ones, empty=empty, full=full,
    zeros_like=_like(zeros), ones_like=_like(ones), empty_like=_like(empty),
    full_like=_like(full), arange=arange, copy=f_copy, fromiter=f_fromiter,
    concatenate=_joinf(_np.concatenate), stack=_joinf(_np.stack),
    vstack=_joinf(_np.vstack), hstack=_joinf(_np.hstack),
    column_stack=_joinf(_np.column_stack), append=f_append,
    ravel=f_ravel, reshape=_shapef(_np.reshape), expand_dims=_shapef(_np.expand_dims),
    squeeze=_shapef(_np.squeeze), transpose=_shapef(_np.transpose),
    tile=_shapef(_np.tile), repeat=f_repeat, flip=_shapef(_np.flip),
    fliplr=_shapef(_np.fliplr), flipud=_shapef(_np.flipud),
    roll=_shapef(_np.roll), moveaxis=_shapef(_np.moveaxis),
    swapaxes=_shapef(_np.swapaxes), broadcast_to=_shapef(_np.broadcast_to),
    split=_shapef(_np.split), array_split=_shapef(_np.array_split),
    delete=f_delete, choose=f_choose,
    take_along_axis=f_take_along_axis, put_along_axis=f_put_along_axis,
    ravel_multi_index=f_ravel_multi_index, unravel_index=f_unravel_index, divmod=f_divmod,
    percentile=f_percentile(100), nanpercentile=_nanfirst(f_percentile(100)),
    quantile=f_percentile(1), nanquantile=_nanfirst(f_percentile(1)), diagonal=_shapef(_np.diagonal),
    shape=lambda a: asarray(a).shape, ndim=lambda a: asarray(a).ndim,
    size=lambda a, axis=None: asarray(a).size if axis is None else asarray(a).shape[axis],
    ndenumerate=f_ndenumerate, nditer=f_nditer, vectorize=f_vectorize,
    isscalar=f_isscalar, select=f_select, put=f_put, copyto=f_copyto,
    putmask=f_putmask, iterable=f_iterable, interp=f_interp,
)


def _unwrap_args(x):
    if isinstance(x, SArray):
        return raw(x)
    t = type(x)
    if t is list:
        return [_unwrap_args(y) for y in x]
    if t is tuple:
        return tuple(_unwrap_args(y) for y in x)
    if isinstance(x, _ScalarMeta):
        return x._np
    if x is ShimInt:
        return _pyint
    if x is ShimFloat:
        return _pyfloat
    if x is ShimBool:
        return _pybool
    return x


def to_real(x):
    """fully concrete SArray -> native ndarray (None if symbolic content)"""
    if isinstance(x, SArray):
        r = raw(x)
        if any(_sym(v) for v in r.ravel()):
            return None
        if x.kind == "O":
            return r
        return _np.array(r.tolist(), dtype=x.dtype).reshape(r.shape)
    return x


def generic(func, args, kwargs):
    if not _has_symval(args) and not _has_symval(kwargs):
        a = [_native(x) for x in args]
        k = {n: _native(v) for n, v in kwargs.items()}
        return wrap(func(*a, **k))
    a = [_unwrap_args(x) for x in args]
    k = {n: _unwrap_args(v) for n, v in kwargs.items()}
    return wrap(func(*a, **k))


def _has_symval(x):
    t = type(x)
    if t is SNum or t is SBool:
        return True
    if isinstance(x, SArray):
        return any(_sym(v) for v in raw(x).ravel())
    if isinstance(x, (list, tuple)):
        return any(_has_symval(y) for y in x)
    if isinstance(x, dict):
        return any(_has_symval(y) for y in x.values())
    return False


def _native(x):
    if isinstance(x, SArray):
        return to_real(x)
    t = type(x)
    if t is list:
        return [_native(y) for y in x]
    if t is tuple:
        return tuple(_native(y) for y in x)
    if isinstance(x, _ScalarMeta):
        return x._np
    if x is ShimInt:
        return _pyint
    if x is ShimFloat:
        return _pyfloat
    if x is ShimBool:
        return _pybool
    return x


class UFuncShim:
    def __init__(self, name):
        self.__name__ = name

    def __call__(self, *args, **kw):
        fn, nin, kf, pf = UF[self.__name__]
        if len(args) > nin:
            kw["out"] = args[nin]
            args = args[:nin]
        return call_uf(self.__name__, args, **kw)

    def at(self, a, idx, b=None):
        fn, nin, kf, pf = UF[self.__name__]
        if isinstance(idx, tuple):
            raise PathAbort("ufunc.at with tuple index")
        ids = raw(asarray(idx))
        if b is not None:
            bs = _np.broadcast_to(raw(asarray(b)), ids.shape)
        for ix in _np.ndindex(*ids.shape):
            i = ids[ix]
            a[i] = fn(a[i], bs[ix]) if b is not None else fn(a[i])

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **k):
        _kw(dict(k, dtype=dtype, out=out))
        fn = UF[self.__name__][0]
        a = asarray(a)
        init = {"add": _np.int64(0), "multiply": _np.int64(1), "logical_and": _np.True_,
                "logical_or": _np.False_}.get(self.__name__)
        return reduce_(a, axis, lambda xs: _fold(fn, xs, None if xs else init), keepdims)

    def accumulate(self, a, axis=0, **k):
        _kw(k)
        fn = UF[self.__name__][0]
        a = asarray(a)
        if a.ndim != 1:
            raise PathAbort("ufunc.accumulate of a table")
        out = []
        for x in raw(a):
            out.append(x if not out else fn(out[-1], x))
        return wrap(_np.array(out + [None], dtype=object)[:-1])

    def reduceat(self, a, ids, axis=0, **k):
        _kw(k)
        fn = UF[self.__name__][0]
        a = asarray(a)
        if a.ndim != 1:
            raise PathAbort("ufunc.reduceat of a table")
        ids = [operator.index(x) for x in raw(asarray(ids))]
        xs = list(raw(a))
        out = []
        for t, i in enumerate(ids):
            if not 0 <= i < len(xs):
                raise IndexError(f"index {i} out-of-bounds in {self.__name__}.reduceat")
            j = ids[t + 1] if t + 1 < len(ids) else len(xs)
            out.append(_fold(fn, xs[i:j], None) if j > i else xs[i])
        return wrap(_np.array(out + [None], dtype=object)[:-1])

    def outer(self, a, b):
        a, b = asarray(a).ravel(), asarray(b).ravel()
        return call_uf(self.__name__, (a.reshape(-1, 1), b.reshape(1, -1)))


# ------------------------------------------------------------ record arrays
class SRecRow:
    """one record (a view into its SRec)"""

    def __init__(self, rec, ix):
        self.__dict__["_rec"] = rec
        self.__dict__["_ix"] = ix

    def _name(self, k):
        if isinstance(k, str):
            return k
        return self._rec.names[k]

    def __getitem__(self, k):
        if isinstance(k, slice):
            return tuple(self)[k]
        return self._rec.cols[self._name(k)][self._ix]

    def __setitem__(self, k, v):
        self._rec.cols[self._name(k)][self._ix] = v

    def __getattr__(self, k):
        if k in self._rec.names:
            return self[k]
        raise AttributeError(k)

    def __setattr__(self, k, v):
        self[k] = v

    def __iter__(self):
        for n in self._rec.names:
            yield self._rec.cols[n][self._ix]

    def __len__(self):
        return len(self._rec.names)

    @property
    def dtype(self):
        return self._rec.dtype

    def tolist(self):
        return tuple(self)

    item = tolist


class SRec:
    def __init__(self, cols, dtype):
        self.cols = cols
        self._dtype = _np.dtype(dtype)

    @property
    def names(self):
        return self._dtype.names

    @property
    def dtype(self):
        return self._dtype

    @staticmethod
    def _dt(dtype):
        if isinstance(dtype, list):
            dtype = [(d[0], _native(d[1])) + tuple(d[2:]) for d in dtype]
        return _np.dtype(dtype)

    @classmethod
    def empty(cls, n, dtype):
        dt = cls._dt(dtype)
        if isinstance(n, tuple):
            if len(n) != 1:
                raise PathAbort("n-d record array")
            n = n[0]
        return cls({nm: zeros(n, KIND_DTYPE[base_kind(dt[nm])]) for nm in dt.names}, dt)

    @classmethod
    def from_rows(cls, rows, dtype):
        dt = cls._dt(dtype)
        if isinstance(rows, SRec):
            rows = list(rows)
        rows = [tuple(r) for r in rows]
        cols = {}
        for i, nm in enumerate(dt.names):
            k = base_kind(dt[nm])
            o = _np.empty(len(rows), object)
            for j, r in enumerate(rows):
                if len(r) != len(dt.names):
                    raise ValueError("could not assign tuple of length "
                                     f"{len(r)} to structure with {len(dt.names)} fields.")
                o[j] = cast(r[i], k)
            o = o.view(SArray)
            o.kind = k
            cols[nm] = o
        return cls(cols, dt)

    @classmethod
    def from_struct(cls, r):
        r = _np.asarray(r).ravel()
        return cls({nm: wrap(_np.asarray(r[nm])) if kind_of_dtype(r.dtype[nm]) != "O"
                    else wrap(_np.asarray(r[nm], dtype=object), "O")
                    for nm in r.dtype.names}, r.dtype)

    def __len__(self):
        return len(self.cols[self.names[0]])

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)

    ndim = 1

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        if isinstance(k, list) and k and isinstance(k[0], str):
            return SRec({n: self.cols[n] for n in k}, [(n, self._dtype[n]) for n in k])
        if isinstance(k, (_pyint, _np.integer)):
            n = len(self)
            if not -n <= k < n:
                raise IndexError("index out of bounds")
            return SRecRow(self, k)
        if type(k) is SNum:
            n = len(self)
            k = E.ENG.concretize(k)
            if not -n <= k < n:
                raise IndexError("index out of bounds")
            return SRecRow(self, k)
        return SRec({n: c[k] for n, c in self.cols.items()}, self._dtype)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.cols[k][...] = v
        elif isinstance(k, (_pyint, _np.integer, SNum)):
            for n, x in zip(self.names, v):
                self.cols[n][k] = x
        else:
            raise PathAbort("record array store")

    def __getattr__(self, k):
        cols = self.__dict__.get("cols")
        if cols is not None and k in cols:
            return cols[k]
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if "cols" in self.__dict__ and k in self.__dict__["cols"]:
            self.cols[k][...] = v
        else:
            object.__setattr__(self, k, v)

    def __iter__(self):
        for i in range(len(self)):
            yield SRecRow(self, i)

    def view(self, *a, **k):
        return self

    def copy(self):
        return SRec({n: c.copy() for n, c in self.cols.items()}, self._dtype)

    def tolist(self):
        return [tuple(r) for r in self]

    def __deepcopy__(self, memo):
        return self.copy()


# ------------------------------------------------------------ module object
def f_norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord not in (None, 2) or (ord == 2 and x.ndim != 1 and axis is None):
        raise PathAbort("norm order")
    return call_uf("sqrt", (f_sum(x * x, axis, keepdims=keepdims),))


class _Linalg:
    norm = staticmethod(f_norm)

    def __getattr__(self, name):
        return getattr(_np.linalg, name)


FUNCS["norm"] = f_norm


def _info(f):
    return lambda t: f(_native(t._np if isinstance(t, _ScalarMeta) else t))


class ShimNumpy:
    """stands in for the numpy module inside the code under test"""

    def __init__(self):
        d = self.__dict__
        d["ndarray"] = _nd
        d["recarray"] = _np.recarray
        d["bool_"] = _np.bool_
        d["iinfo"], d["finfo"] = _info(_np.iinfo), _info(_np.finfo)
        d["bool"] = ShimBool
        for n in UF:
            d[n] = UFuncShim(n)
        for n, f in FUNCS.items():
            d[n] = f
        d["r_"], d["c_"] = r_, c_
        d["linalg"] = _Linalg()

    def __getattr__(self, name):
        f = getattr(_np, name)
        if isinstance(f, type) or not callable(f):
            if isinstance(f, type) and issubclass(f, _np.generic):
                self.__dict__[name] = f
                g = _scalar_ctor(f)
                self.__dict__[name] = g
                return g
            return f

        def g(*a, **k):
            return generic(f, a, k)
        g.__name__ = name
        self.__dict__[name] = g
        return g


class _ScalarMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._np) or (
            type(x) is SNum and issubclass(
                _np.int64 if x.isint else _np.float64, cls._np))

    def __call__(cls, *a):
        if a and type(a[0]) in (SNum, SBool):
            return cast(a[0], kind_of_dtype(cls._np))
        return cls._np(*a)

    @property
    def dtype(cls):
        return _np.dtype(cls._np)


def _scalar_ctor(f):
    c = _ScalarMeta(f.__name__, (), {"_np": f})
    return c


_old_kind_of_dtype = kind_of_dtype


def kind_of_dtype(d):  # noqa: F811
    if isinstance(d, _ScalarMeta):
        d = d._np
    return _old_kind_of_dtype(d)


# SNum/SBool with sequences or arrays on the other side: behave like np scalars
def _install_scalar_array_ops():
    def mkop(name, orig, swap):
        uf = name

        def f(self, o):
            if uf == "multiply" and type(o) in (list, tuple) and kind_of(self) == "i":
                return orig(self, o)
            if isinstance(o, (_nd, list, tuple)) and not (
                    isinstance(o, _nd) and o.ndim == 0):
                return call_uf(uf, (o, self) if swap else (self, o))
            return orig(self, o)
        return f
    for cls in (SNum, SBool):
        for o, u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"),
                     ("truediv", "divide"), ("floordiv", "floor_divide"),
                     ("mod", "mod"), ("and", "bitwise_and"), ("or", "bitwise_or")):
            for pre, sw in (("", False), ("r", True)):
                nm = f"__{pre}{o}__"
                orig = getattr(cls, nm, None)
                if orig is None:
                    def orig(self, o):
                        return NotImplemented
                setattr(cls, nm, mkop(u, orig, sw))
        for o, u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"),
                     ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")):
            nm = f"__{o}__"
            setattr(cls, nm, mkop(u, getattr(cls, nm), False))


_h1, _h2 = SNum.__hash__, SBool.__hash__
_install_scalar_array_ops()
SNum.__hash__ = _h1
SBool.__hash__ = _h2


# ------------------------------------------------------------ heapq / math
def _lex_lt(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        n = builtins.min(len(a), len(b))
        res = _np.bool_(len(a) < len(b))
        for x, y in reversed(list(zip(a[:n], b[:n]))):
            if type(res) is not SBool:
                if kind_of(x) == "O" or kind_of(y) == "O":
                    return a < b
                res = e_le(x, y) if res else e_lt(x, y)
            else:
                res = E.bor(e_lt(x, y), E.band(e_eq(x, y), res))
        return res
    return a < b


class ShimHeapq:
    @staticmethod
    def _lt(a, b):
        return bool(_lex_lt(a, b))

    @classmethod
    def heappush(cls, h, x):
        h.append(x)
        cls._siftdown(h, 0, len(h) - 1)

    @classmethod
    def heappop(cls, h):
        last = h.pop()
        if h:
            r = h[0]
            h[0] = last
            cls._siftup(h, 0)
            return r
        return last

    @classmethod
    def heapify(cls, h):
        for i in reversed(range(len(h) // 2)):
            cls._siftup(h, i)

    @classmethod
    def heappushpop(cls, h, x):
        if h and cls._lt(h[0], x):
            x, h[0] = h[0], x
            cls._siftup(h, 0)
        return x

    @classmethod
    def heapreplace(cls, h, x):
        r = h[0]
        h[0] = x
        cls._siftup(h, 0)
        return r

    @classmethod
    def nsmallest(cls, n, it, key=None):
        return sorted(it, key=key)[:n]

    @classmethod
    def nlargest(cls, n, it, key=None):
        return sorted(it, key=key, reverse=True)[:n]

    @classmethod
    def _siftdown(cls, h, start, pos):
        new = h[pos]
        while pos > start:
            pp = (pos - 1) >> 1
            par = h[pp]
            if cls._lt(new, par):
                h[pos] = par
                pos = pp
                continue
            break
        h[pos] = new

    @classmethod
    def _siftup(cls, h, pos):
        end = len(h)
        start = pos
        new = h[pos]
        c = 2 * pos + 1
        while c < end:
            rp = c + 1
            if rp < end and not cls._lt(h[c], h[rp]):
                c = rp
            h[pos] = h[c]
            pos = c
            c = 2 * pos + 1
        h[pos] = new
        cls._siftdown(h, start, pos)


def _m_hypot(*a):
    t = 0
    for x in a:
        t = e_add(t, e_mul(x, x))
    return e_sqrt(t)


def _m_trunc(x):
    return ite(E.le(0, x), E.floor(x), -E.floor(-x))


class ShimMath:
    def __getattr__(self, name):
        f = getattr(_math, name)
        if not callable(f):
            return f
        m = {"sqrt": e_sqrt, "isnan": e_isnan, "hypot": _m_hypot, "fabs": e_abs,
             "dist": lambda p, q: _m_hypot(*[e_sub(x, y) for x, y in zip(p, q, strict=True)]),
             "trunc": lambda x: x if x.isint else _m_trunc(x),
             "copysign": lambda x, y: ite(E.le(0, y), e_abs(x), -e_abs(x)),
             "prod": lambda xs, start=1: _fold(e_mul, [start] + list(xs), None),
             "atan2": e_arctan2, "isinf": e_isinf, "isfinite": e_isfinite,
             "cos": UF["cos"][0], "sin": UF["sin"][0], "degrees": e_deg,
             "radians": e_rad, "pow": e_pow,
             "floor": lambda x: E.floor(x) if _sym(x) else _math.floor(x),
             "ceil": lambda x: -E.floor(-x) if _sym(x) else _math.ceil(x),
             "fsum": lambda xs: _r_sum(list(xs)),
             "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(E.le(
                 e_abs(e_sub(a, b)), E.nmax(e_mul(rel_tol, E.nmax(e_abs(a), e_abs(b))),
                                            abs_tol))) if _sym(a, b)
             else _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)}.get(name)

        def g(*a, **k):
            if any(_has_symval(x) for x in a) or name == "fsum":
                if m is None:
                    raise PathAbort(f"math.{name} of a symbolic value")
                return m(*a, **k)
            return f(*a, **k)
        return g


def b_min(*a, **k):
    return _bminmax(builtins.min, E.nmin, a, k)


def b_max(*a, **k):
    return _bminmax(builtins.max, E.nmax, a, k)


def _bminmax(orig, merged, a, k):
    if not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and any(_sym(x) for x in xs) and builtins.all(
                kind_of(x) in "fib" and not isinstance(x, _nd) for x in xs):
            if not any(not _sym(x) and x != x for x in xs):
                return merged(*[_el(x) for x in xs])
        return orig(xs)
    return orig(*a, **k)


def b_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, y) for y in t)
    if t is ShimInt:
        return isinstance(x, _pyint)      # np.int64 / SNum are not python ints
    if t is ShimFloat:
        return isinstance(x, _pyfloat) or (type(x) is SNum and not x.isint)
    if t is ShimBool:
        return isinstance(x, _pybool)
    if isinstance(t, _ScalarMeta):
        return t.__class__.__instancecheck__(t, x)
    if t in (_np.bool_, _np.generic) and type(x) is SBool:
        return True
    if t in (_np.recarray,) and isinstance(x, SRec):
        return True
    if t is _nd and isinstance(x, SRec):
        return True
    try:
        return builtins.isinstance(x, t)
    except TypeError:
        return builtins.isinstance(x, t)


NP = ShimNumpy()
HEAPQ = ShimHeapq
MATH = ShimMath()
