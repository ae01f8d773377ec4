"""Symbolic scalars, complex numbers and arrays that flow through the real code."""
from __future__ import annotations

import math
import numbers

import numpy as np

from . import terms as t
from .terms import P, Unsupported
from . import ctx as C

NAN = np.float64("nan")
PINF = np.float64("inf")


def _decide(p, op):
    return C.eng().decide(p, op)


def _abs_poly(p):
    if p.is_const():
        return t.const(abs(p.const()))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if all((not isinstance(e, float) and isinstance(e, int) and e % 2 == 0) or t.T.atoms[a].kind == "e" or
               t.aiv(t.T.atoms[a])[0] >= 0 for a, e in m):
            return P({m: abs(c)})
    e = C.eng()
    if e.frozen:
        r = e.quick(p, ">=")
        if r is None:
            raise Unsupported("sign of an absolute value after the path ended")
    else:
        r = e.decide(p, ">=")
    return p if r else t.scale(p, -1.0)


t.ABS = _abs_poly


def is_sym(x):
    return isinstance(x, (SF, SC))


NUM = (int, float, np.integer, np.floating, np.bool_, bool)


def wrap(p, np_=True):
    if p.is_const():
        return np.float64(p.const()) if np_ else float(p.const())
    return SF(p, np_)


def _fin(x):
    return math.isfinite(x)


class SF(np.lib.mixins.NDArrayOperatorsMixin):
    """symbolic real scalar (np_: numpy semantics for division by zero etc.)"""

    __slots__ = ("p", "np_")
    __array_priority__ = 1000

    def __init__(self, p, np_=True):
        self.p = p
        self.np_ = np_

    # identity ---------------------------------------------------------
    __hash__ = lambda self: 7  # noqa: E731  equality decides (forks) inside dict/set

    def __repr__(self):
        return "SF<%s>" % t.show(self.p)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # array protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npmodel
        return npmodel.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npmodel
        return npmodel.array_function(func, args, kwargs)

    # numpy-scalar look alike
    shape = ()
    ndim = 0
    size = 1
    dtype = property(lambda self: np.dtype(float) if self.np_ else _noattr("dtype"))
    T = property(lambda self: self)
    real = property(lambda self: self)
    imag = property(lambda self: 0.0)

    def item(self):
        return SF(self.p, False)

    def tolist(self):
        return SF(self.p, False)

    def astype(self, dt, **kw):
        from . import npmodel
        return npmodel.cast_scalar(self, dt)

    def conjugate(self):
        return self

    conj = conjugate

    def copy(self):
        return self

    def max(self, *a, **k):
        return self

    min = sum = mean = prod = squeeze = max

    def any(self, *a, **k):
        return bool(self)

    all = any

    def ravel(self, *a, **k):
        return mkarr([self])

    flatten = ravel

    def reshape(self, *s, **k):
        return mkarr([self]).reshape(*s)

    def is_integer(self):
        return bool(_decide_eq(self, sc_floor(self)))

    def round(self, n=0):
        return sc_rint(self, n)

    def clip(self, lo=None, hi=None, **k):
        return sc_clip(self, lo, hi)

    def __bool__(self):
        return _decide(self.p, "!=")

    def __float__(self):
        raise NeedConcrete("float() of a symbolic value")

    def __int__(self):
        r = sc_int(self)
        if is_sym(r):
            raise NeedConcrete("int() of a wide symbolic value")
        return r

    def __index__(self):
        raise NeedConcrete("a symbolic value as an index")

    def __round__(self, n=None):
        if n is None:
            return sc_int(sc_rint(self))
        return sc_rint(self, n)

    def __trunc__(self):
        return sc_int(self)

    def __floor__(self):
        return sc_int(sc_floor(self))

    def __ceil__(self):
        return -sc_int(sc_floor(sc_neg(self)))

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        return _bin(sc_add, np.add, self, o)

    def __radd__(self, o):
        return _bin(sc_add, np.add, o, self)

    def __sub__(self, o):
        return _bin(sc_sub, np.subtract, self, o)

    def __rsub__(self, o):
        return _bin(sc_sub, np.subtract, o, self)

    def __mul__(self, o):
        return _bin(sc_mul, np.multiply, self, o)

    def __rmul__(self, o):
        return _bin(sc_mul, np.multiply, o, self)

    def __truediv__(self, o):
        return _bin(sc_div, np.true_divide, self, o)

    def __rtruediv__(self, o):
        return _bin(sc_div, np.true_divide, o, self)

    def __pow__(self, o, mod=None):
        return _bin(sc_pow, np.power, self, o)

    def __rpow__(self, o):
        return _bin(sc_pow, np.power, o, self)

    def __floordiv__(self, o):
        return _bin(sc_floordiv, np.floor_divide, self, o)

    def __rfloordiv__(self, o):
        return _bin(sc_floordiv, np.floor_divide, o, self)

    def __mod__(self, o):
        return _bin(sc_mod, np.remainder, self, o)

    def __rmod__(self, o):
        return _bin(sc_mod, np.remainder, o, self)

    def __neg__(self):
        return SF(t.scale(self.p, -1.0), self.np_)

    def __pos__(self):
        return self

    def __abs__(self):
        return sc_abs(self)

    def __lt__(self, o):
        return _bin(lambda a, b: sc_cmp(a, b, "<"), np.less, self, o)

    def __le__(self, o):
        return _bin(lambda a, b: sc_cmp(a, b, "<="), np.less_equal, self, o)

    def __gt__(self, o):
        return _bin(lambda a, b: sc_cmp(a, b, ">"), np.greater, self, o)

    def __ge__(self, o):
        return _bin(lambda a, b: sc_cmp(a, b, ">="), np.greater_equal, self, o)

    def __eq__(self, o):
        if o is self:
            return True
        if o is None or isinstance(o, (str, tuple, dict)):
            return False
        return _bin(lambda a, b: sc_cmp(a, b, "=="), np.equal, self, o)

    def __ne__(self, o):
        if o is self:
            return False
        if o is None or isinstance(o, (str, tuple, dict)):
            return True
        return _bin(lambda a, b: sc_cmp(a, b, "!="), np.not_equal, self, o)


numbers.Number.register(SF)
numbers.Real.register(SF)


class NeedConcrete(Exception):
    """A C-level consumer needs a concrete number: the run must be concretised."""


def _noattr(n):
    raise AttributeError(n)


class SC(np.lib.mixins.NDArrayOperatorsMixin):
    """symbolic complex scalar: re, im are SF or float"""

    __slots__ = ("re", "im")
    __array_priority__ = 1001

    def __init__(self, re, im):
        self.re = re
        self.im = im

    __hash__ = lambda self: 11  # noqa: E731

    def __repr__(self):
        return "SC<%r, %r>" % (self.re, self.im)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npmodel
        return npmodel.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npmodel
        return npmodel.array_function(func, args, kwargs)

    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(complex)
    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def conjugate(self):
        return SC(self.re, sc_neg(self.im))

    conj = conjugate
    __add__ = SF.__add__
    __radd__ = SF.__radd__
    __sub__ = SF.__sub__
    __rsub__ = SF.__rsub__
    __mul__ = SF.__mul__
    __rmul__ = SF.__rmul__
    __truediv__ = SF.__truediv__
    __rtruediv__ = SF.__rtruediv__
    __pow__ = SF.__pow__
    __rpow__ = SF.__rpow__

    def __neg__(self):
        return SC(sc_neg(self.re), sc_neg(self.im))

    def __abs__(self):
        return sc_abs(self)

    def __eq__(self, o):
        return _bin(lambda a, b: sc_cmp(a, b, "=="), np.equal, self, o)

    def __ne__(self, o):
        return _bin(lambda a, b: sc_cmp(a, b, "!="), np.not_equal, self, o)

    def __bool__(self):
        return bool(_nz(self.re)) or bool(_nz(self.im))


def _nz(x):
    return sc_cmp(x, 0.0, "!=")


def _bin(f, uf, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if (isinstance(a, np.ndarray) and a.ndim) or (isinstance(b, np.ndarray) and b.ndim):
            return uf(a, b)
        if isinstance(a, np.ndarray):
            a = a[()]
        if isinstance(b, np.ndarray):
            b = b[()]
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return uf(np.asarray(a, dtype=object) if isinstance(a, (list, tuple)) else a,
                  np.asarray(b, dtype=object) if isinstance(b, (list, tuple)) else b)
    if not (isinstance(a, _SCALAR) and isinstance(b, _SCALAR)):
        return NotImplemented
    return f(a, b)


_SCALAR = NUM + (complex, np.complexfloating, SF, SC)


def isnp(x):
    if isinstance(x, SF):
        return x.np_
    if isinstance(x, SC):
        return True
    return isinstance(x, np.generic)


def _cx(x):
    return isinstance(x, (SC, complex, np.complexfloating))


def _parts(x):
    if isinstance(x, SC):
        return x.re, x.im
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.real), float(x.imag)
    return x, 0.0


def mkc(re, im):
    if not is_sym(re) and not is_sym(im):
        return np.complex128(complex(float(re), float(im)))
    return SC(re, im)


def poly(x):
    if isinstance(x, SF):
        return x.p
    return t.const(float(x))


def _conc2(uf, a, b):
    with np.errstate(all="ignore"):
        if isnp(a) or isnp(b):
            return uf(a, b)
    return None


def sc_add(a, b):
    if _cx(a) or _cx(b):
        (ar, ai), (br, bi) = _parts(a), _parts(b)
        return mkc(sc_add(ar, br), sc_add(ai, bi))
    sa, sb = is_sym(a), is_sym(b)
    if not (sa or sb):
        with np.errstate(all="ignore"):
            return a + b
    if not sa and not _fin(a):
        return np.float64(a)
    if not sb and not _fin(b):
        return np.float64(b)
    return wrap(t.add(poly(a), poly(b)), isnp(a) or isnp(b))


def sc_neg(a):
    if isinstance(a, SC):
        return SC(sc_neg(a.re), sc_neg(a.im))
    if isinstance(a, SF):
        return SF(t.scale(a.p, -1.0), a.np_)
    if isinstance(a, (bool, np.bool_)):
        raise TypeError("negative of boolean")
    return -a


def sc_sub(a, b):
    if _cx(a) or _cx(b):
        (ar, ai), (br, bi) = _parts(a), _parts(b)
        return mkc(sc_sub(ar, br), sc_sub(ai, bi))
    sa, sb = is_sym(a), is_sym(b)
    if not (sa or sb):
        with np.errstate(all="ignore"):
            return a - b
    if not sa and not _fin(a):
        return np.float64(a)
    if not sb and not _fin(b):
        return np.float64(-b)
    return wrap(t.add(poly(a), poly(b), -1.0), isnp(a) or isnp(b))


def sign_of(p):
    """-1, 0, 1 by deciding"""
    if _decide(p, "=="):
        return 0
    return 1 if _decide(p, ">") else -1


def sc_mul(a, b):
    if _cx(a) or _cx(b):
        (ar, ai), (br, bi) = _parts(a), _parts(b)
        if not _cx(a):
            return mkc(sc_mul(ar, br), sc_mul(ar, bi))
        if not _cx(b):
            return mkc(sc_mul(ar, br), sc_mul(ai, br))
        return mkc(sc_sub(sc_mul(ar, br), sc_mul(ai, bi)), sc_add(sc_mul(ar, bi), sc_mul(ai, br)))
    sa, sb = is_sym(a), is_sym(b)
    if not (sa or sb):
        with np.errstate(all="ignore"):
            return a * b
    for x, y in ((a, b), (b, a)):
        if not is_sym(x) and not _fin(x):
            if x != x:
                return NAN
            s = sign_of(y.p)
            return NAN if s == 0 else np.float64(x * s)
    return wrap(t.mul(poly(a), poly(b)), isnp(a) or isnp(b))


def sc_div(a, b):
    if _cx(b):
        br, bi = _parts(b)
        d = sc_add(sc_mul(br, br), sc_mul(bi, bi))
        num = sc_mul(a, mkc(br, sc_neg(bi)))
        re, im = _parts(num)
        return mkc(sc_div(re, d), sc_div(im, d))
    if _cx(a):
        ar, ai = _parts(a)
        return mkc(sc_div(ar, b), sc_div(ai, b))
    sa, sb = is_sym(a), is_sym(b)
    np_ = isnp(a) or isnp(b)
    if not (sa or sb):
        with np.errstate(all="ignore"):
            if np_:
                return np.true_divide(a, b)
            return a / b
    if not sb:
        if b == 0:
            if not np_:
                raise ZeroDivisionError("float division by zero")
            s = sign_of(a.p)
            return NAN if s == 0 else np.float64(s * math.copysign(math.inf, b))
        if b != b:
            return NAN
        if not _fin(b):
            return np.float64(0.0)
        return wrap(t.scale(a.p, 1.0 / float(b)), np_)
    if not sa and not _fin(a):
        if a != a:
            return NAN
        return np.float64(a * (sign_of(b.p) or 1))
    if _decide(b.p, "=="):
        if not np_:
            raise ZeroDivisionError("float division by zero")
        s = (0 if a == 0 else (1 if a > 0 else -1)) if not sa else sign_of(a.p)
        return NAN if s == 0 else np.float64(s * math.inf)
    if not sa and a == 0:
        return np.float64(0.0) if np_ else 0.0
    return wrap(t.mul(poly(a), t.power(b.p, -1)), np_)


def sc_pow(a, b):
    if isinstance(a, SC):
        if isinstance(b, NUM) and float(b) == int(b) and 0 <= int(b) <= 8:
            r = np.float64(1.0)
            for _ in range(int(b)):
                r = sc_mul(r, a)
            return r
        raise Unsupported("complex power")
    sa, sb = is_sym(a), is_sym(b)
    np_ = isnp(a) or isnp(b)
    if not (sa or sb):
        with np.errstate(all="ignore"):
            if np_ and not _cx(a) and not _cx(b):
                return np.power(float(a), float(b))
            return a ** b
    if sb:
        if not sa:
            if a > 0 and _fin(a):
                return sc_exp(sc_mul(b, math.log(float(a))), np_)
            raise Unsupported("power with symbolic exponent")
        if _decide(a.p, ">"):
            return sc_exp(sc_mul(b, sc_log(a)), np_)
        raise Unsupported("power with symbolic exponent of non-positive base")
    q = float(b)
    if q == 0.0:
        return np.float64(1.0) if np_ else 1.0
    if not _fin(q):
        raise Unsupported("infinite exponent")
    f = t.as_frac(q)
    if f is not None and f.denominator == 1:
        if f < 0 and _decide(a.p, "=="):
            if not np_:
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            return PINF
        return wrap(t.power(a.p, int(f)), np_)
    return _fracpow(a, q, np_)


def _dom_neg(p):
    """is p < 0 (domain of a root)?  with optional rounding slack"""
    return _slack(p, "<")


def _slack(p, op):
    """domain test p<0 / p>0 that, in rounding mode, may also fail within slack"""
    e = C.eng()
    r = e.quick(p, op)
    if r is not None:
        return r
    if e.fp_slack:
        # exact arithmetic says p can touch 0: rounding may push it over
        k = e.fp_slack if op == "<" else -e.fp_slack
        q = t.add(p, t.const(k), -1.0)
        if e.decide(q, op):
            if e.decide(p, op):
                return True
            e.notes.append("rounding")
            return e.fork_free()
        return False
    return e.decide(p, op)


def _fracpow(a, q, np_=True):
    if _dom_neg(a.p):
        if not np_:
            raise Unsupported("complex result of a python power")
        return NAN
    if q < 0 and _decide(a.p, "=="):
        if not np_:
            raise ZeroDivisionError
        return PINF
    return wrap(t.power(a.p, q), np_)


def sc_sqrt(a, np_=True):
    if isinstance(a, SC):
        raise Unsupported("complex sqrt")
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return np.sqrt(float(a)) if not _cx(a) else np.sqrt(a)
    return _fracpow(a, 0.5, np_)


def sc_cbrt(a):
    if not is_sym(a):
        return np.cbrt(float(a))
    if _decide(a.p, ">="):
        return _fracpow(a, 1.0 / 3.0)
    return sc_neg(_fracpow(sc_neg(a), 1.0 / 3.0))


def sc_exp(a, np_=True):
    if _cx(a):
        re, im = _parts(a)
        m = sc_exp(re)
        return mkc(sc_mul(m, sc_cos(im)), sc_mul(m, sc_sin(im)))
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return np.exp(float(a))
    return wrap(t.exp(a.p), np_)


def sc_expm1(a):
    return sc_sub(sc_exp(a), 1.0)


def sc_log(a):
    if _cx(a):
        raise Unsupported("complex log")
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return np.log(float(a))
    if _decide(a.p, "<="):
        if _decide(a.p, "=="):
            return np.float64(-math.inf)
        return NAN
    return wrap(t.log(a.p), True)


def sc_log10(a):
    r = sc_log(a)
    if not is_sym(r):
        return np.float64(r / math.log(10.0)) if is_sym(a) else _log10(a)
    return wrap(t.scale(r.p, 1.0 / math.log(10.0)))


def _log10(a):
    with np.errstate(all="ignore"):
        return np.log10(float(a))


def sc_log2(a):
    r = sc_log(a)
    return sc_mul(r, 1.0 / math.log(2.0))


def sc_log1p(a):
    return sc_log(sc_add(a, 1.0))


def _un(fn, real):
    def g(a):
        if isinstance(a, SC):
            raise Unsupported("complex " + real.__name__)
        if not is_sym(a):
            with np.errstate(all="ignore"):
                return real(a if _cx(a) else float(a))
        return wrap(fn(a.p), True)
    return g


sc_sin = _un(t.sin, np.sin)
sc_cos = _un(t.cos, np.cos)
sc_atan = _un(t.atan, np.arctan)


def sc_tan(a):
    if not is_sym(a):
        return np.tan(float(a))
    c = sc_cos(a)
    return sc_div(sc_sin(a), c)


def _acos_dom(a):
    """True when out of [-1, 1]"""
    up = t.add(a.p, t.ONE, -1.0)
    lo = t.add(a.p, t.ONE)
    return _slack(up, ">") or _slack(lo, "<")


def sc_acos(a):
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return np.arccos(float(a))
    if _acos_dom(a):
        return NAN
    return wrap(t.acos(a.p))


def sc_asin(a):
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return np.arcsin(float(a))
    if _acos_dom(a):
        return NAN
    return wrap(t.asin(a.p))


def sc_sinh(a):
    return sc_mul(sc_sub(sc_exp(a), sc_exp(sc_neg(a))), 0.5)


def sc_cosh(a):
    return sc_mul(sc_add(sc_exp(a), sc_exp(sc_neg(a))), 0.5)


def sc_tanh(a):
    e = sc_exp(sc_mul(a, 2.0))
    return sc_div(sc_sub(e, 1.0), sc_add(e, 1.0))


def sc_atan2(y, x):
    if not is_sym(y) and not is_sym(x):
        return np.arctan2(float(y), float(x))
    if sc_cmp(x, 0.0, ">"):
        return sc_atan(sc_div(y, np.float64(x) if not is_sym(x) else x))
    if sc_cmp(x, 0.0, "<"):
        r = sc_atan(sc_div(y, x))
        return sc_add(r, math.pi) if sc_cmp(y, 0.0, ">=") else sc_sub(r, math.pi)
    if sc_cmp(y, 0.0, "=="):
        return np.float64(0.0)
    return np.float64(math.pi / 2 if sc_cmp(y, 0.0, ">") else -math.pi / 2)


def sc_hypot(a, b):
    return sc_sqrt(sc_add(sc_mul(a, a), sc_mul(b, b)))


def sc_abs(a):
    if _cx(a):
        if not is_sym(a):
            return np.float64(abs(a))
        re, im = _parts(a)
        if not is_sym(im) and im == 0:
            return sc_abs(re)
        q = sc_add(sc_mul(re, re), sc_mul(im, im))
        if is_sym(q) and t.iv(q.p)[0] < 0:
            return wrap(t.root_of_squares(q.p), True)  # a sum of squares needs no domain check
        return sc_sqrt(q)
    if not is_sym(a):
        return abs(a)
    return wrap(_abs_poly(a.p), a.np_)


def sc_cmp(a, b, op):
    if _cx(a) or _cx(b):
        (ar, ai), (br, bi) = _parts(a), _parts(b)
        if op == "==":
            return bool(sc_cmp(ar, br, "==")) and bool(sc_cmp(ai, bi, "=="))
        if op == "!=":
            return not (bool(sc_cmp(ar, br, "==")) and bool(sc_cmp(ai, bi, "==")))
        raise Unsupported("complex comparison")
    sa, sb = is_sym(a), is_sym(b)
    if not (sa or sb):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    for x, sgn in ((a, 1), (b, -1)):
        if not is_sym(x) and not _fin(x):
            if x != x:
                return op == "!="
            big = (x > 0) == (sgn > 0)  # a-b > 0 ?
            return {"<": not big, "<=": not big, ">": big, ">=": big, "==": False, "!=": True}[op]
    d = t.add(poly(a), poly(b), -1.0)
    r = _decide(d, op)
    return np.bool_(r) if (isnp(a) or isnp(b)) else bool(r)


def _decide_eq(a, b):
    return sc_cmp(a, b, "==")


def _integral(p):
    """a sum of floors with whole coefficients"""
    for mono, c in p.d.items():
        if c != math.floor(c):
            return False
        for i, e in mono:
            at = t.T.atoms[i]
            if at.kind != "f" or at.fn != "floor" or e != 1:
                return False
    return True


def sc_floor(a):
    if not is_sym(a):
        return np.floor(float(a))
    if _integral(a.p):
        return a
    lo, hi = t.iv(a.p)
    if hi - lo <= 8 and math.isfinite(lo) and math.isfinite(hi):
        k = math.floor(lo)
        while k < math.floor(hi):
            if _decide(t.add(a.p, t.const(k + 1), -1.0), "<"):
                return np.float64(k)
            k += 1
        return np.float64(k)
    return wrap(t.app("floor", (a.p,)))


def sc_ceil(a):
    return sc_neg(sc_floor(sc_neg(a)))


def sc_trunc(a):
    if not is_sym(a):
        return np.trunc(float(a))
    if sc_cmp(a, 0.0, ">="):
        return sc_floor(a)
    return sc_ceil(a)


def sc_rint(a, n=0):
    if not is_sym(a):
        return np.round(float(a), n)
    if n:
        return sc_div(sc_rint(sc_mul(a, 10.0 ** n)), 10.0 ** n)
    # half-to-even differs from floor(x+1/2) only on exact ties
    k = sc_floor(sc_add(a, 0.5))
    if not is_sym(k):
        if int(k) % 2 == 1 and sc_cmp(a, float(k) - 0.5, "=="):
            return np.float64(k - 1)
        return k
    return k


def sc_int(a):
    """int() of a value; forks over integers in a narrow range, stays symbolic in a wide one"""
    r = sc_trunc(a)
    return r if is_sym(r) else int(r)


def sc_floordiv(a, b):
    return sc_floor(sc_div(a, b))


def sc_mod(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return a % b
    return sc_sub(a, sc_mul(b, sc_floor(sc_div(a, b))))


def sc_max(a, b):
    for x in (a, b):
        if not is_sym(x) and x != x:
            return NAN
    if not is_sym(a) and not is_sym(b):
        return np.maximum(a, b)
    return a if sc_cmp(a, b, ">=") else b


def sc_min(a, b):
    for x in (a, b):
        if not is_sym(x) and x != x:
            return NAN
    if not is_sym(a) and not is_sym(b):
        return np.minimum(a, b)
    return a if sc_cmp(a, b, "<=") else b


def sc_clip(a, lo, hi):
    r = a
    if lo is not None:
        r = sc_max(r, lo)
    if hi is not None:
        r = sc_min(r, hi)
    return r


def sc_sign(a):
    if not is_sym(a):
        return np.sign(a)
    return np.float64(sign_of(a.p))


def sc_sinc(a):
    """numpy.sinc: 1 at 0, else sin(pi x)/(pi x)"""
    if not is_sym(a):
        return np.sinc(float(a))
    if _decide(a.p, "=="):
        return np.float64(1.0)
    x = sc_mul(a, math.pi)
    return sc_div(sc_sin(x), x)


def sc_jn(n, x):
    from scipy.special import jn
    if not is_sym(x):
        return jn(n, x)
    if is_sym(n):
        raise Unsupported("Bessel order")
    n = int(n)
    p = x.p
    s = 1.0
    if t._neglead(p):
        p = t.scale(p, -1.0)
        s = -1.0 if n % 2 else 1.0
    return wrap(t.scale(t.app("jn", (p,), n), s))


def mkarr(lst):
    a = np.empty(len(lst), dtype=object)
    for i, x in enumerate(lst):
        a[i] = x
    return a.view(SymArray)


class SymArray(np.ndarray):
    """object ndarray whose elements are SF/SC/numpy floats"""

    __array_priority__ = 900

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npmodel
        return npmodel.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npmodel
        return npmodel.array_function(func, args, kwargs)

    def _ix(self, k):
        if isinstance(k, tuple):
            return tuple(self._ix(x) for x in k)
        if isinstance(k, SymArray) or (isinstance(k, np.ndarray) and k.dtype == object):
            fl = k.ravel()
            if all(isinstance(x, (bool, np.bool_)) for x in fl):
                return np.array([bool(x) for x in fl], dtype=bool).reshape(k.shape)
            return np.array([int(x) for x in fl], dtype=int).reshape(k.shape)
        if isinstance(k, SF):
            return int(k)
        return k

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, self._ix(k))
        if isinstance(r, np.ndarray) and not isinstance(r, SymArray):
            r = r.view(SymArray)
        if isinstance(r, float) and not isinstance(r, np.generic):
            r = np.float64(r)
        return r

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.dtype != object and v.ndim:
            v = tosym(v)
        np.ndarray.__setitem__(self, self._ix(k), v)

    def astype(self, dt, *a, **k):
        from . import npmodel
        return npmodel.cast_array(self, dt)

    def _red(self, name, axis=None, dtype=None, out=None, keepdims=False, **k):
        from . import npmodel
        return npmodel.array_ufunc(getattr(np, name), "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red("add", axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red("multiply", axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return self._red("maximum", axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return self._red("minimum", axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        return self._red("add", axis, keepdims=keepdims) / np.float64(n)

    def cumsum(self, axis=None, **k):
        x = self.ravel() if axis is None else self
        from . import npmodel
        return npmodel.array_ufunc(np.add, "accumulate", (x,), dict(axis=0 if axis is None else axis))

    def cumprod(self, axis=None, **k):
        x = self.ravel() if axis is None else self
        from . import npmodel
        return npmodel.array_ufunc(np.multiply, "accumulate", (x,), dict(axis=0 if axis is None else axis))

    def var(self, axis=None, ddof=0, **k):
        m = self.mean(axis=axis, keepdims=True) if axis is not None else self.mean()
        d = self - m
        n = (self.size if axis is None else self.shape[axis]) - ddof
        return (d * d).sum(axis=axis) / np.float64(n)

    def std(self, axis=None, ddof=0, **k):
        return np.sqrt(self.var(axis=axis, ddof=ddof))

    def clip(self, min=None, max=None, out=None, **k):
        from . import npmodel
        return npmodel.array_function(np.clip, (self, min, max), {})

    def round(self, decimals=0, out=None):
        return _map(lambda x: sc_rint(x, decimals), self)

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def dot(self, o):
        return np.dot(self, o)

    @property
    def real(self):
        return _map(lambda x: _parts(x)[0], self)

    @real.setter
    def real(self, v):
        raise Unsupported("real setter")

    @property
    def imag(self):
        return _map(lambda x: _parts(x)[1], self)

    def tolist(self):
        return np.ndarray.tolist(self.view(np.ndarray))

    def item(self, *a):
        return np.ndarray.item(self.view(np.ndarray), *a)

    def nonzero(self):
        return _bools(self).nonzero()

    def any(self, axis=None, **k):
        return _bools(self).any(axis=axis)

    def all(self, axis=None, **k):
        return _bools(self).all(axis=axis)

    def sort(self, axis=-1, **k):
        plain = self.view(np.ndarray)
        plain.sort(axis=axis)

    def tobytes(self, *a, **k):
        raise NeedConcrete("bytes of a symbolic array")


def _bools(a):
    return np.array([bool(x) for x in a.ravel()], dtype=bool).reshape(a.shape)


def _map(f, a):
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    for i, x in enumerate(a.reshape(-1).view(np.ndarray)):
        of[i] = f(x)
    return out.view(SymArray)


def tosym(a):
    """any array-like -> SymArray with numpy-kind elements"""
    if isinstance(a, SymArray):
        return a
    a = np.asarray(a)
    if a.dtype == object:
        return _map(npkind, a)
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    fl = a.reshape(-1)
    if a.dtype.kind in "fiu":
        for i in range(fl.size):
            of[i] = np.float64(fl[i])
    else:
        for i in range(fl.size):
            of[i] = fl[i]
    return out.view(SymArray)


def npkind(x):
    if isinstance(x, SF):
        return x if x.np_ else SF(x.p, True)
    if isinstance(x, SC):
        return x
    if isinstance(x, (bool, np.bool_)):
        return np.bool_(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return np.float64(x)
    if isinstance(x, (complex, np.complexfloating)):
        return np.complex128(x)
    return x


def has_sym(a):
    if isinstance(a, (SF, SC)):
        return True
    if isinstance(a, np.ndarray) and a.dtype == object:
        return any(isinstance(x, (SF, SC)) for x in a.reshape(-1).view(np.ndarray))
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def demote(a):
    """concrete SymArray -> ordinary float/complex/bool ndarray (None if symbolic)"""
    if isinstance(a, np.ndarray) and a.dtype == object:
        fl = list(a.reshape(-1).view(np.ndarray))
        if any(isinstance(x, (SF, SC)) for x in fl):
            return None
        try:
            if fl and all(isinstance(x, (bool, np.bool_)) for x in fl):
                return np.array([bool(x) for x in fl], dtype=bool).reshape(a.shape)
            if any(_cx(x) for x in fl):
                return np.array([complex(x) for x in fl], dtype=complex).reshape(a.shape)
            return np.array([float(x) for x in fl], dtype=float).reshape(a.shape)
        except (TypeError, ValueError):
            return None
    return a
