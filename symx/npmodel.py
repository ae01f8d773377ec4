"""Models of the numpy / math / scipy / cv2 operations the code under test uses."""
from __future__ import annotations

import builtins
import math
import sys

import numpy as np

from . import terms as t
from . import values as V
from .values import (SF, SC, SymArray, NeedConcrete, tosym, has_sym, demote, mkarr, _map, is_sym, npkind)
from .terms import Unsupported

# ------------------------------------------------------------------ ufuncs
UF = {
    "add": V.sc_add, "subtract": V.sc_sub, "multiply": V.sc_mul, "divide": V.sc_div, "true_divide": V.sc_div,
    "power": V.sc_pow, "float_power": V.sc_pow, "floor_divide": V.sc_floordiv, "remainder": V.sc_mod, "fmod": V.sc_mod,
    "negative": V.sc_neg, "positive": lambda a: a, "absolute": V.sc_abs, "fabs": V.sc_abs,
    "sqrt": V.sc_sqrt, "cbrt": V.sc_cbrt, "square": lambda a: V.sc_mul(a, a),
    "reciprocal": lambda a: V.sc_div(np.float64(1.0), a),
    "exp": V.sc_exp, "exp2": lambda a: V.sc_exp(V.sc_mul(a, math.log(2.0))), "expm1": V.sc_expm1,
    "log": V.sc_log, "log10": V.sc_log10, "log2": V.sc_log2, "log1p": V.sc_log1p,
    "sin": V.sc_sin, "cos": V.sc_cos, "tan": V.sc_tan,
    "arcsin": V.sc_asin, "arccos": V.sc_acos, "arctan": V.sc_atan, "arctan2": V.sc_atan2,
    "sinh": V.sc_sinh, "cosh": V.sc_cosh, "tanh": V.sc_tanh, "hypot": V.sc_hypot,
    "maximum": V.sc_max, "minimum": V.sc_min,
    "fmax": lambda a, b: b if _isnan(a) else a if _isnan(b) else V.sc_max(a, b),
    "fmin": lambda a, b: b if _isnan(a) else a if _isnan(b) else V.sc_min(a, b),
    "sign": V.sc_sign, "floor": V.sc_floor, "ceil": V.sc_ceil, "trunc": V.sc_trunc, "rint": V.sc_rint,
    "conjugate": lambda a: a.conjugate() if V._cx(a) else a,
    "degrees": lambda a: V.sc_mul(a, 180.0 / math.pi), "rad2deg": lambda a: V.sc_mul(a, 180.0 / math.pi),
    "radians": lambda a: V.sc_mul(a, math.pi / 180.0), "deg2rad": lambda a: V.sc_mul(a, math.pi / 180.0),
    "copysign": lambda a, b: V.sc_abs(a) if V.sc_cmp(b, 0.0, ">=") else V.sc_neg(V.sc_abs(a)),
    "heaviside": lambda a, b: b if V.sc_cmp(a, 0.0, "==") else np.float64(1.0 if V.sc_cmp(a, 0.0, ">") else 0.0),
}
PRED = {
    "less": lambda a, b: V.sc_cmp(a, b, "<"), "less_equal": lambda a, b: V.sc_cmp(a, b, "<="),
    "greater": lambda a, b: V.sc_cmp(a, b, ">"), "greater_equal": lambda a, b: V.sc_cmp(a, b, ">="),
    "equal": lambda a, b: V.sc_cmp(a, b, "=="), "not_equal": lambda a, b: V.sc_cmp(a, b, "!="),
    "isnan": lambda a: _isnan(a), "isinf": lambda a: (not is_sym(a)) and bool(np.isinf(a)),
    "isfinite": lambda a: is_sym(a) or bool(np.isfinite(a)),
    "signbit": lambda a: V.sc_cmp(a, 0.0, "<"),
    "logical_and": lambda a, b: bool(a) and bool(b), "logical_or": lambda a, b: bool(a) or bool(b),
    "logical_not": lambda a: not bool(a), "logical_xor": lambda a, b: bool(a) != bool(b),
}
REDUCE_INIT = {"add": np.float64(0.0), "multiply": np.float64(1.0)}


def _isnan(a):
    return (not is_sym(a)) and bool(a != a)


def _scal(x):
    return isinstance(x, (SF, SC)) or not isinstance(x, (np.ndarray, list, tuple))


def array_ufunc(uf, method, inputs, kw):
    name = uf.__name__
    kw = dict(kw)
    out = kw.pop("out", None)
    if method == "__call__":
        where = kw.pop("where", True)
        inputs = [np.array(list(x), dtype=object) if isinstance(x, (list, tuple)) else x for x in inputs]
        if name == "matmul":
            return _matmul(*inputs)
        if name in ("modf", "divmod"):
            f = V.sc_floor if name == "divmod" else V.sc_trunc
            if name == "modf":
                q = array_ufunc(np.trunc, "__call__", inputs, {})
                return inputs[0] - q, q
            q = array_ufunc(np.floor_divide, "__call__", inputs, {})
            return q, array_ufunc(np.remainder, "__call__", inputs, {})
        f = UF.get(name) or PRED.get(name)
        pred = name in PRED
        if f is None:
            if hasattr(uf, "pyfunc") or "vectorized" in name or uf.__class__.__name__ != "ufunc":
                f = None
            conc = [demote(x) if isinstance(x, np.ndarray) else x for x in inputs]
            if not any(c is None for c in conc) and not any(has_sym(c) for c in conc):
                return _finish(uf(*conc, **kw), out)
            if name in ("bitwise_and", "bitwise_or", "invert", "bitwise_xor"):
                raise Unsupported("bit operation on symbolic value")
            if name.endswith("(vectorized)"):
                arrs = [np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x.view(np.ndarray) for x in inputs]
                r = uf(*arrs)
                return r.view(SymArray) if isinstance(r, np.ndarray) else r
            if name.startswith("jv"):
                f = V.sc_jn
            else:
                raise NeedConcrete("ufunc " + name)
        if all(_scal(x) for x in inputs) and out is None:
            r = f(*[npkind(x) for x in inputs])
            return np.bool_(r) if pred else r
        if all(not has_sym(x) for x in inputs) and where is True:
            conc = [demote(x) if isinstance(x, np.ndarray) else x for x in inputs]
            if not any(c is None for c in conc):
                try:
                    with np.errstate(all="ignore"):
                        return _finish(uf(*conc), out, pred)
                except TypeError:
                    pass
        arrs = [_oarr(x) for x in inputs]
        b = np.broadcast(*arrs)
        o = out[0] if isinstance(out, tuple) else out
        if where is not True:
            w = np.broadcast_to(V._bools(where) if isinstance(where, SymArray) else np.asarray(where, dtype=bool), b.shape).ravel()
        else:
            w = None
        if pred and o is None:
            res = np.empty(b.shape, dtype=bool)
        else:
            res = np.empty(b.shape, dtype=object)
        rf = res.reshape(-1)
        oldf = None
        if w is not None:
            oldf = tosym(np.broadcast_to(o, b.shape)).ravel() if o is not None else [V.NAN] * b.size
        big = b.size > 64
        e = V.C.ENG
        if big and e is not None:
            e.big += 1
        i = 0
        for tup in b:
            if w is not None and not w[i]:
                rf[i] = oldf[i]
            else:
                rf[i] = f(*tup)
            i += 1
        if big and e is not None:
            e.big -= 1
        return _finish(res, out, pred)
    if method == "reduce":
        return _finish(_reduce(uf, name, inputs[0], kw), out)
    if method == "accumulate":
        a = inputs[0]
        axis = kw.get("axis", 0)
        a = np.moveaxis(a.view(np.ndarray) if isinstance(a, SymArray) else a, axis, 0)
        f = UF[name]
        outp = np.empty(a.shape, dtype=object)
        acc = None
        for i in range(a.shape[0]):
            acc = a[i] if acc is None else array_ufunc(uf, "__call__", (tosym(acc) if isinstance(acc, np.ndarray) else acc, tosym(a[i]) if isinstance(a[i], np.ndarray) else a[i]), {})
            outp[i] = acc
        return _finish(np.moveaxis(outp, 0, axis), out)
    if method == "outer":
        a, b = (x if isinstance(x, np.ndarray) else np.asarray(x, dtype=object) for x in inputs)
        return array_ufunc(uf, "__call__", (tosym(a.reshape(a.shape + (1,) * b.ndim)), tosym(b)), {})
    if method == "at":
        a, idx = inputs[0], inputs[1]
        idx = np.asarray(idx)
        vals = inputs[2] if len(inputs) > 2 else None
        f = UF[name]
        for j, k in enumerate(idx.ravel()):
            v = (vals.ravel()[j % vals.size] if isinstance(vals, np.ndarray) else vals)
            a[k] = f(a[k], v) if vals is not None else f(a[k])
        return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


def _oarr(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return tosym(x).view(np.ndarray)
    a = np.empty((), dtype=object)
    a[()] = npkind(x)
    return a


def _finish(res, out, pred=False):
    if isinstance(res, np.ndarray) and not pred and res.dtype != bool:
        res = tosym(res) if res.dtype != object else res.view(SymArray)
    if isinstance(res, SymArray) and res.ndim == 0:
        res = np.ndarray.__getitem__(res, ())
    o = out[0] if isinstance(out, tuple) else out
    if o is not None:
        if o.dtype != object and has_sym(res):
            raise NeedConcrete("out= into a float array")
        o[...] = res
        return o
    return res


def _reduce(uf, name, a, kw):
    axis = kw.get("axis", 0)
    keep = kw.get("keepdims", False)
    where = kw.get("where", True)
    init = kw.get("initial", None)
    if init is np._NoValue:
        init = None
    if isinstance(a, (SF, SC)):
        return a
    if not has_sym(a) and where is True and init is None:
        c = demote(a)
        if c is not None:
            return uf.reduce(c, axis=axis, keepdims=keep)
    a = a.view(np.ndarray)
    if isinstance(axis, list):
        axis = tuple(axis)
    if axis is None:
        ax = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        ax = tuple(x % a.ndim for x in axis)
    else:
        ax = (axis % a.ndim,)
    rest = [i for i in range(a.ndim) if i not in ax]
    b = np.transpose(a, rest + list(ax)).reshape([a.shape[i] for i in rest] + [-1])
    if where is not True:
        w = np.broadcast_to(np.asarray(where, dtype=bool), a.shape)
        w = np.transpose(w, rest + list(ax)).reshape(b.shape)
    shp = b.shape[:-1]
    n = b.shape[-1]
    res = np.empty(shp, dtype=object)
    rf = res.reshape(-1) if res.ndim else None
    flat = b.reshape(-1, n) if n or b.size else np.empty((int(np.prod(shp)), 0), dtype=object)
    wf = w.reshape(-1, n) if where is not True else None
    for i in range(flat.shape[0]):
        row = list(flat[i])
        if wf is not None:
            row = [x for x, k in zip(row, wf[i]) if k]
        v = _red1(name, row, init)
        if rf is None:
            res[()] = v
        else:
            rf[i] = v
    if keep:
        res = res.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
        return res.view(SymArray)
    if res.ndim == 0:
        return res[()]
    if name in ("logical_and", "logical_or"):
        return res.astype(bool)
    return res.view(SymArray)


def _red1(name, row, init):
    if init is not None:
        row = [init] + row
    if name == "add":
        if not row:
            return np.float64(0.0)
        if any(V._cx(x) for x in row):
            ps = [V._parts(x) for x in row]
            return V.mkc(_red1("add", [p[0] for p in ps], None), _red1("add", [p[1] for p in ps], None))
        if any(isinstance(x, (bool, np.bool_)) for x in row) and not any(is_sym(x) for x in row):
            return sum(row)
        bad = [x for x in row if not is_sym(x) and not math.isfinite(x)]
        if bad:
            return np.float64(sum(bad))
        return V.wrap(t.addn([V.poly(x) for x in row]), True)
    if name == "logical_and":
        for x in row:
            if not bool(x):
                return False
        return True
    if name == "logical_or":
        for x in row:
            if bool(x):
                return True
        return False
    if not row:
        if name == "multiply":
            return np.float64(1.0)
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    f = UF[name]
    acc = row[0]
    for x in row[1:]:
        acc = f(acc, x)
    return acc


def _matmul(a, b):
    a = _oarr(a) if not isinstance(a, np.ndarray) else a.view(np.ndarray)
    b = _oarr(b) if not isinstance(b, np.ndarray) else b.view(np.ndarray)
    a, b = tosym(a).view(np.ndarray), tosym(b).view(np.ndarray)
    va = a.ndim == 1
    vb = b.ndim == 1
    if va:
        a = a[None, :]
    if vb:
        b = b[:, None]
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("matmul of stacked matrices")
    if a.shape[1] != b.shape[0]:
        raise ValueError("matmul: mismatch in core dimension")
    r = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            r[i, j] = _red1("add", [V.sc_mul(x, y) for x, y in zip(a[i], b[:, j])], None)
    if va and vb:
        return r[0, 0]
    if va:
        r = r[0]
    if vb:
        r = r[..., 0]
    return r.view(SymArray)


# -------------------------------------------------------------- array functions
AF = {}


def af(*fs):
    def deco(g):
        for f in fs:
            AF[f] = g
        return g
    return deco


RAWOBJ = {np.concatenate, np.vstack, np.hstack, np.stack, np.column_stack, np.dstack, np.moveaxis, np.transpose, np.reshape, np.ravel,
          np.squeeze, np.expand_dims, np.broadcast_to, np.atleast_1d, np.atleast_2d, np.swapaxes, np.repeat,
          np.tile, np.flip, np.fliplr, np.flipud, np.rot90, np.roll, np.append, np.insert, np.delete,
          np.diag, np.diagonal, np.copy, np.take, np.broadcast_arrays, np.split, np.array_split, np.tril, np.triu,
          np.meshgrid, np.pad, np.resize, np.compress, np.fft.fftshift, np.fft.ifftshift, np.ndim, np.shape, np.size, np.sort, np.argsort,
          np.argmax, np.argmin, np.lexsort, np.searchsorted, np.array_split, np.hsplit, np.vsplit, np.block, np.take_along_axis,
          np.trace, np.partition, np.rollaxis, np.extract, np.diagflat, np.unravel_index, np.row_stack, np.choose}


def _raw(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (SF, SC)):
        a = np.empty((), dtype=object)
        a[()] = npkind(x)
        return a
    if isinstance(x, tuple):
        return tuple(_raw(y) for y in x)
    if isinstance(x, list):
        return [_raw(y) for y in x]
    return x


def _wrapout(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.ndim == 0:
            return npkind(r[()])
        return _map(npkind, r)
    if isinstance(r, tuple):
        return tuple(_wrapout(x) for x in r)
    if isinstance(r, list):
        return [_wrapout(x) for x in r]
    return r


def array_function(func, args, kwargs):
    h = AF.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func in RAWOBJ:
        return _wrapout(func(*_raw(args), **{k: _raw(v) for k, v in kwargs.items()}))
    conc = _demote_all(args)
    ck = {k: _demote_all(v) for k, v in kwargs.items()}
    if not has_symdeep(conc) and not has_symdeep(list(ck.values())):
        r = func(*conc, **ck)
        return r
    impl = getattr(func, "_implementation", None) or getattr(func, "__wrapped__", None)
    if impl is None:
        raise NeedConcrete("numpy." + getattr(func, "__name__", str(func)))
    try:
        import types
        if not isinstance(impl, types.FunctionType):
            raise NeedConcrete("numpy." + func.__name__)
        return impl(*args, **kwargs)
    except (NeedConcrete, Unsupported):
        raise


def _demote_all(x):
    if isinstance(x, np.ndarray):
        d = demote(x)
        return x if d is None else d
    if isinstance(x, tuple):
        return tuple(_demote_all(y) for y in x)
    if isinstance(x, list):
        return [_demote_all(y) for y in x]
    return x


def has_symdeep(x):
    if isinstance(x, (list, tuple)):
        return any(has_symdeep(y) for y in x)
    return has_sym(x)


def _asarr(x):
    if isinstance(x, np.ndarray):
        return tosym(x)
    if isinstance(x, (SF, SC)):
        a = np.empty((), dtype=object)
        a[()] = npkind(x)
        return a.view(SymArray)
    if isinstance(x, (list, tuple)):
        return m_array(x)
    return tosym(np.asarray(x))


@af(np.nan_to_num)
def m_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def g(v):
        if is_sym(v):
            return v
        return np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
    if isinstance(x, (SF, SC)):
        return x
    r = _map(g, _asarr(x))
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


@af(np.where)
def m_where(cond, *xy):
    c = cond
    if isinstance(c, SymArray):
        c = V._bools(c)
    elif isinstance(c, SF):
        c = bool(c)
    if not xy:
        return np.where(c)
    x, y = xy
    b = np.broadcast(np.asarray(c), _oarr(x), _oarr(y))
    cb = np.broadcast_to(c, b.shape).ravel()
    xb = np.broadcast_to(_oarr(x), b.shape).ravel()
    yb = np.broadcast_to(_oarr(y), b.shape).ravel()
    out = np.empty(b.shape, dtype=object)
    of = out.reshape(-1)
    for i in range(b.size):
        of[i] = xb[i] if cb[i] else yb[i]
    if out.ndim == 0:
        return mk0(out[()])
    return out.view(SymArray)


def mk0(x):
    return x


@af(np.clip)
def m_clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get("min", a_min)
    a_max = kw.get("max", a_max)
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


@af(np.round, np.around)
def m_round(a, decimals=0, out=None):
    if _scal(a):
        return V.sc_rint(npkind(a), decimals)
    r = _map(lambda x: V.sc_rint(x, decimals), _asarr(a))
    if out is not None:
        out[...] = r
        return out
    return r


@af(np.fix)
def m_fix(a, out=None):
    return np.trunc(a)


@af(np.sinc)
def m_sinc(x):
    if _scal(x):
        return V.sc_sinc(npkind(x))
    return _map(V.sc_sinc, _asarr(x))


@af(np.real)
def m_real(x):
    return V._parts(x)[0] if _scal(x) else _map(lambda v: npkind(V._parts(v)[0]), _asarr(x))


@af(np.imag)
def m_imag(x):
    return V._parts(x)[1] if _scal(x) else _map(lambda v: npkind(V._parts(v)[1]), _asarr(x))


@af(np.real_if_close)
def m_ric(x, tol=100):
    if _scal(x):
        return x
    return x


@af(np.iscomplexobj)
def m_iscomplexobj(x):
    if isinstance(x, np.ndarray):
        return any(V._cx(v) for v in x.ravel())
    return V._cx(x)


@af(np.isreal)
def m_isreal(x):
    f = lambda v: not V._cx(v) or V._parts(v)[1] is not None and not is_sym(V._parts(v)[1]) and V._parts(v)[1] == 0  # noqa: E731
    if _scal(x):
        return f(x)
    return np.array([f(v) for v in x.ravel()], dtype=bool).reshape(x.shape)


@af(np.isrealobj)
def m_isrealobj(x):
    return not m_iscomplexobj(x)


@af(np.interp)
def m_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("periodic interp")
    xp = list(_asarr(xp).ravel())
    fp = list(_asarr(fp).ravel())
    if len(xp) == 0:
        raise ValueError("array of sample points is empty")
    if len(xp) != len(fp):
        raise ValueError("fp and xp are not of the same length.")
    lf = fp[0] if left is None else npkind(left)
    rt = fp[-1] if right is None else npkind(right)
    n = len(xp)

    def g(v):
        if _isnan(v):
            return v
        if V.sc_cmp(v, xp[-1], ">"):
            return rt
        if V.sc_cmp(v, xp[-1], "=="):
            return fp[-1]
        if V.sc_cmp(v, xp[0], "<"):
            return lf
        if n == 1:
            return fp[0]
        lo, hi = 0, n - 1  # invariant xp[lo] <= v < xp[hi]  (binary search as numpy)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if V.sc_cmp(v, xp[mid], ">="):
                lo = mid
            else:
                hi = mid
        if V.sc_cmp(v, xp[lo], "=="):
            return fp[lo]
        slope = V.sc_div(V.sc_sub(fp[lo + 1], fp[lo]), V.sc_sub(npkind(xp[lo + 1]), xp[lo]))
        return V.sc_add(V.sc_mul(slope, V.sc_sub(v, xp[lo])), fp[lo])
    if _scal(x):
        return g(npkind(x))
    return _map(g, _asarr(x))


@af(np.isclose)
def m_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    d = np.abs(np.subtract(a, b))
    return np.less_equal(d, np.add(atol, np.multiply(rtol, np.abs(b))))


@af(np.allclose)
def m_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(m_isclose(a, b, rtol, atol)))


@af(np.all)
def m_all(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, SF):
        return bool(a)
    return np.all(V._bools(a), axis=axis)


@af(np.any)
def m_any(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, SF):
        return bool(a)
    return np.any(V._bools(a), axis=axis)


@af(np.array_equal)
def m_array_equal(a, b, equal_nan=False):
    a, b = _asarr(a), _asarr(b)
    if a.shape != b.shape:
        return False
    return all(bool(V.sc_cmp(x, y, "==")) for x, y in zip(a.ravel(), b.ravel()))


@af(np.count_nonzero)
def m_cnz(a, axis=None, **k):
    return np.count_nonzero(V._bools(a), axis=axis)


@af(np.nonzero, np.flatnonzero, np.argwhere)
def _dummy_nonzero(a):
    return V._bools(a).nonzero()


AF[np.flatnonzero] = lambda a: np.flatnonzero(V._bools(_asarr(a)))
AF[np.argwhere] = lambda a: np.argwhere(V._bools(_asarr(a)))


def _sorted(vals):
    out = []
    for v in vals:  # insertion by comparison (forks where the order is open)
        i = len(out)
        while i > 0 and V.sc_cmp(v, out[i - 1], "<"):
            i -= 1
        out.insert(i, v)
    return out


@af(np.percentile)
def m_percentile(a, q, axis=None, **kw):
    return m_quantile(a, np.true_divide(q, 100), axis=axis, **kw)


@af(np.quantile)
def m_quantile(a, q, axis=None, **kw):
    if kw.get("method", "linear") != "linear" or axis not in (None, 0) or (axis == 0 and _asarr(a).ndim > 1):
        raise Unsupported("percentile variant")
    s = _sorted(list(_asarr(a).ravel()))
    n = len(s)

    def one(qq):
        if is_sym(qq):
            raise Unsupported("symbolic quantile")
        pos = float(qq) * (n - 1)
        k = int(math.floor(pos))
        fr = pos - k
        if k >= n - 1:
            return s[n - 1]
        if fr == 0:
            return s[k]
        return V.sc_add(s[k], V.sc_mul(V.sc_sub(s[k + 1], s[k]), fr))
    if np.ndim(q) == 0:
        return one(q)
    return mkarr([one(x) for x in np.asarray(q).ravel()])


@af(np.median)
def m_median(a, axis=None, **k):
    if axis is not None and _asarr(a).ndim > 1:
        raise Unsupported("median axis")
    s = _sorted(list(_asarr(a).ravel()))
    n = len(s)
    return s[n // 2] if n % 2 else V.sc_mul(V.sc_add(s[n // 2 - 1], s[n // 2]), 0.5)


@af(np.linalg.norm)
def m_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm order")
    x = _asarr(x)
    if any(isinstance(v, SC) for v in x.ravel()):
        return np.sqrt(np.sum(np.abs(x) ** 2, axis=axis))
    return np.sqrt(np.sum(x * x, axis=axis))


@af(np.sum)
def m_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if isinstance(a, (SF, SC)):
        return a
    k = dict(axis=axis, keepdims=bool(keepdims) if keepdims is not np._NoValue else False)
    if where is not True and where is not np._NoValue:
        k["where"] = where
    if initial is not None and initial is not np._NoValue:
        k["initial"] = initial
    return array_ufunc(np.add, "reduce", (_asarr(a),), k)


@af(np.prod)
def m_prod(a, axis=None, **k):
    return array_ufunc(np.multiply, "reduce", (_asarr(a),), dict(axis=axis))


@af(np.max, np.amax)
def m_max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    if isinstance(a, SF):
        return a
    return array_ufunc(np.maximum, "reduce", (_asarr(a),), dict(axis=axis, keepdims=bool(keepdims) if keepdims is not np._NoValue else False, initial=initial))


@af(np.min, np.amin)
def m_min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    if isinstance(a, SF):
        return a
    return array_ufunc(np.minimum, "reduce", (_asarr(a),), dict(axis=axis, keepdims=bool(keepdims) if keepdims is not np._NoValue else False, initial=initial))


AF[np.nanmax] = lambda a, axis=None, **k: array_ufunc(np.fmax, "reduce", (_asarr(a),), dict(axis=axis))
AF[np.nanmin] = lambda a, axis=None, **k: array_ufunc(np.fmin, "reduce", (_asarr(a),), dict(axis=axis))
AF[np.nansum] = lambda a, axis=None, **k: m_sum(m_nan_to_num(_asarr(a)), axis=axis)


@af(np.ptp)
def m_ptp(a, axis=None, **k):
    return m_max(a, axis) - m_min(a, axis)


@af(np.mean)
def m_mean(a, axis=None, **k):
    return _asarr(a).mean(axis=axis)


@af(np.average)
def m_average(a, axis=None, weights=None, returned=False, **k):
    a = _asarr(a)
    if weights is None:
        return a.mean(axis=axis)
    w = _asarr(weights)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        shp = [1] * a.ndim
        shp[axis] = w.size
        w = w.reshape(shp)
    return np.sum(a * w, axis=axis) / np.sum(w * tosym(np.ones(a.shape)), axis=axis)


@af(np.std)
def m_std(a, axis=None, ddof=0, **k):
    return _asarr(a).std(axis=axis, ddof=ddof)


@af(np.var)
def m_var(a, axis=None, ddof=0, **k):
    return _asarr(a).var(axis=axis, ddof=ddof)


@af(np.cumsum)
def m_cumsum(a, axis=None, **k):
    return _asarr(a).cumsum(axis=axis)


@af(np.cumprod)
def m_cumprod(a, axis=None, **k):
    return _asarr(a).cumprod(axis=axis)


@af(np.dot, np.inner, np.vdot)
def m_dot(a, b, out=None):
    if _scal(a) or _scal(b):
        return a * b
    return _matmul(a, b)


@af(np.outer)
def m_outer(a, b, out=None):
    return _asarr(a).reshape(-1, 1) * _asarr(b).reshape(1, -1)


@af(np.trapz)
def m_trapz(y, x=None, dx=1.0, axis=-1):
    y = _asarr(y)
    if x is None:
        d = dx
    else:
        x = _asarr(x)
        if x.ndim == 1:
            d = x[1:] - x[:-1]
            if y.ndim > 1:
                shp = [1] * y.ndim
                shp[axis] = d.shape[0]
                d = d.reshape(shp)
        else:
            d = np.diff(x, axis=axis)
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    return np.sum(d * (y[tuple(s1)] + y[tuple(s2)]) / 2.0, axis=axis)


@af(np.diff)
def m_diff(a, n=1, axis=-1, **k):
    a = _asarr(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


@af(np.convolve)
def m_convolve(a, v, mode="full"):
    a, v = list(_asarr(a).ravel()), list(_asarr(v).ravel())
    n = len(a) + len(v) - 1
    out = [np.float64(0.0)] * n
    for i, x in enumerate(a):
        for j, y in enumerate(v):
            out[i + j] = V.sc_add(out[i + j], V.sc_mul(x, y))
    if mode == "same":
        m = max(len(a), len(v))
        k = (n - m) // 2
        out = out[k:k + m]
    elif mode == "valid":
        m = max(len(a), len(v)) - min(len(a), len(v)) + 1
        k = min(len(a), len(v)) - 1
        out = out[k:k + m]
    return mkarr(out)


@af(np.zeros_like, np.ones_like, np.empty_like, np.full_like)
def _dummy_like(a, *x, **k):
    raise AssertionError


def _like(val):
    def g(a, dtype=None, order="K", subok=True, shape=None):
        s = np.shape(a) if shape is None else shape
        if dtype is not None and np.dtype(dtype).kind in "biu":
            return np.full(s, val, dtype=dtype)
        return _map(lambda _: np.float64(val), np.empty(s, dtype=object))
    return g


AF[np.zeros_like] = _like(0.0)
AF[np.ones_like] = _like(1.0)
AF[np.empty_like] = _like(0.0)


@af(np.full_like)
def m_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    s = np.shape(a) if shape is None else shape
    return _map(lambda _: npkind(fill_value), np.empty(s, dtype=object))


@af(np.copyto)
def m_copyto(dst, src, casting="same_kind", where=True):
    if dst.dtype != object and has_sym(src):
        raise NeedConcrete("copyto into a float array")
    if where is True:
        dst[...] = src
    else:
        w = np.broadcast_to(where, dst.shape)
        s = np.broadcast_to(_oarr(src), dst.shape)
        dst[w] = s[w]


@af(np.putmask)
def m_putmask(a, mask, values):
    m_copyto(a, values, where=mask)


@af(np.place)
def m_place(arr, mask, vals):
    arr[mask] = vals


@af(np.linspace)
def m_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym(start) and not has_sym(stop):
        return _linspace(start, stop, num, endpoint, retstep, dtype, axis)
    num = int(num)
    if num > 2000:      # integration paths: the symbolic run uses a coarser path
        num = getattr(V.C.ENG, "decimate", 0) or num
    div = num - 1 if endpoint else num
    start, stop = npkind(start), npkind(stop)
    step = V.sc_div(V.sc_sub(stop, start), float(div)) if div > 0 else V.NAN
    out = []
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            out.append(stop)
        else:
            out.append(V.sc_add(start, V.sc_mul(step, float(i))) if i else start)
    r = mkarr(out)
    return (r, step) if retstep else r


@af(np.select)
def m_select(condlist, choicelist, default=0):
    conds = [V._bools(c) if isinstance(c, SymArray) else np.asarray(c) for c in condlist]
    arrs = [_oarr(c) for c in choicelist]
    b = np.broadcast(*conds, *arrs)
    out = np.empty(b.shape, dtype=object)
    of = out.reshape(-1)
    cb = [np.broadcast_to(c, b.shape).ravel() for c in conds]
    ab = [np.broadcast_to(a, b.shape).ravel() for a in arrs]
    db = np.broadcast_to(_oarr(default), b.shape).ravel()
    for i in range(b.size):
        of[i] = db[i]
        for c, a in zip(cb, ab):
            if c[i]:
                of[i] = a[i]
                break
    return out.view(SymArray)


@af(np.piecewise)
def m_piecewise(x, condlist, funclist, *args, **kw):
    x = _asarr(x)
    conds = [np.asarray(c, dtype=bool) for c in condlist]
    y = _like(0.0)(x)
    if len(funclist) == len(conds) + 1:
        conds.append(~np.logical_or.reduce(conds))
    for c, f in zip(conds, funclist):
        if c.any():
            y[c] = f(x[c], *args, **kw) if callable(f) else f
    return y


@af(np.unique)
def m_unique(a, *r, **k):
    if r or any(k.values()):
        raise Unsupported("unique variant")
    s = _sorted(list(_asarr(a).ravel()))
    out = []
    for x in s:
        if not out or not V.sc_cmp(out[-1], x, "=="):
            out.append(x)
    return mkarr(out)


@af(np.isin)
def m_isin(el, test, **k):
    tl = list(_asarr(test).ravel())
    return np.array([any(bool(V.sc_cmp(x, y, "==")) for y in tl) for x in _asarr(el).ravel()], dtype=bool).reshape(np.shape(el))


@af(np.digitize)
def m_digitize(x, bins, right=False):
    f = lambda v: sum(1 for b in _asarr(bins).ravel() if V.sc_cmp(v, b, ">" if right else ">="))  # noqa: E731
    if _scal(x):
        return f(x)
    return np.array([f(v) for v in _asarr(x).ravel()], dtype=int).reshape(np.shape(x))


@af(np.polyval)
def m_polyval(p, x):
    y = 0.0
    for c in p:
        y = y * x + c
    return y


@af(np.apply_along_axis)
def m_aaa(f, axis, arr, *a, **k):
    arr = np.moveaxis(arr, axis, -1)
    out = [f(r, *a, **k) for r in arr.reshape(-1, arr.shape[-1])]
    if np.ndim(out[0]) == 0:
        return mkarr(out).reshape(arr.shape[:-1])
    return np.moveaxis(np.stack(out).reshape(arr.shape[:-1] + (len(out[0]),)), -1, axis)


@af(np.einsum)
def m_einsum(sub, *ops, **kw):
    if not isinstance(sub, str):
        raise Unsupported("einsum form")
    sub = sub.replace(" ", "")
    ins, outp = sub.split("->") if "->" in sub else (sub, None)
    ins = ins.split(",")
    ops = [_asarr(o) for o in ops]
    if "." in sub:
        pool = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in sub]
        ks = [o.ndim - len(s.replace("...", "")) if "..." in s else 0 for s, o in zip(ins, ops)]
        top = max(ks + [0])
        pool = pool[:top]
        ins = [s.replace("...", "".join(pool[top - k:])) for s, k in zip(ins, ks)]
        if outp is None:
            al = "".join(ins)
            outp = "".join(pool) + "".join(sorted(c for c in set(al) if al.count(c) == 1 and c not in pool))
        else:
            outp = outp.replace("...", "".join(pool))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum: operand has the wrong number of dimensions")
        for ch, n in zip(s, o.shape):
            if dims.setdefault(ch, n) != n:
                if 1 not in (dims[ch], n):
                    raise ValueError("einsum: dimensions do not match")
                dims[ch] = max(dims[ch], n)
    if outp is None:
        al = "".join(ins)
        outp = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    inner = [c for c in dims if c not in outp]
    import itertools
    res = np.empty([dims[c] for c in outp], dtype=object)
    for oi in itertools.product(*[range(dims[c]) for c in outp]):
        env = dict(zip(outp, oi))
        acc = []
        for ii in itertools.product(*[range(dims[c]) for c in inner]):
            env.update(zip(inner, ii))
            v = np.float64(1.0)
            for s, o in zip(ins, ops):
                v = V.sc_mul(v, o[tuple(env[c] if o.shape[q] > 1 else 0 for q, c in enumerate(s))])
            acc.append(v)
        res[oi] = _red1("add", acc, None)
    return res[()] if res.ndim == 0 else res.view(SymArray)


# ---- FFT as exact DFT linear combinations
def _dft(vals, inverse, n):
    vals = list(vals)[:n] + [np.float64(0.0)] * max(0, n - len(vals))
    sg = 2.0 if inverse else -2.0
    out = []
    for k in range(n):
        re, im = [], []
        for j, v in enumerate(vals):
            if not is_sym(v) and v == 0:
                continue
            ang = sg * math.pi * ((j * k) % n) / n
            c, s = _rt(math.cos(ang)), _rt(math.sin(ang))
            vr, vi = V._parts(v)
            if c:
                re.append(V.sc_mul(vr, c))
                if is_sym(vi) or vi:
                    im.append(V.sc_mul(vi, c))
            if s:
                im.append(V.sc_mul(vr, s))
                if is_sym(vi) or vi:
                    re.append(V.sc_mul(vi, -s))
        r, i = _red1("add", re, None), _red1("add", im, None)
        if inverse:
            r, i = V.sc_div(r, float(n)), V.sc_div(i, float(n))
        out.append(V.mkc(r, i))
    return out


def _rt(x):
    for k in (0.0, 0.5, 1.0, -0.5, -1.0):
        if abs(x - k) < 1e-15:
            return k
    return x


_fftn0, _ifftn = np.fft.fftn, np.fft.ifftn


def _fftn(a, shape, axes, inverse):
    if not has_sym(a):
        c = demote(a) if isinstance(a, np.ndarray) and a.dtype == object else np.asarray(a)
        if c is not None and c.dtype != object:
            sh = [c.shape[ax] if n is None else int(n) for ax, n in zip(axes, shape)]
            return tosym((_ifftn if inverse else _fftn0)(c, sh, axes))
    a = _asarr(a)
    for ax, n in zip(axes, shape):
        b = np.moveaxis(a.view(np.ndarray), ax, -1)
        n = b.shape[-1] if n is None else int(n)
        res = np.empty(b.shape[:-1] + (n,), dtype=object)
        for idx in np.ndindex(*b.shape[:-1]):
            row = _dft(b[idx], inverse, n)
            for k in range(n):
                res[idx + (k,)] = row[k]
        a = np.moveaxis(res, -1, ax)
    return a.view(SymArray)


def _mk_fft2(inv):
    def g(a, s=None, axes=(-2, -1), norm=None):
        if norm not in (None, "backward"):
            raise Unsupported("fft norm")
        if s is None:
            s = [None] * len(axes)
        return _fftn(a, s, axes, inv)
    return g


def _mk_fft1(inv):
    def g(a, n=None, axis=-1, norm=None):
        if norm not in (None, "backward"):
            raise Unsupported("fft norm")
        return _fftn(a, [n], [axis], inv)
    return g


AF[np.fft.fft2] = _mk_fft2(False)
AF[np.fft.ifft2] = _mk_fft2(True)
AF[np.fft.fft] = _mk_fft1(False)
AF[np.fft.ifft] = _mk_fft1(True)
AF[np.fft.fftn] = lambda a, s=None, axes=None, norm=None: _mk_fft2(False)(a, s, axes if axes is not None else tuple(range(_asarr(a).ndim)), norm)
AF[np.fft.ifftn] = lambda a, s=None, axes=None, norm=None: _mk_fft2(True)(a, s, axes if axes is not None else tuple(range(_asarr(a).ndim)), norm)


@af(np.angle)
def m_angle(z, deg=False):
    f = lambda v: V.sc_atan2(V._parts(v)[1], V._parts(v)[0])  # noqa: E731
    r = f(z) if _scal(z) else _map(f, _asarr(z))
    return r * (180.0 / math.pi) if deg else r


# ------------------------------------------------------------------- casts
def cast_scalar(x, dt):
    dt = np.dtype(dt)
    if dt.kind == "f" or dt.kind == "c":
        return npkind(x)
    if dt.kind == "O":
        return x
    if dt.kind == "b":
        return np.bool_(bool(x))
    if dt.kind in "iu":
        if is_sym(x):
            r = V.sc_trunc(x)
            if not is_sym(r) and dt.kind == "u":
                r = np.float64(int(r) % (2 ** (8 * dt.itemsize)))
            if is_sym(r):
                return r
            return np.float64(r)
        return np.float64(np.asarray(x).astype(dt))
    raise Unsupported("cast to %s" % dt)


def cast_array(a, dt):
    d = np.dtype(dt)
    if d.kind == "b":
        return V._bools(a)
    c = demote(a)
    if c is not None and d.kind in "iu":
        return np.asarray(c).astype(d)
    return _map(lambda x: cast_scalar(x, dt), a)


# -------------------------------------------------------------- creation (patched)
_zeros, _ones, _empty, _full, _array, _asarray, _linspace, _arange = (
    np.zeros, np.ones, np.empty, np.full, np.array, np.asarray, np.linspace, np.arange)
_float64 = np.float64
LIM = 20000


def _from_pybsm():
    return sys._getframe(2).f_globals.get("__name__", "").startswith("pybsm")


def _mk(orig, val):
    def g(shape, dtype=None, order="C", **k):
        if not _from_pybsm():
            return orig(shape, dtype, order, **k) if dtype is not None else orig(shape, order=order, **k)
        if isinstance(shape, SF):
            shape = int(shape)
        if dtype is not None and np.dtype(dtype).kind not in "fO":
            return orig(shape, dtype, order, **k)
        r = orig(shape, order=order, **k)
        if r.size > LIM:
            return r
        if val is None:
            r = np.zeros(shape) if False else orig(shape)
            r[...] = 0.0
        return tosym(r)
    g.__name__ = orig.__name__
    return g


p_zeros, p_ones, p_empty = _mk(_zeros, 0.0), _mk(_ones, 1.0), _mk(_empty, None)


def p_full(shape, fill_value, dtype=None, order="C", **k):
    if not _from_pybsm():
        return _full(shape, fill_value, dtype, order, **k)
    if not has_sym(fill_value):
        r = _full(shape, fill_value, dtype, order, **k)
        if r.size > LIM or r.dtype.kind not in "fiu" or (dtype is not None and np.dtype(dtype).kind != "f"):
            return r
        return tosym(r)
    return _map(lambda _: npkind(fill_value), _empty(shape, dtype=object))


def m_array(x, dtype=None, copy=True, **k):
    if has_symnested(x):
        if isinstance(x, (SF, SC)):
            r = _empty((), dtype=object)
            r[()] = npkind(x)
            return r.view(SymArray)
        r = _array(_plain(x), dtype=object)
        if r.ndim == 0:
            return r.view(SymArray)
        r = _map(npkind, r)
        if dtype is not None and np.dtype(dtype).kind in "iub":
            return cast_array(r, dtype)
        return r
    if isinstance(x, SymArray):
        if dtype is None or np.dtype(dtype).kind in "fO":
            return x.copy() if copy else x
        return cast_array(x, dtype)
    return None


def _plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    return x


def has_symnested(x):
    if isinstance(x, (SF, SC)):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_symnested(y) for y in x)
    return False


def p_array(x, *a, **k):
    if _from_pybsm():
        dt = a[0] if a else k.get("dtype")
        r = m_array(x, dt, k.get("copy", True))
        if r is not None:
            nd = k.get("ndmin", 0)
            while r.ndim < nd:
                r = r[None]
            return r
    return _array(x, *a, **k)


def p_asarray(x, dtype=None, *a, **k):
    if _from_pybsm():
        if isinstance(x, SymArray) and (dtype is None or np.dtype(dtype).kind in "fO"):
            return x
        r = m_array(x, dtype, False)
        if r is not None:
            return r
    return _asarray(x, dtype, *a, **k)


def p_linspace(*a, **k):
    # numpy dispatches only on array-likes it recognises; be explicit
    if has_sym(a[0] if a else k.get("start")) or has_sym(a[1] if len(a) > 1 else k.get("stop")):
        return m_linspace(*a, **k)
    return _linspace(*a, **k)


def p_arange(*a, **k):
    if not any(is_sym(x) for x in a):
        return _arange(*a, **k)
    if len(a) == 1:
        start, stop, step = np.float64(0.0), a[0], np.float64(1.0)
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else np.float64(1.0)
    n = V.sc_ceil(V.sc_div(V.sc_sub(npkind(stop), npkind(start)), npkind(step)))
    if is_sym(n):
        raise NeedConcrete("arange length")
    return mkarr([V.sc_add(start, V.sc_mul(step, float(i))) for i in range(max(0, int(n)))])


def p_vectorize(f, *a, **k):
    def g(*args):
        arrs = [_oarr(x) for x in args]
        b = np.broadcast(*arrs)
        out = _empty(b.shape, dtype=object)
        of = out.reshape(-1)
        for i, tup in enumerate(b):
            of[i] = npkind(f(*tup))
        return out.view(SymArray) if out.ndim else out[()]
    return g


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _float64) or isinstance(x, SF)

    def __call__(cls, x=0.0):
        if is_sym(x):
            return npkind(x)
        if isinstance(x, SymArray):
            return x if x.ndim else npkind(x[()])
        return _float64(x)


class P_float64(metaclass=_F64Meta):
    dtype = np.dtype("float64")


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float) or builtins.isinstance(x, SF)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __call__(cls, x=0.0):
        if isinstance(x, SymArray) and x.size == 1:
            x = x.ravel()[0]
        if isinstance(x, SF):
            return SF(x.p, False)
        return builtins.float(x)


class P_float(metaclass=_FloatMeta):
    dtype = np.dtype("float64")


def p_int(x=0, *a):
    if isinstance(x, SymArray) and x.size == 1:
        x = x.ravel()[0]
    if isinstance(x, SF):
        return V.sc_int(x)
    return builtins.int(x, *a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int)

    def __call__(cls, x=0, *a):
        return p_int(x, *a)


class P_int(metaclass=_IntMeta):
    dtype = np.dtype("int64")


# ------------------------------------------------------------------ math module
def _mm(sc, orig):
    def g(x, *a):
        if isinstance(x, SymArray) and x.size == 1:
            x = x.ravel()[0]
        if is_sym(x):
            r = sc(x, *a)
            if not is_sym(r) and isinstance(r, float) and r != r:
                raise ValueError("math domain error")
            return r.item() if isinstance(r, SF) else float(r)
        return orig(x, *a)
    return g


MATH = {
    "sqrt": V.sc_sqrt, "exp": V.sc_exp, "sin": V.sc_sin, "cos": V.sc_cos, "tan": V.sc_tan, "acos": V.sc_acos, "asin": V.sc_asin,
    "atan": V.sc_atan, "log10": V.sc_log10, "log2": V.sc_log2, "fabs": V.sc_abs, "expm1": V.sc_expm1, "log1p": V.sc_log1p,
    "sinh": V.sc_sinh, "cosh": V.sc_cosh, "tanh": V.sc_tanh,
    "degrees": lambda a: V.sc_mul(a, 180.0 / math.pi), "radians": lambda a: V.sc_mul(a, math.pi / 180.0),
}


def math_patches():
    out = {}
    for n, sc in MATH.items():
        out[n] = _mm(sc, getattr(math, n))
    olog, opow, oat2, ohy, ofl, oce, otr, ofs, oprod, oisn, oisi, oisf, oisc, ocps, ofm = (
        math.log, math.pow, math.atan2, math.hypot, math.floor, math.ceil, math.trunc, math.fsum, math.prod, math.isnan, math.isinf,
        math.isfinite, math.isclose, math.copysign, math.fmod)

    def log(x, *b):
        if is_sym(x):
            r = V.sc_log(x)
            if not is_sym(r) and not math.isfinite(r):
                raise ValueError("math domain error")
            return V.sc_div(r, olog(b[0])) if b else r
        return olog(x, *b)

    out["log"] = log
    out["pow"] = lambda a, b: V.sc_pow(a, b) if is_sym(a) or is_sym(b) else opow(a, b)
    out["atan2"] = lambda a, b: V.sc_atan2(a, b) if is_sym(a) or is_sym(b) else oat2(a, b)

    def hypot(*a):
        if any(is_sym(x) for x in a):
            s = 0.0
            for x in a:
                s = V.sc_add(s, V.sc_mul(x, x))
            return V.sc_sqrt(s)
        return ohy(*a)

    out["hypot"] = hypot
    out["floor"] = lambda a: V.sc_int(V.sc_floor(a)) if is_sym(a) else ofl(a)
    out["ceil"] = lambda a: V.sc_int(V.sc_ceil(a)) if is_sym(a) else oce(a)
    out["trunc"] = lambda a: V.sc_int(a) if is_sym(a) else otr(a)

    def fsum(it):
        it = list(it)
        return _red1("add", [npkind(x) for x in it], None) if any(is_sym(x) for x in it) else ofs(it)

    out["fsum"] = fsum

    def prod(it, start=1):
        r = start
        for x in it:
            r = r * x
        return r

    out["prod"] = prod
    out["isnan"] = lambda x: False if is_sym(x) else oisn(x)
    out["isinf"] = lambda x: False if is_sym(x) else oisi(x)
    out["isfinite"] = lambda x: True if is_sym(x) else oisf(x)

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if is_sym(a) or is_sym(b):
            d = V.sc_abs(V.sc_sub(a, b))
            m = V.sc_mul(V.sc_max(V.sc_abs(a), V.sc_abs(b)), rel_tol)
            return bool(V.sc_cmp(d, V.sc_max(m, abs_tol), "<="))
        return oisc(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    out["isclose"] = isclose
    return out


# ----------------------------------------------------------- scipy / cv2 models
class SymInterp1d:
    """scipy.interpolate.interp1d(kind='linear')"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=V.NAN, assume_sorted=False):
        if kind not in ("linear", 1):
            raise Unsupported("interp1d kind")
        xs = list(_asarr(x).ravel())
        ya = _asarr(y)
        if ya.ndim != 1:
            raise Unsupported("interp1d nd")
        ys = list(ya.ravel())
        if len(xs) != len(ys):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            pairs = []
            for a, b in zip(xs, ys):
                i = len(pairs)
                while i > 0 and V.sc_cmp(a, pairs[i - 1][0], "<"):
                    i -= 1
                pairs.insert(i, (a, b))
            xs = [p[0] for p in pairs]
            ys = [p[1] for p in pairs]
        self.x, self.y = mkarr(xs), mkarr(ys)
        self.extra = isinstance(fill_value, str) and fill_value == "extrapolate"
        if isinstance(fill_value, str) and not self.extra:
            raise Unsupported("interp1d fill_value")
        self.fill = None if self.extra else fill_value
        nofill = not self.extra and not isinstance(fill_value, tuple) and not is_sym(fill_value) and np.ndim(fill_value) == 0 and fill_value != fill_value
        if bounds_error is None:
            bounds_error = nofill
        self.be = bounds_error
        self.fill_value = fill_value

    def __call__(self, v):
        xs, ys, n = list(self.x), list(self.y), len(self.x)

        def g(a):
            if _isnan(a):
                return V.NAN
            if not self.extra:
                for side, cond in ((0, V.sc_cmp(a, xs[0], "<")), (1, V.sc_cmp(a, xs[-1], ">"))):
                    if cond:
                        if self.be:
                            raise ValueError("A value in x_new is outside the interpolation range.")
                        f = self.fill
                        return npkind(f[side] if isinstance(f, tuple) else f)
            lo, hi = 0, n - 1
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if V.sc_cmp(a, xs[mid], ">"):
                    lo = mid
                else:
                    hi = mid
            s = V.sc_div(V.sc_sub(ys[hi], ys[lo]), V.sc_sub(npkind(xs[hi]), xs[lo]))
            return V.sc_add(V.sc_mul(s, V.sc_sub(a, xs[lo])), ys[lo])
        if _scal(v):
            r = _empty((), dtype=object)
            r[()] = g(npkind(v))
            return r.view(SymArray)
        return _map(g, _asarr(v))


def interp1d_patch(orig):
    def interp1d(x, y, *a, **k):
        if has_symnested(x) or has_symnested(y):
            return SymInterp1d(x, y, *a, **k)
        f = orig(x, y, *a, **k)

        def call(v):
            if has_symnested(v):
                return SymInterp1d(x, y, *a, **k)(v)
            return f(v)
        return call
    return interp1d


class SymRGI:
    """scipy.interpolate.RegularGridInterpolator(method='linear'); the value axes may carry symbolic entries"""

    def __init__(self, points, values, method="linear", bounds_error=True, fill_value=V.NAN, **k):
        if method != "linear" or k:
            raise Unsupported("RegularGridInterpolator options")
        self.grid = [list(_asarr(p).ravel()) for p in points]
        self.v = _asarr(values).view(np.ndarray)
        for ax, g in enumerate(self.grid):
            if len(g) != self.v.shape[ax]:
                raise ValueError("There are %d points and %d values on dimension %d" % (len(g), self.v.shape[ax], ax))
            if all(V.sc_cmp(b, a, "<") for a, b in zip(g, g[1:])):
                g.reverse()
                self.v = np.flip(self.v, ax)
            elif not all(V.sc_cmp(b, a, ">") for a, b in zip(g, g[1:])):
                raise ValueError("The points in dimension %d must be strictly ascending or descending" % ax)
        self.be, self.fill = bounds_error, fill_value

    def __call__(self, xi, method=None, **k):
        if method not in (None, "linear") or k:
            raise Unsupported("RegularGridInterpolator call options")
        n = len(self.grid)
        if isinstance(xi, tuple):
            xi = np.stack(np.broadcast_arrays(*[_asarr(x).view(np.ndarray) for x in xi]), axis=-1)
        q = _asarr(xi).view(np.ndarray)
        if q.ndim == 1:
            q = q.reshape(-1, n) if n == 1 else q.reshape(1, -1)
        if q.shape[-1] != n:
            raise ValueError("The requested sample points xi have dimension %d but this RegularGridInterpolator has dimension %d" % (q.shape[-1], n))
        flat = q.reshape(-1, n)
        out = _empty((len(flat),), dtype=object)
        for r in range(len(flat)):
            out[r] = self._one(list(flat[r]))
        return out.reshape(q.shape[:-1]).view(SymArray)

    def _one(self, x):
        idx, w = [], []
        for a, g in zip(x, self.grid):
            lo, hi = 0, len(g) - 1
            below, above = V.sc_cmp(a, g[0], "<"), V.sc_cmp(a, g[-1], ">")
            if below or above:
                if self.be:
                    raise ValueError("One of the requested xi is out of bounds")
                if self.fill is not None:
                    return npkind(self.fill)
                lo = 0 if below else hi - 1
            else:
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if V.sc_cmp(a, g[mid], ">="):
                        lo = mid
                    else:
                        hi = mid
            idx.append(lo)
            w.append(V.sc_div(V.sc_sub(npkind(a), g[lo]), V.sc_sub(npkind(g[lo + 1]), g[lo])))
        acc = []
        for corner in range(1 << len(x)):
            c, f = [], np.float64(1.0)
            for d in range(len(x)):
                bit = (corner >> d) & 1
                c.append(idx[d] + bit)
                f = V.sc_mul(f, w[d] if bit else V.sc_sub(np.float64(1.0), w[d]))
            if not is_sym(f) and f == 0.0:
                continue
            acc.append(V.sc_mul(self.v[tuple(c)], f))
        return _red1("add", acc, None) if len(acc) > 1 else acc[0]


def rgi_patch(orig):
    def RegularGridInterpolator(points, values, *a, **k):
        if has_symnested(values) or any(has_symnested(p) for p in points):
            return SymRGI(points, values, *a, **k)
        f = orig([demote(p) if isinstance(p, SymArray) else p for p in points], demote(values) if isinstance(values, SymArray) else values, *a, **k)

        def call(v, *b, **kk):
            if has_symnested(v):
                return SymRGI(points, values, *a, **k)(v, *b, **kk)
            return f(v, *b, **kk)
        return call
    return RegularGridInterpolator


def _pw_lin(xs, ys, v):
    """linear interpolation helper used by the 2-D models (clamped)"""
    n = len(xs)
    if V.sc_cmp(v, xs[0], "<="):
        return ys[0]
    if V.sc_cmp(v, xs[-1], ">="):
        return ys[-1]
    lo, hi = 0, n - 1
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if V.sc_cmp(v, xs[mid], ">="):
            lo = mid
        else:
            hi = mid
    w = V.sc_div(V.sc_sub(v, xs[lo]), V.sc_sub(npkind(xs[hi]), xs[lo]))
    return V.sc_add(ys[lo], V.sc_mul(w, V.sc_sub(ys[hi], ys[lo])))


def cv_filter2d(src, kernel, anchor=(-1, -1)):
    """cv2.filter2D: correlation about the anchor, BORDER_REFLECT_101, float destination"""
    a = _asarr(src).view(np.ndarray)
    k = _asarr(kernel).view(np.ndarray)
    H, W = a.shape
    kh, kw = k.shape
    ah, aw = (kh // 2 if anchor[1] < 0 else int(anchor[1])), (kw // 2 if anchor[0] < 0 else int(anchor[0]))

    def refl(i, n):
        if n == 1:
            return 0
        while i < 0 or i >= n:
            i = -i if i < 0 else 2 * (n - 1) - i
        return i
    out = _empty((H, W), dtype=object)
    for i in range(H):
        for j in range(W):
            acc = []
            for p in range(kh):
                for q in range(kw):
                    acc.append(V.sc_mul(k[p, q], a[refl(i + p - ah, H), refl(j + q - aw, W)]))
            out[i, j] = _red1("add", acc, None)
    return out.view(SymArray)


def cv_resize_matrix(n, m):
    """rows of the 1-D linear map of cv2.resize INTER_LINEAR n -> m"""
    import cv2
    eye = np.eye(n)
    if n == m:
        return eye
    # the map is separable and linear in the pixels: read its weights off basis images
    # (column j of the map is what the image with a single bright row j becomes)
    M = np.zeros((m, n))
    for j in range(n):
        col = np.zeros((n, 2))
        col[j, :] = 1.0
        M[:, j] = ORIG_RESIZE(col, (2, m))[:, 0]
    return M


ORIG_RESIZE = None


def cv_resize(img, dsize, interpolation=1):
    a = _asarr(img)
    if a.ndim != 2:
        raise Unsupported("resize of a multi-channel image")
    w, h = int(dsize[0]), int(dsize[1])
    if w <= 0 or h <= 0:
        raise NeedConcrete("cv2.resize error")
    My = cv_resize_matrix(a.shape[0], h)
    Mx = cv_resize_matrix(a.shape[1], w)
    return _matmul(_matmul(tosym(My), a), tosym(Mx.T))


class SymGrid:
    """scipy.interpolate.griddata(method='linear') at fixed sample points: a value symbolic in the samples, or in a query point that meets few triangles"""

    def __init__(self, pts, values, fill):
        from scipy.spatial import Delaunay
        self.tri = Delaunay(pts)
        self.v, self.fill = values, fill

    def point(self, x):
        if not any(is_sym(c) for c in x):
            k = int(self.tri.find_simplex(np.array([[float(c) for c in x]]))[0])
            return self.fill if k < 0 else self.combine(k, x)
        box = [t.iv(c.p) if is_sym(c) else (float(c), float(c)) for c in x]
        p = self.tri.points[self.tri.simplices]
        hit = np.ones(len(p), dtype=bool)
        for i, (lo, hi) in enumerate(box):
            hit &= (p[:, :, i].max(axis=1) >= lo - 1e-12 * abs(lo)) & (p[:, :, i].min(axis=1) <= hi + 1e-12 * abs(hi))
        ks = np.nonzero(hit)[0]
        if len(ks) > 400:
            raise Unsupported("griddata at a widely ranging symbolic point (%d triangles)" % len(ks))
        for k in ks:
            w = self.weights(k, x)
            if all(_nonneg(c) for c in w):
                return self.mix(k, w)
        return self.fill

    def weights(self, k, x):
        T_ = self.tri.transform[k]
        d = [V.sc_sub(npkind(x[i]), float(T_[2][i])) for i in range(2)]
        b = [V.sc_add(V.sc_mul(d[0], float(T_[i][0])), V.sc_mul(d[1], float(T_[i][1]))) for i in range(2)]
        return b + [V.sc_sub(V.sc_sub(np.float64(1.0), b[0]), b[1])]

    def mix(self, k, w):
        acc = [V.sc_mul(npkind(self.v[int(j)]), c) for j, c in zip(self.tri.simplices[k], w) if is_sym(c) or abs(c) > 1e-11]
        return _red1("add", acc, np.float64(0.0))

    def combine(self, k, x):
        return self.mix(k, self.weights(k, x))


def _nonneg(c):
    return bool(V.sc_cmp(c, -1e-9, ">="))


def griddata_patch(orig):
    def griddata(points, values, xi, method="linear", fill_value=V.NAN, rescale=False):
        if not (has_symnested(points) or has_symnested(values) or has_symnested(xi)):
            return orig(points, values, xi, method=method, fill_value=fill_value, rescale=rescale)
        if method != "linear" or rescale or has_symnested(points):
            raise Unsupported("griddata options")
        pts = np.array(np.broadcast_arrays(*points), dtype=float).reshape(len(points), -1).T if isinstance(points, tuple) else np.array(points, dtype=float)
        q = np.stack(np.broadcast_arrays(*[_asarr(x).view(np.ndarray) for x in xi]), axis=-1) if isinstance(xi, tuple) else _asarr(xi).view(np.ndarray)
        g = SymGrid(pts, _asarr(values).view(np.ndarray).ravel(), npkind(fill_value))
        flat = q.reshape(-1, q.shape[-1])
        out = _empty((len(flat),), dtype=object)
        for r in range(len(flat)):
            out[r] = g.point(list(flat[r]))
        return out.reshape(q.shape[:-1]).view(SymArray)
    return griddata


def _symseq(x):
    """a list or tuple (numpy does not dispatch on those) holding symbolic values"""
    return isinstance(x, (list, tuple)) and any(isinstance(y, (SF, SC)) or _symseq(y) for y in x)


def _symarrs(x):
    """the sequence as the array numpy would make of it"""
    return m_array(x) if _symseq(x) else x


def _listfn(f):
    def g(*a, **k):
        for x in a:
            if isinstance(x, (list, tuple)) and _symseq(x):
                return array_function(f, a, k)
        for x in k.values():
            if isinstance(x, (list, tuple)) and _symseq(x):
                return array_function(f, a, k)
        return f(*a, **k)
    g.__name__ = f.__name__
    g.__wrapped__ = f
    return g


class _ListUfunc:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        if any(isinstance(x, (list, tuple)) and _symseq(x) for x in a):
            return array_ufunc(self.f, "__call__", tuple(_symarrs(x) for x in a), k)
        return self.f(*a, **k)

    def reduce(self, a, *r, **k):
        return self.f.reduce(_symarrs(a), *r, **k)

    def accumulate(self, a, *r, **k):
        return self.f.accumulate(_symarrs(a), *r, **k)

    def outer(self, a, b, **k):
        return self.f.outer(_symarrs(a), _symarrs(b), **k)

    def __getattr__(self, n):
        return getattr(self.f, n)


def patches():
    """(object, attribute, replacement) installed for a symbolic run"""
    import scipy.interpolate as si
    import scipy.special as ss
    out = []
    for n, f in (("zeros", p_zeros), ("ones", p_ones), ("empty", p_empty), ("full", p_full), ("array", p_array), ("asarray", p_asarray),
                 ("asanyarray", p_asarray), ("linspace", p_linspace), ("arange", p_arange), ("vectorize", p_vectorize)):
        out.append((np, n, f))
    done = {n for _, n, _ in out}
    for owner in (np, np.linalg, np.fft):
        for n in dir(owner):
            f = getattr(owner, n)
            if (owner is not np or n not in done) and type(f).__name__ == "_ArrayFunctionDispatcher":
                out.append((owner, n, _listfn(f)))
            elif owner is np and isinstance(f, np.ufunc):
                out.append((owner, n, _ListUfunc(f)))
    for n, f in math_patches().items():
        out.append((math, n, f))
    oj = ss.jn

    def jn(n, x):
        if not has_symnested(x):
            return oj(n, x)
        if _scal(x):
            return V.sc_jn(n, npkind(x))
        return _map(lambda v: V.sc_jn(n, v), _asarr(x))
    for n in ("jn", "jv"):
        out.append((ss, n, jn))
    out.append((ss, "j0", lambda x: jn(0, x)))
    out.append((ss, "j1", lambda x: jn(1, x)))
    out.append((si, "interp1d", interp1d_patch(si.interp1d)))
    out.append((si, "griddata", griddata_patch(si.griddata)))
    out.append((si, "RegularGridInterpolator", rgi_patch(si.RegularGridInterpolator)))
    try:
        import scipy.integrate as sg
        for n in ("trapezoid", "trapz"):
            if hasattr(sg, n):
                o = getattr(sg, n)
                out.append((sg, n, (lambda o: lambda y, x=None, dx=1.0, axis=-1: m_trapz(y, x, dx, axis) if has_symnested(y) or has_symnested(x) else o(y, x, dx, axis))(o)))
    except ImportError:
        pass
    try:
        import cv2
        global ORIG_RESIZE
        ORIG_RESIZE = cv2.resize
        of, orz = cv2.filter2D, cv2.resize

        def filter2D(src, ddepth, kernel, *a, **k):
            if has_symnested(src) or has_symnested(kernel):
                s, kk = demote(src), demote(kernel)
                if s is not None and kk is not None:
                    return tosym(of(s, ddepth, kk, *a, **k))
                if a or set(k) - {"anchor", "delta", "borderType"} or k.get("delta", 0) != 0 or k.get("borderType", cv2.BORDER_DEFAULT) != cv2.BORDER_DEFAULT:
                    raise Unsupported("filter2D options")
                return cv_filter2d(src, kernel, k.get("anchor", (-1, -1)))
            return of(src, ddepth, kernel, *a, **k)

        def resize(src, dsize, *a, **k):
            if has_symnested(src):
                s = demote(src)
                if s is not None:
                    return tosym(orz(s, dsize, *a, **k))
                if a or k:
                    raise Unsupported("resize options")
                return cv_resize(src, dsize)
            return orz(src, dsize, *a, **k)
        out.append((cv2, "filter2D", filter2D))
        out.append((cv2, "resize", resize))
    except ImportError:
        pass
    return out


GLOBALS = {"float": P_float, "int": P_int}
