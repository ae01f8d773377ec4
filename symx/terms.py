"""Hash-consed normal form for real-valued terms.

A term is a Laurent-like polynomial  sum_i c_i * prod_j atom_j ** e_ij  (float
coefficients, integer / rational exponents).  Atoms are
  v  input variable with a declared interval
  f  application of an uninterpreted/axiomatised function (sin, cos, acos, ...)
  s  abbreviation of a whole polynomial (used below fractional/negative powers)
  e  exp(m) for a monomial m  (exp(sum c_i m_i) = prod e(m_i)**c_i)
Coefficients that cancel to below 4e-13 of their operands are dropped and
function arguments/exponents that agree to 1e-11 are identified: the engine reasons about
the real-number semantics of the code up to that tolerance, not about rounding.
"""
from __future__ import annotations

import bisect
import math
from fractions import Fraction

TIDY = 4e-13
MATCH = 1e-11
EXPAND = 3000
INF = math.inf


class Unsupported(Exception):
    """The engine cannot encode this operation symbolically."""


class Atom:
    __slots__ = ("id", "kind", "fn", "args", "poly", "par", "_iv", "epoch", "name", "nonzero", "nn", "depth")


class Table:
    def __init__(self):
        self.atoms = []
        self.idx = {}
        self.vars = {}
        self.exps = {}
        self.epoch = 0
        self.bounds = {}  # var id -> (lo, hi)

    def _new(self, kind, fn=None, args=(), poly=None, par=None, name=None):
        a = Atom()
        a.id = len(self.atoms)
        a.kind, a.fn, a.args, a.poly, a.par, a.name = kind, fn, args, poly, par, name
        a._iv, a.epoch, a.nonzero, a.nn = None, -1, False, False
        self.atoms.append(a)
        return a


T = Table()


def reset():
    T.__init__()


def var(name, lo, hi, nonzero=False):
    a = T.vars.get(name)
    if a is None:
        a = T._new("v", name=name)
        T.vars[name] = a
    T.bounds[a.id] = (float(lo), float(hi))
    a.nonzero = nonzero
    T.epoch += 1
    return P({((a.id, 1),): 1.0})


# ----------------------------------------------------------------- polynomials
class P:
    """Immutable polynomial."""

    __slots__ = ("d", "_iv", "_ep")

    def __init__(self, d):
        self.d = d
        self._iv = None
        self._ep = -1

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const(self):
        return self.d.get((), 0.0)

    def __repr__(self):
        return show(self)


ZERO = P({})
ONE = P({(): 1.0})


def const(c):
    c = float(c)
    if c == 0.0:
        return ZERO
    if not math.isfinite(c):
        raise Unsupported("non-finite constant in term")
    return P({(): c})


def add(a, b, sb=1.0):
    if not b.d:
        return a
    if not a.d:
        return b if sb == 1.0 else scale(b, sb)
    d = dict(a.d)
    for m, c in b.d.items():
        c = c * sb
        o = d.get(m)
        if o is None:
            d[m] = c
        else:
            s = o + c
            if abs(s) <= TIDY * max(abs(o), abs(c)):
                del d[m]
            else:
                d[m] = s
    return P(d)


def addn(items):
    """Sum many polynomials; cancellation is judged against the largest operand."""
    d = {}
    mx = {}
    for p in items:
        for m, c in p.d.items():
            if m in d:
                d[m] += c
                mx[m] = max(mx[m], abs(c), abs(d[m]))
            else:
                d[m] = c
                mx[m] = abs(c)
    return P({m: c for m, c in d.items() if abs(c) > TIDY * mx[m]})


def scale(a, k):
    k = float(k)
    if k == 0.0:
        return ZERO
    if not math.isfinite(k):
        raise Unsupported("non-finite scale")
    if k == 1.0:
        return a
    return P({m: c * k for m, c in a.d.items() if c * k != 0.0})


def _nexp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def _cexp(aid, e):
    """canonical float exponent of an exp atom"""
    lst = T.exps.setdefault(aid, [])
    for x in lst:
        if abs(x - e) <= MATCH * max(abs(x), abs(e)):
            return x
    lst.append(e)
    return e


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, ea = m1[i]
        b, eb = m2[j]
        if a < b:
            out.append(m1[i]); i += 1
        elif b < a:
            out.append(m2[j]); j += 1
        else:
            e = ea + eb
            if isinstance(e, float):
                if abs(e) <= TIDY * 10 * max(abs(ea), abs(eb)):
                    e = 0
                else:
                    e = _cexp(a, e)
            else:
                e = _nexp(e)
            if e != 0:
                out.append((a, e))
            i += 1
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def _needs_expand(m):
    for a, e in m:
        at = T.atoms[a]
        k = at.kind
        if k == "s":
            if e >= 1 and (len(at.poly.d) ** int(e)) <= EXPAND:
                return a, e
        elif k == "f" and at.fn == "sin" and isinstance(e, int) and e >= 2:
            return a, e
    return None


def _clean(d):
    """expand positive powers of sums, sin**2 -> 1-cos**2"""
    todo = None
    for m in d:
        x = _needs_expand(m)
        if x:
            todo = True
            break
    if not todo:
        return P(d)
    acc = []
    for m, c in d.items():
        x = _needs_expand(m)
        if not x:
            acc.append(P({m: c}))
            continue
        a, e = x
        rest = tuple(t for t in m if t[0] != a)
        at = T.atoms[a]
        if at.kind == "s":
            k = int(e)
            fr = _nexp(e - k)
            if fr != 0:
                rest = mono_mul(rest, ((a, fr),))
            q = P({rest: c})
            for _ in range(k):
                q = mul(q, at.poly)
        else:
            k = e // 2
            if e % 2:
                rest = mono_mul(rest, ((a, 1),))
            co = app("cos", (at.args[0],))
            q = P({rest: c})
            one_m = add(ONE, mul(co, co), -1.0)
            for _ in range(k):
                q = mul(q, one_m)
        acc.append(q)
    return addn(acc)


def mul(a, b):
    if not a.d or not b.d:
        return ZERO
    if a.is_const():
        return scale(b, a.const())
    if b.is_const():
        return scale(a, b.const())
    if len(a.d) * len(b.d) > 200000:
        raise Unsupported("term too large")
    if len(b.d) == 1 and len(a.d) > 1:
        a, b = b, a
    if len(a.d) == 1 and len(b.d) > 1:
        r = _cancel(a, b)
        if r is not None:
            return r
    d = {}
    mx = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            if c == 0.0:
                continue
            if m in d:
                d[m] += c
                mx[m] = max(mx[m], abs(c))
            else:
                d[m] = c
                mx[m] = abs(c)
    d = {m: c for m, c in d.items() if abs(c) > TIDY * mx[m]}
    return _clean(d)


def _cancel(a, b):
    """c*m*S**-k times a multiple of the sum S"""
    (m, c), = a.d.items()
    for x, e in m:
        at = T.atoms[x]
        if at.kind != "s" or isinstance(e, float) or e > -1 or len(at.poly.d) != len(b.d):
            continue
        cm = common_mono(b)
        q = b
        if cm:
            inv = mono_pow(cm, -1)
            q = P({mono_mul(k, inv): v for k, v in b.d.items()})
        lm, lc = _lead(q)
        if lm not in at.poly.d:
            continue
        k = lc / at.poly.d[lm]
        q = scale(q, 1.0 / k)
        if q.d.keys() == at.poly.d.keys() and _same(q, at.poly):
            r = P({mono_mul(mono_mul(m, cm), ((x, 1),)): c * k})
            return _clean(r.d)
    return None


# ---------------------------------------------------------------- interning
def _pkey(p):
    return tuple(sorted(p.d))


def _same(p, q):
    for m, c in p.d.items():
        x = q.d[m]
        if abs(x - c) > MATCH * max(abs(x), abs(c)):
            return False
    return True


class _Bucket:
    """atoms of one structure; looked up by a weighted sum of the logarithms of their coefficients, which equal ones share"""
    __slots__ = ("sig", "atoms")

    def __init__(self):
        self.sig, self.atoms = [], []

    @staticmethod
    def signature(ps):
        t, n = 0.0, 0
        for p in ps:
            for m in sorted(p.d):
                n += 1
                c = abs(p.d[m])
                t += math.log(c) * (1.0 + 0.37 * (n % 11)) if c > 0 else 0.0
        return t, (n + 1) * 5.0 * MATCH * 2 + 1e-12 * (abs(t) + n * 100)

    def find(self, ps, get):
        s, w = self.signature(ps)
        i = bisect.bisect_left(self.sig, s - w)
        best = None
        while i < len(self.sig) and self.sig[i] <= s + w:
            a = self.atoms[i]
            if (best is None or a.id < best.id) and all(_same(p, q) for p, q in zip(ps, get(a))):
                best = a
            i += 1
        return best, s

    def __iter__(self):
        return iter(sorted(self.atoms, key=lambda a: a.id))

    def add(self, s, a):
        i = bisect.bisect_right(self.sig, s)
        self.sig.insert(i, s)
        self.atoms.insert(i, a)


def app(fn, args, par=None):
    """application atom (as polynomial)"""
    key = (fn, par, tuple(_pkey(p) for p in args))
    lst = T.idx.get(key)
    if lst is None:
        lst = T.idx[key] = _Bucket()
    a, sig = lst.find(args, lambda a: a.args)
    if a is not None:
        return P({((a.id, 1),): 1.0})
    a = T._new("f", fn=fn, args=tuple(args), par=par)
    lst.add(sig, a)
    return P({((a.id, 1),): 1.0})


def _lead(p):
    m = min(p.d, key=lambda m: (len(m), m))
    return m, p.d[m]


def sum_atom(p):
    key = ("s", _pkey(p))
    lst = T.idx.get(key)
    if lst is None:
        lst = T.idx[key] = _Bucket()
    a, sig = lst.find((p,), lambda a: (a.poly,))
    if a is not None:
        return a
    a = T._new("s", poly=p)
    lst.add(sig, a)
    return a


def exp_mono_atom(m):
    key = ("e", m)
    lst = T.idx.setdefault(key, [])
    if lst:
        return lst[0]
    a = T._new("e", poly=P({m: 1.0}))
    lst.append(a)
    return a


def common_mono(p):
    """largest common monomial factor (integer content only, min exponents)"""
    it = iter(p.d)
    first = dict(next(it))
    for m in it:
        dm = dict(m)
        for a in list(first):
            if a in dm:
                e1, e2 = first[a], dm[a]
                if (isinstance(e1, float) or isinstance(e2, float)):
                    if e1 != e2:
                        del first[a]
                else:
                    first[a] = min(e1, e2)
            else:
                del first[a]
        if not first:
            break
    # negative exponents absent elsewhere
    neg = {}
    for m in p.d:
        for a, e in m:
            if not isinstance(e, float) and e < 0 and T.atoms[a].kind != "e":
                neg[a] = min(neg.get(a, 0), e)
    for a, e in neg.items():
        first[a] = e
    return tuple(sorted(first.items()))


def mono_pow(m, k):
    out = []
    for a, e in m:
        x = e * k
        if isinstance(e, float) or isinstance(x, float):
            x = _cexp(a, float(x)) if T.atoms[a].kind == "e" else x
        else:
            x = _nexp(x)
        if x != 0:
            out.append((a, x))
    return tuple(out)


def as_frac(q):
    """exact small rational close to q, or None"""
    if isinstance(q, (int, Fraction)):
        return Fraction(q)
    f = Fraction(float(q)).limit_denominator(720)
    if abs(float(f) - float(q)) <= 1e-14 * max(1.0, abs(float(q))):
        return f
    return None


def power(p, q, nonneg_ok=None):
    """p ** q for a constant exponent q (domain already checked by the caller)."""
    if p.is_const():
        c = p.const()
        if abs(c) < 1e-12 and q > 0 and (c == 0.0 or (c < 0 and float(q) != int(q))):
            return ZERO
        if c == 0.0 or (c < 0 and float(q) != int(q)):
            raise Unsupported("power outside its domain")
        return const(c ** (int(q) if float(q) == int(q) else float(q)))
    fq = as_frac(q)
    if fq is None:
        # general real power  = exp(q * log p)
        return exp(scale(log(p), float(q)))
    if fq.denominator == 1:
        k = int(fq)
        if k == 0:
            return ONE
        if k == 1:
            return p
        if len(p.d) == 1:
            (m, c), = p.d.items()
            return _clean({mono_pow(m, k): c ** k})
        if k > 0 and len(p.d) ** k <= EXPAND:
            r = p
            for _ in range(k - 1):
                r = mul(r, p)
            return r
        return _sum_pow(p, k)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c > 0:
            out = []
            ok = True
            absneed = []
            for a, e in m:
                at = T.atoms[a]
                if at.kind == "e":
                    out.append((a, _cexp(a, e * float(fq))))
                    continue
                lo, hi = aiv(at)
                x = _nexp(e * fq)
                if lo >= 0:
                    if x != 0:
                        out.append((a, x))
                elif isinstance(e, int) and e % 2 == 0:
                    if isinstance(x, int) and x % 2 == 0:
                        out.append((a, x))
                    else:
                        absneed.append((a, x))
                else:
                    ok = False
                    break
            if ok:
                r = _clean({tuple(sorted(out)): c ** float(fq)})
                for a, x in absneed:
                    ab = ABS(P({((a, 1),): 1.0}))
                    r = mul(r, power(ab, x))
                return r
    return _sum_pow(p, fq)


def ABS(p):  # replaced by the engine (forks on the sign)
    raise Unsupported("abs")


def poly_sqrt(p):
    """q with q*q == p, or None (p a sum with integer exponents)"""
    n = len(p.d)
    if n < 3 or n > 40:
        return None
    atoms = set()
    for m in p.d:
        for a, e in m:
            if T.atoms[a].kind == "e" or not isinstance(e, int):
                return None
            atoms.add(a)
    atoms = sorted(atoms)
    if len(atoms) > 6:
        return None

    def vec(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in atoms)

    def unvec(v):
        return tuple((a, e) for a, e in zip(atoms, v) if e)
    d = {vec(m): c for m, c in p.d.items()}
    top = max(d)
    bot = min(d)
    for v in (top, bot):
        if any(e % 2 for e in v) or d[v] <= 0:
            return None
    lead = tuple(e // 2 for e in top)
    lc = math.sqrt(d[top])
    q = {lead: lc}
    rem = dict(d)
    del rem[top]
    mag = {v: abs(c) for v, c in d.items()}
    for _ in range(20):
        if not rem:
            break
        r = max(rem)
        nv = tuple(x - y for x, y in zip(r, lead))
        if nv >= lead or nv in q or tuple(2 * e for e in nv) < bot:
            return None
        nc = rem[r] / (2 * lc)
        # rem -= 2*q*new + new**2
        for v, c in list(q.items()):
            w = tuple(x + y for x, y in zip(v, nv))
            x = rem.get(w, 0.0) - 2 * c * nc
            mag[w] = max(mag.get(w, 0.0), abs(2 * c * nc))
            rem[w] = x
        w = tuple(2 * x for x in nv)
        rem[w] = rem.get(w, 0.0) - nc * nc
        mag[w] = max(mag.get(w, 0.0), nc * nc)
        q[nv] = nc
        rem = {v: c for v, c in rem.items() if abs(c) > TIDY * 4 * mag[v]}
    if rem:
        return None
    return P({unvec(v): c for v, c in q.items()})


def _sum_pow(p, k):
    """(c * m * S) ** k with S an interned primitive sum"""
    fk = Fraction(k)
    if fk.denominator % 2 == 0:
        q = poly_sqrt(p)
        if q is not None:
            return power(ABS(q), fk * 2)
    frac = not (isinstance(k, int) or Fraction(k).denominator == 1)
    cm = common_mono(p)
    if cm:
        if frac:
            cm = tuple((a, e) for a, e in cm
                       if T.atoms[a].kind == "e" or aiv(T.atoms[a])[0] >= 0 or (isinstance(e, int) and e % 2 == 0 and aiv(T.atoms[a])[0] >= 0))
        if cm:
            inv = mono_pow(cm, -1)
            p = P({mono_mul(m, inv): c for m, c in p.d.items()})
    m, c = _lead(p)
    if frac:
        c = abs(c)
    prim = scale(p, 1.0 / c)
    if prim.is_const():
        base = P({(): prim.const() ** float(k)})
    else:
        a = sum_atom(prim)
        base = P({((a.id, _nexp(Fraction(k))),): 1.0})
    r = scale(base, c ** (int(k) if not frac else float(k)))
    if cm:
        r = mul(r, power(P({cm: 1.0}), Fraction(k)) if frac else P({mono_pow(cm, int(k)): 1.0}))
    if len(r.d) == 1 and isinstance(k, int) and k > 0:
        return r
    return _clean(r.d)


def root_of_squares(p):
    """sqrt(p) for p known to be a sum of squares: the sums under the root are marked non-negative"""
    r = power(p, Fraction(1, 2))
    for m in r.d:
        for a, e in m:
            at = T.atoms[a]
            if at.kind == "s" and not isinstance(e, int) and not at.nn:
                at.nn, at.epoch = True, -1
                r._ep = -1
    return r


def exp(p):
    if p.is_const():
        return const(math.exp(p.const()))
    c0 = p.d.get((), 0.0)
    m = []
    for mm, c in p.d.items():
        if mm == ():
            continue
        # log atoms:  exp(c*log x) = x**c
        if len(mm) == 1 and mm[0][1] == 1 and T.atoms[mm[0][0]].kind == "f" and T.atoms[mm[0][0]].fn == "log":
            f = as_frac(c)
            if f is not None:
                base = power(T.atoms[mm[0][0]].args[0], f)
                if len(base.d) == 1:
                    (bm, bc), = base.d.items()
                    c0 += math.log(bc)
                    m = list(mono_mul(tuple(sorted(m)), bm))
                    continue
        a = exp_mono_atom(mm)
        m = list(mono_mul(tuple(sorted(m)), ((a.id, _cexp(a.id, c)),)))
    if abs(c0) > 600:
        # keep the sum together: exp(k*s) with s the sum scaled to leading coefficient one
        lead = min((x for x in p.d if x != ()), key=lambda x: (len(x), x))
        k = p.d[lead]
        a = exp_mono_atom(((sum_atom(scale(p, 1.0 / k)).id, 1),))
        return _clean({((a.id, _cexp(a.id, k)),): 1.0})
    return _clean({tuple(sorted(m)): math.exp(c0)})


def log(p):
    if p.is_const():
        return const(math.log(p.const()))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c > 0:
            parts = [const(math.log(c))]
            ok = True
            for a, e in m:
                at = T.atoms[a]
                if at.kind == "e":
                    parts.append(scale(at.poly, e))
                elif aiv(at)[0] >= 0:
                    if at.kind == "s":
                        q = at.poly
                        parts.append(scale(app("log", (q,)), float(e)))
                    else:
                        parts.append(scale(app("log", (P({((a, 1),): 1.0}),)), float(e)))
                else:
                    ok = False
                    break
            if ok:
                return addn(parts)
        return app("log", (p,))
    cm = common_mono(p)
    cm = tuple((a, e) for a, e in cm if T.atoms[a].kind == "e" or aiv(T.atoms[a])[0] >= 0)
    parts = []
    if cm:
        inv = mono_pow(cm, -1)
        p = P({mono_mul(m, inv): c for m, c in p.d.items()})
        parts.append(log(P({cm: 1.0})))
    m, c = _lead(p)
    c = abs(c)
    parts.append(const(math.log(c)))
    q = scale(p, 1.0 / c)
    parts.append(app("log", (q,)))
    return addn(parts)


def _neglead(p):
    m, c = _lead(p)
    return c < 0


def _asapp(p, fn):
    """if p == k * fn(x) with a single application atom return (k, atom)"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and m[0][1] == 1:
            at = T.atoms[m[0][0]]
            if at.kind == "f" and at.fn == fn:
                return c, at
    return None


def _acos_split(p):
    """p = k*acos(x) + r*pi/2 (integers k, r) -> (k, x, r) or None"""
    k = None
    at = None
    r = 0.0
    for m, c in p.d.items():
        if m == ():
            r = c / (math.pi / 2)
            if abs(r - round(r)) > 1e-11:
                return None
            r = round(r)
        elif len(m) == 1 and m[0][1] == 1 and T.atoms[m[0][0]].kind == "f" and T.atoms[m[0][0]].fn == "acos":
            if at is not None:
                return None
            at = T.atoms[m[0][0]]
            if abs(abs(c) - 0.5) <= 1e-12:
                k = math.copysign(0.5, c)
                continue
            if abs(c - round(c)) > 1e-11 or not 1 <= abs(round(c)) <= 2:
                return None
            k = round(c)
        else:
            return None
    if at is None:
        return None
    return k, at.args[0], int(r)


def cos(p):
    if p.is_const():
        return const(_tz(math.cos(p.const())))
    s = _acos_split(p)
    if s:
        return _trig_acos(s, True)
    q = _atan_split(p)
    if q is not None:
        return power(add(ONE, mul(q, q)), Fraction(-1, 2))
    p, sg, iscos = _red(p, True)
    if p.is_const():
        return const(sg * (_tz(math.cos(p.const())) if iscos else _tz(math.sin(p.const()))))
    return scale(app("cos" if iscos else "sin", (p,)), sg)


def sin(p):
    if p.is_const():
        return const(_tz(math.sin(p.const())))
    s = _acos_split(p)
    if s:
        return _trig_acos(s, False)
    q = _atan_split(p)
    if q is not None:
        return mul(q, power(add(ONE, mul(q, q)), Fraction(-1, 2)))
    p, sg, iscos = _red(p, False)
    if p.is_const():
        return const(sg * (_tz(math.cos(p.const())) if iscos else _tz(math.sin(p.const()))))
    return scale(app("cos" if iscos else "sin", (p,)), sg)


def _tz(x):
    return 0.0 if abs(x) < 4e-16 else x


def _atan_split(p):
    x = _asapp(p, "atan")
    if x and abs(x[0] - 1) < 1e-12:
        return x[1].args[0]
    return None


def _red(p, iscos):
    """remove multiples of pi/2 from the constant part, make leading coefficient positive"""
    sg = 1.0
    c0 = p.d.get((), 0.0)
    if c0:
        r = c0 / (math.pi / 2)
        if abs(r - round(r)) < 1e-11:
            r = int(round(r)) % 4
            p = P({m: c for m, c in p.d.items() if m != ()})
            # f(x + r*pi/2)
            for _ in range(r):
                if iscos:  # cos(x+pi/2) = -sin x
                    iscos = False
                    sg = -sg
                else:
                    iscos = True
    if p.d and _neglead(P({m: c for m, c in p.d.items() if m != ()})):
        p = scale(p, -1.0)
        if not iscos:
            sg = -sg
    return p, sg, iscos


def _trig_acos(s, iscos):
    k, x, r = s
    sg = 1.0
    r %= 4
    for _ in range(r):
        if iscos:
            iscos = False
            sg = -sg
        else:
            iscos = True
    if k < 0:
        k = -k
        if not iscos:
            sg = -sg
    if k == 0.5:
        return scale(power(scale(add(ONE, x, 1.0 if iscos else -1.0), 0.5), Fraction(1, 2)), sg)
    sq = power(add(ONE, mul(x, x), -1.0), Fraction(1, 2))
    if k == 1:
        return scale(x if iscos else sq, sg)
    if iscos:
        return scale(add(scale(mul(x, x), 2.0), ONE, -1.0), sg)
    return scale(mul(x, sq), 2.0 * sg)


def acos(p):
    if p.is_const():
        x = p.const()
        if 1.0 < abs(x) < 1.0 + 1e-9:
            x = math.copysign(1.0, x)
        return const(math.acos(x))
    x = _asapp(p, "cos")
    if x and abs(x[0] - 1) < 1e-12:
        lo, hi = iv(x[1].args[0])
        if lo >= 0 and hi <= math.pi:
            return x[1].args[0]
    if _neglead(P({m: c for m, c in p.d.items() if m != ()})):
        return add(const(math.pi), app("acos", (scale(p, -1.0),)), -1.0)
    return app("acos", (p,))


def asin(p):
    return add(const(math.pi / 2), acos(p), -1.0)


def atan(p):
    if p.is_const():
        return const(math.atan(p.const()))
    if _neglead(p):
        return scale(app("atan", (scale(p, -1.0),)), -1.0)
    return app("atan", (p,))


# ------------------------------------------------------------------ intervals
def _wid(lo, hi):
    e = 1e-13
    if lo != -INF:
        lo -= e * abs(lo)
    if hi != INF:
        hi += e * abs(hi)
    return lo, hi


def _imul(a, b):
    def t(x, y):
        return 0.0 if x == 0.0 or y == 0.0 else x * y
    v = (t(a[0], b[0]), t(a[0], b[1]), t(a[1], b[0]), t(a[1], b[1]))
    return min(v), max(v)


def _ipow(lo, hi, e):
    fe = float(e)
    try:
        if isinstance(e, int) and e > 0:
            if e % 2:
                return _p(lo, e), _p(hi, e)
            if lo >= 0:
                return _p(lo, e), _p(hi, e)
            if hi <= 0:
                return _p(hi, e), _p(lo, e)
            return 0.0, max(_p(lo, e), _p(hi, e))
        if isinstance(e, int):
            if lo > 0 or hi < 0:
                a, b = _p(lo, e), _p(hi, e)
                return min(a, b), max(a, b)
            if lo == 0:
                return _p(hi, e) if hi != INF else 0.0, INF
            return (0.0, INF) if e % 2 == 0 else (-INF, INF)
        lo = max(lo, 0.0)
        hi = max(hi, 0.0)
        if fe > 0:
            return _p(lo, fe), _p(hi, fe)
        return (_p(hi, fe), (_p(lo, fe) if lo > 0 else INF))
    except OverflowError:
        return (-INF, INF) if (isinstance(e, int) and e % 2 and lo < 0) else (0.0, INF)


def _p(x, e):
    if abs(x) == INF:
        if e > 0:
            return INF if (x > 0 or (isinstance(e, int) and e % 2 == 0)) else -INF
        return 0.0
    if x == 0:
        return 0.0 if e > 0 else INF
    try:
        return float(x) ** e
    except OverflowError:
        return INF if (x > 0 or e % 2 == 0) else -INF


def aiv(at):
    if at.epoch == T.epoch:
        return at._iv
    at.epoch = T.epoch
    at._iv = (-INF, INF)
    k = at.kind
    if k == "v":
        r = T.bounds[at.id]
    elif k == "s":
        r = iv(at.poly)
        if at.nn and r[0] < 0:
            r = (0.0, r[1])
    elif k == "e":
        lo, hi = iv(at.poly)
        r = (_e(lo), _e(hi))
    else:
        r = fiv(at)
    at._iv = r
    return r


def _e(x):
    if x == INF or x > 700:
        return INF
    if x == -INF or x < -740:
        return 0.0
    return math.exp(x)


def fiv(at):
    fn = at.fn
    a = iv(at.args[0]) if at.args else (-INF, INF)
    if fn == "cos":
        if 0 <= a[0] and a[1] <= math.pi:
            return _wid(math.cos(a[1]), math.cos(a[0]))
        if -math.pi / 2 <= a[0] and a[1] <= math.pi / 2:
            return _wid(min(math.cos(a[0]), math.cos(a[1])), 1.0)
        return (-1.0, 1.0)
    if fn == "sin":
        if -math.pi / 2 <= a[0] and a[1] <= math.pi / 2:
            lo, hi = math.sin(a[0]), math.sin(a[1])
            return _wid(lo, hi)
        if 0 <= a[0] and a[1] <= math.pi:
            return (0.0, 1.0)
        return (-1.0, 1.0)
    if fn == "acos":
        lo, hi = max(a[0], -1.0), min(a[1], 1.0)
        if lo > hi:
            return (0.0, math.pi)
        r = _wid(math.acos(hi), math.acos(lo))
        return (max(0.0, r[0]), r[1])
    if fn == "atan":
        lo = -math.pi / 2 if a[0] == -INF else math.atan(a[0])
        hi = math.pi / 2 if a[1] == INF else math.atan(a[1])
        return _wid(lo, hi)
    if fn == "log":
        return _wid(-INF if a[0] <= 0 else math.log(a[0]), INF if a[1] == INF else (math.log(a[1]) if a[1] > 0 else -INF)) if a[1] > 0 else (-INF, INF)
    if fn == "jn":
        return (-1.0, 1.0)
    if fn == "floor":
        return (a[0] - 1 if a[0] == -INF else math.floor(a[0]), a[1] if a[1] == INF else math.floor(a[1]))
    if at.par and isinstance(at.par, tuple) and len(at.par) == 3 and at.par[0] == "iv":
        return at.par[1], at.par[2]
    return (-INF, INF)


def iv(p):
    if p._ep == T.epoch:
        return p._iv
    lo = hi = 0.0
    for m, c in p.d.items():
        a = (c, c)
        # exp part jointly
        for aid, e in m:
            at = T.atoms[aid]
            if at.kind == "e":
                l, h = iv(at.poly)
                l, h = _imul((l, h), (e, e))
                x = (_e(l), _e(h))
            else:
                l, h = aiv(at)
                x = _ipow(l, h, e)
            a = _imul(a, x)
        lo += a[0]
        hi += a[1]
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    n = len(p.d)
    if n > 1:
        mag = sum(abs(c) for c in p.d.values())
        lo, hi = _wid(lo, hi)
    p._iv = (lo, hi)
    p._ep = T.epoch
    return p._iv


# ----------------------------------------------------------------- evaluation
def evalp(p, env, memo=None):
    """numeric value of p for var-name -> float"""
    if memo is None:
        memo = {}
    return sum((c * _evm(m, env, memo) for m, c in p.d.items()), 0.0)


def _evm(m, env, memo):
    r = 1.0
    ex = 0.0
    for a, e in m:
        at = T.atoms[a]
        if at.kind == "e":
            ex += e * evalp(at.poly, env, memo)
        else:
            v = _eva(at, env, memo)
            if v < 0 and not isinstance(e, int):
                v = 0.0 if v > -1e-9 else float("nan")
            try:
                r *= v ** (e if isinstance(e, int) else float(e))
            except ZeroDivisionError:
                return float("inf")
    if ex:
        r *= _e(ex)
    return r


def _eva(at, env, memo):
    if at.id in memo:
        return memo[at.id]
    if at.kind == "v":
        v = env[at.name]
    elif at.kind == "s":
        v = evalp(at.poly, env, memo)
    else:
        a = [evalp(q, env, memo) for q in at.args]
        v = EVAL[at.fn](at, *a)
    memo[at.id] = v
    return v


def _jn(at, x):
    from scipy.special import jn
    return float(jn(at.par, x))


EVAL = {
    "cos": lambda at, x: math.cos(x),
    "sin": lambda at, x: math.sin(x),
    "acos": lambda at, x: math.acos(max(-1.0, min(1.0, x))),
    "atan": lambda at, x: math.atan(x),
    "log": lambda at, x: math.log(x) if x > 0 else float("nan"),
    "floor": lambda at, x: float(math.floor(x)),
    "jn": _jn,
}


# --------------------------------------------------------------- zero testing
def reduce_zero(p, limit=20000, factor=None):
    """clear negative powers of sum atoms and expand: returns p*(positive-power product);
    factor, a one-element list, is multiplied by a lower bound on the magnitude of that product"""
    for _ in range(40):
        if not p.d:
            return p
        neg = {}
        for m in p.d:
            for a, e in m:
                if T.atoms[a].kind == "s" and not isinstance(e, float) and e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            return p
        a = min(neg, key=lambda x: (len(T.atoms[x].poly.d), -x))
        f = P({((a, _nexp(-Fraction(neg[a]))),): 1.0})
        if len(p.d) * len(T.atoms[a].poly.d) > limit:
            return p
        if factor is not None:
            lo, hi = iv(f)
            factor[0] *= 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        p = _mul_tol(p, f)
    return p


def _mul_tol(p, f):
    q = mul(p, f)
    if not q.d:
        return q
    return q


def subst(p, env, memo=None):
    """replace variable atoms (id -> P) everywhere, rebuilding function atoms"""
    if memo is None:
        memo = {}
    parts = []
    keep = {}
    for m, c in p.d.items():
        new = None
        rest = []
        for a, e in m:
            at = T.atoms[a]
            if at.kind == "e":
                x = _sub_exp(at, e, env, memo)
            else:
                x = _sub_atom(at, env, memo)
                if x is not None:
                    x = power(x, e)
            if x is None:
                rest.append((a, e))
            else:
                new = x if new is None else mul(new, x)
        if new is None:
            keep[m] = c
        else:
            parts.append(scale(mul(P({tuple(rest): 1.0}), new), c))
    if not parts:
        return p
    return addn([P(keep)] + parts)


def _sub_exp(at, e, env, memo):
    k = ("e", at.id)
    if k not in memo:
        q = subst(at.poly, env, memo)
        memo[k] = None if q is at.poly else q
    q = memo[k]
    return None if q is None else exp(scale(q, e))


def _sub_atom(at, env, memo):
    if at.id in memo:
        return memo[at.id]
    r = None
    if at.kind == "v":
        r = env.get(at.id)
    elif at.kind == "s":
        q = subst(at.poly, env, memo)
        r = None if q is at.poly else simp(q)
    else:
        args = [subst(q, env, memo) for q in at.args]
        if any(x is not y for x, y in zip(args, at.args)):
            args = [simp(x) for x in args]
            r = REBUILD[at.fn](*args) if at.fn in REBUILD else app(at.fn, tuple(args), at.par)
    memo[at.id] = r
    return r


def simp(p):
    """recognise rational constants hidden behind denominators"""
    if p.is_const() or len(p.d) > 60:
        return p
    try:
        for env in _PROBE:
            v = evalp(p, _Probe(env))
            break
        w = evalp(p, _Probe(1))
    except (ValueError, OverflowError, ZeroDivisionError):
        return p
    if v != v or w != w or abs(v - w) > 1e-9 * max(1.0, abs(v)):
        return p
    for c in (round(v), round(2 * v) / 2.0, v):
        if abs(c - v) <= 1e-9:
            z = reduce_zero(add(p, const(c), -1.0) if c else p)
            if not z.d:
                return const(c)
    return p


_PROBE = (0,)


class _Probe(dict):
    def __init__(self, k):
        super().__init__()
        self.k = k

    def __missing__(self, n):
        lo, hi = T.bounds[T.vars[n].id]
        if lo == -INF or hi == INF:
            lo, hi = 0.3, 0.7
        x = ((hash_(n) + 0.37 * self.k) % 1.0) * 0.8 + 0.1
        v = lo + (hi - lo) * x
        self[n] = v
        return v


def hash_(n):
    import zlib
    return (zlib.crc32(n.encode()) % 9973) / 9973.0


REBUILD = {}


def solve_for(p):
    """(var atom id, expression) with p == 0  <=>  var == expression, or None"""
    cands = []
    vs = {}
    for m in p.d:
        for a, e in m:
            vs.setdefault(a, []).append((m, e))
    inside = set()
    for a in vs:
        at = T.atoms[a]
        if at.kind != "v":
            for x in support(P({((a, 1),): 1.0})).values():
                if x.id != a:
                    inside.add(x.id)
    for a, occ in vs.items():
        at = T.atoms[a]
        if at.kind != "v" or a in inside:
            continue
        es = {e for _, e in occ}
        if len(es) != 1:
            # quadratic with perfect square handled by poly_sqrt elsewhere
            if es == {1, 2}:
                cands.append((9, a, "q"))
            continue
        e = es.pop()
        if not isinstance(e, int) or e not in (1, -1, 2):
            continue
        cands.append((len(occ) + (abs(e) - 1) * 2 + (0 if aiv(at)[0] > 0 else 5), a, e))
    cands.sort()
    for _, a, e in cands:
        if e == "q":
            continue
        co, re = {}, {}
        for m, c in p.d.items():
            x = dict(m).get(a)
            if x is None:
                re[m] = c
            else:
                co[tuple(t for t in m if t[0] != a)] = c
        co, re = P(co), scale(P(re), -1.0)
        lo, hi = iv(co)
        if not re.d or (lo <= 0 <= hi and not (len(co.d) == 1 and all(nz_atom(b) for b, _ in next(iter(co.d))))):
            continue
        try:
            x = mul(re, power(co, -1))
            if e == 2:
                if aiv(T.atoms[a])[0] < 0 or iv(x)[1] <= 0:
                    continue
                x = power(x, Fraction(1, 2))
            elif e == -1:
                if iv(x)[0] <= 0 <= iv(x)[1]:
                    continue
                x = power(x, -1)
        except Unsupported:
            continue
        return a, x
    return None


def nz_atom(a):
    """is the atom certainly nonzero?"""
    at = T.atoms[a]
    if at.kind == "e" or at.nonzero:
        return True
    lo, hi = aiv(at)
    if lo > 0 or hi < 0:
        return True
    if at.kind == "s":
        one = False
        for m, c in at.poly.d.items():
            l, h = iv(P({m: c}))
            if l < 0:
                return False
            if all(nz_atom(b) for b, _ in m):
                one = True
        return one
    return False


def primitive(p):
    """divide out common factors that cannot vanish"""
    if not p.d:
        return p
    it = list(p.d)
    com = dict(it[0])
    for m in it[1:]:
        d = dict(m)
        for a in list(com):
            if a not in d:
                del com[a]
            elif d[a] != com[a]:
                if isinstance(d[a], float) or isinstance(com[a], float):
                    del com[a]
                else:
                    com[a] = min(com[a], d[a])
    f = tuple(sorted((a, -e) for a, e in com.items() if e != 0 and nz_atom(a)))
    return mul(p, P({f: 1.0})) if f else p


def _unroot(p):
    """A*S**(1/2) + B == 0  implies  A*A*S == B*B"""
    for m in p.d:
        for a, e in m:
            if T.atoms[a].kind == "s" and e == Fraction(1, 2):
                A, B = {}, {}
                for m2, c in p.d.items():
                    e2 = dict(m2).get(a)
                    if e2 is None:
                        B[m2] = c
                    elif e2 == e:
                        A[tuple(t for t in m2 if t[0] != a)] = c
                    else:
                        return None
                A, B = P(A), P(B)
                q = add(mul(mul(A, A), T.atoms[a].poly), mul(B, B), -1.0)
                return solve_for(primitive(q))
    return None


def eliminate(eqs):
    """chain of substitutions [(id, P)] from equalities p == 0"""
    out = []
    for p in eqs:
        for a, x in out:
            p = subst(p, {a: x})
        if len(p.d) == 1:
            (m, c), = p.d.items()
            frac = [a for a, e in m if not isinstance(e, int) and T.atoms[a].kind == "s"]
            if len(frac) == 1:
                p = T.atoms[frac[0]].poly
        p = primitive(p)
        if p.is_const():
            continue
        s = solve_for(p)
        if s is None:
            q = poly_sqrt(p) or poly_sqrt(scale(p, -1.0))
            s = solve_for(q) if q is not None else None
        if s is None:
            s = _unroot(p)
        if s is not None:
            out.append(s)
    return out


def apply_subst(p, chain):
    for a, x in chain:
        p = subst(p, {a: x})
    return p


def show(p, depth=3):
    if not p.d:
        return "0"
    out = []
    for m, c in list(p.d.items())[:12]:
        s = "%.6g" % c
        for a, e in m:
            s += "*" + showa(T.atoms[a], depth - 1) + ("" if e == 1 else "^%s" % (e,))
        out.append(s)
    if len(p.d) > 12:
        out.append("...(%d terms)" % len(p.d))
    return " + ".join(out)


def showa(at, depth):
    if at.kind == "v":
        return at.name
    if depth <= 0:
        return "%s%d" % (at.kind, at.id)
    if at.kind == "s":
        return "(" + show(at.poly, depth) + ")"
    if at.kind == "e":
        return "E(" + show(at.poly, depth) + ")"
    return at.fn + ("%s" % at.par if at.par is not None else "") + "(" + ", ".join(show(q, depth) for q in at.args) + ")"


def support(p, acc=None):
    """all atoms reachable from p"""
    if acc is None:
        acc = {}
    for m in p.d:
        for a, _ in m:
            at = T.atoms[a]
            if a in acc:
                continue
            acc[a] = at
            if at.poly is not None:
                support(at.poly, acc)
            for q in at.args:
                support(q, acc)
    return acc


REBUILD.update({"cos": cos, "sin": sin, "acos": acos, "atan": atan, "log": log})
