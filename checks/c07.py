"""Averages over wavelength."""
import numpy as np

from . import spec
from .c32 import purity

m = spec.m


def case_(order, n_pts, shape2=False, fixed_w=None):
    """any weights, any callback values; the wavelengths in the given order"""
    n = len(order)

    def case(h):
        lam = h.arr(list(order))
        w = h.vec("w", n, 0.0, 1e6) if fixed_w is None else h.arr(list(fixed_w))
        if fixed_w is None:
            h.assume(sum(list(w)), ">", 1e-3)
        val = {x: h.vec("f%d_" % i, n_pts, -1.0, 1.0) for i, x in enumerate(order)}
        if shape2:
            val = {x: v.reshape(2, -1) for x, v in val.items()}
        asked = []

        def f(x):
            x = float(x)
            asked.append(x)
            return val[x]
        snap = h.snap(lam, w)
        r = h.pb.otf.weighted_by_wavelength(lam, w, f)
        h.true(set(asked) <= set(order), "callback arguments", str(asked))
        h.true(np.shape(r) == np.shape(val[order[0]]), "shape", "%s for callbacks of %s" % (np.shape(r), np.shape(val[order[0]])))
        tot = sum(list(w))
        fr = np.asarray(r).reshape(-1)
        for k in range(n_pts):
            want = sum(w[i] * val[x].reshape(-1)[k] for i, x in enumerate(order))
            h.close(fr[k] * tot, want, "weighted mean[%d]" % k, atol=1e-9)
        h.unchanged(snap, (lam, w), "arrays")
        return r
    return case


def arbitrary(n):
    """arbitrary distinct wavelengths in increasing or decreasing order, the callback a smooth function of wavelength"""
    def case(h):
        lam = h.inc("lam", n, 3e-7, 1e-5, 1e-9, 1e-6)
        w = h.vec("w", n, 1e-3, 10.0)
        a, b = h.real("a", -1.0, 1.0), h.real("b", -1e5, 1e5)

        def f(x):
            return h.arr([a + b * x, x * 1e6])
        for q in (lam, lam[::-1]):
            ww = w if q is lam else w[::-1]
            r = h.pb.otf.weighted_by_wavelength(q, ww, f)
            tot = sum(list(w))
            for k in range(2):
                h.close(r[k] * tot, sum(w[i] * f(lam[i])[k] for i in range(n)), "weighted mean[%d]" % k, atol=1e-9)
    return case


def scaled(h):
    """only the ratios of the weights matter"""
    lam, w, k = h.arr([5e-7, 4e-7, 9e-7]), h.vec("w", 3, 1e-3, 10.0), h.real("k", 1e-6, 1e6)
    v = {5e-7: h.vec("a", 2, -1.0, 1.0), 4e-7: h.vec("b", 2, -1.0, 1.0), 9e-7: h.vec("c", 2, -1.0, 1.0)}
    f = h.pb.otf.weighted_by_wavelength
    x, y = f(lam, w, lambda q: v[float(q)]), f(lam, w * k, lambda q: v[float(q)])
    for i in range(2):
        h.close(y[i], x[i], "rescaled weights[%d]" % i, atol=1e-9)


def single(h):
    """all weight on one wavelength"""
    lam = [4e-7, 7e-7, 5e-7, 6e-7]
    k = h.real("k", 1e-3, 1e3)
    v = {x: h.vec("v%d" % i, 2, -1.0, 1.0) for i, x in enumerate(lam)}
    for j in range(4):
        w = h.arr([k if i == j else 0.0 for i in range(4)])
        r = h.pb.otf.weighted_by_wavelength(h.arr(lam), w, lambda q: v[float(q)])
        for i in range(2):
            h.close(r[i], v[lam[j]][i], "only wavelength %d[%d]" % (j, i), atol=1e-9)


def bounded(h):
    """a mean lies between its smallest and largest member"""
    lam, w = [4e-7, 7e-7, 5e-7], h.vec("w", 3, 1e-3, 10.0)
    v = {x: h.real("v%d" % i, -1.0, 1.0) for i, x in enumerate(lam)}
    r = h.pb.otf.weighted_by_wavelength(h.arr(lam), w, lambda q: h.arr([v[float(q)]]))
    tot = sum(list(w))
    lo = m.min(m.min(v[4e-7], v[7e-7]), v[5e-7])
    hi = m.max(m.max(v[4e-7], v[7e-7]), v[5e-7])
    h.le(lo, r[0], "not below the smallest", tol=1e-9)
    h.le(r[0], hi, "not above the largest", tol=1e-9)


def wavefront(h):
    """the use the sensor model makes of it: a polychromatic wavefront error"""
    lam, w = [4.5e-7, 7e-7, 5.2e-7], h.vec("w", 3, 1e-3, 10.0)
    u, v = h.arr([h.real("u", 1.0, 1e5), 0.0]), h.arr([h.real("v", -1e5, 1e5), 0.0])
    pv = h.real("pv", 0.0, 0.5)
    r = h.pb.otf.weighted_by_wavelength(h.arr(lam), w, lambda x: h.pb.otf.wavefront_OTF(u, v, x, pv * (6.33e-7 / x) ** 2, 0.03, 0.05))
    tot = sum(list(w))
    for k in range(2):
        h.close(r[k] * tot, sum(w[i] * spec.wavefront(u[k], v[k], lam[i], pv * (6.33e-7 / lam[i]) ** 2, 0.03, 0.05) for i in range(3)),
                "polychromatic wavefront[%d]" % k, atol=1e-9)


def many(h):
    """fifty wavelengths in a scrambled order, two of the weights arbitrary"""
    n = 50
    lam = [4e-7 + 1e-8 * ((17 * i) % n) for i in range(n)]
    w = [1.0 + (i % 7) for i in range(n)]
    w[13], w[40] = h.real("p", 0.0, 50.0), h.real("q", 0.0, 50.0)
    r = h.pb.otf.weighted_by_wavelength(h.arr(lam), h.arr(w), lambda x: h.arr([1e6 * x, (1e6 * x) ** 2, 1.0]))
    tot = sum(w)
    for k in range(3):
        h.close(r[k] * tot, sum(a * [1e6 * x, (1e6 * x) ** 2, 1.0][k] for a, x in zip(w, lam)), "weighted mean[%d]" % k, rtol=1e-8)


def turbulent(h):
    """a callback that hands out the same array every time must not see it modified"""
    buf = h.vec("b", 3, -1.0, 1.0)
    snap = h.snap(buf)
    w = h.vec("w", 3, 1e-3, 10.0)
    r = h.pb.otf.weighted_by_wavelength(h.arr([4e-7, 6e-7, 5e-7]), w, lambda x: buf)
    for i in range(3):
        h.close(r[i], buf[i], "mean of equal members[%d]" % i, atol=1e-9)
    h.unchanged(snap, (buf,), "callback's array")


CASES = [
    dict(name="one", fn=case_([5e-7], 2), bounds="1 wavelength"),
    dict(name="two", fn=case_([5e-7, 8e-7], 2), bounds="2 wavelengths"),
    dict(name="falling", fn=case_([9e-7, 7e-7, 4e-7], 2), bounds="3 wavelengths in falling order"),
    dict(name="shuffled", fn=case_([6e-7, 4e-7, 9e-7, 5e-7], 2), bounds="4 wavelengths in no order"),
    dict(name="eight", fn=case_([6e-7, 4e-7, 9e-7, 5e-7, 1.1e-6, 4.5e-7, 7e-7, 6.5e-7], 1), bounds="8 wavelengths in no order"),
    dict(name="close-by", fn=case_([5e-7, 5e-7 + 1e-15, 5e-7 - 1e-15], 1), bounds="3 wavelengths a femtometre apart"),
    dict(name="matrix", fn=case_([6e-7, 4e-7, 5e-7], 6, True), bounds="2x3 callbacks"),
    dict(name="arbitrary-2", fn=arbitrary(2), bounds="2 arbitrary wavelengths, both orders"),
    dict(name="arbitrary-3", fn=arbitrary(3), bounds="3 arbitrary wavelengths, both orders"),
    dict(name="scaled", fn=scaled, bounds="any common factor 1e-6 to 1e6"),
    dict(name="single", fn=single, bounds="all weight on any one of 4"),
    dict(name="bounded", fn=bounded, bounds="any values and weights of 3"),
    dict(name="wavefront", fn=wavefront, bounds="3 wavelengths of an arbitrary wavefront error"),
    dict(name="many", fn=many, bounds="50 scrambled wavelengths, two arbitrary weights"),
    dict(name="shared-buffer", fn=turbulent, bounds="callback returning one shared array"),
]
CASES += purity("weighted_by_wavelength")
OUTSIDE = "Repeated wavelengths (the existing tests pin a shape quirk there); weights summing to zero."
