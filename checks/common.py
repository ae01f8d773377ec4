"""Helpers shared by the harnesses."""
import numpy as np

U = 2.0e5  # spatial frequency bound, cycles/radian


def freq(h, name, nonzero=False):
    return h.real(name, -U, U, nonzero=nonzero)


def grid(h, kind, tag=""):
    """frequency grids in the layouts callers use; symbolic entries are arbitrary in +-U"""
    if kind == "1":        # one arbitrary point, strictly off the axes
        u = h.arr([freq(h, "u" + tag, True)])
        v = h.arr([freq(h, "v" + tag, True)])
    elif kind == "axes":   # arbitrary points on the axes and the origin
        u = h.arr([freq(h, "u" + tag, True), 0.0, 0.0])
        v = h.arr([0.0, freq(h, "v" + tag, True), 0.0])
    elif kind == "x":      # one axis: an arbitrary point and the origin
        u, v = h.arr([freq(h, "u" + tag), 0.0]), h.arr([0.0, 0.0])
    elif kind == "y":
        u, v = h.arr([0.0, 0.0]), h.arr([freq(h, "v" + tag), 0.0])
    elif kind == "2d":     # 2x3 matrix: one arbitrary point among fixed ones, one row off-range
        a, b = h.real("u" + tag, 1.0, U), freq(h, "v" + tag, True)
        u = h.arr([[-5.0e3, a, 7.0e4], [0.0, 1.0e3, 3.0e5]])
        v = h.arr([[2.0e4, b, -1.0e4], [3.0e3, 0.0, -4.0e5]])
    elif kind == "grid":   # meshgrid as the metrics build it, symbolic extent
        c = h.real("ext" + tag, 1.0e3, U)
        s = np.linspace(-1.0, 1.0, 3)
        u = h.arr([[float(x) * c for x in s] for _ in s])
        v = h.arr([[float(-y) * c for _ in s] for y in s])
    elif kind == "big":    # long vector, one arbitrary entry
        n = 700
        base = np.linspace(-8e4, 8e4, n)
        lu, lv = list(base), list(base[::-1] * 0.5)
        lu[311] = h.real("u" + tag, 1.0, U)
        lv[311] = freq(h, "v" + tag, True)
        u, v = h.arr(lu), h.arr(lv)
    elif kind == "big2":   # square matrix of the size used for images, scaled down
        n = 33
        base = np.linspace(-8e4, 8e4, n)
        gu, gv = np.meshgrid(base, -base)
        gu, gv = gu.astype(object), gv.astype(object)
        gu[20, 7] = h.real("u" + tag, 1.0, U)
        gv[20, 7] = freq(h, "v" + tag, True)
        u, v = h.arr(gu.tolist()), h.arr(gv.tolist())
    else:
        raise ValueError(kind)
    return u, v


def elem(a, f):
    """list of f applied to the flattened elements"""
    return [f(x) for x in np.asarray(a).reshape(-1)]


def pointwise(h, fn, spec, u, v, params, params2=None, rtol=1e-9, atol=0.0, only_real=True):
    """fn(u, v, *params) must equal spec at every frequency, also when called again
    with other parameters and again with the first ones, and leave u, v alone"""
    snap = h.snap(u, v)
    fu, fv = np.asarray(u).reshape(-1), np.asarray(v).reshape(-1)
    seq = [params] if params2 is None else [params, params2, params]
    for k, p in enumerate(seq):
        r = fn(u, v, *p)
        h.true(np.shape(r) == np.shape(u), "shape", "result shape %s for input %s" % (np.shape(r), np.shape(u)))
        fr = np.asarray(r).reshape(-1)
        for i in range(fu.size):
            h.close(fr[i], spec(fu[i], fv[i], *p), "call%d[%d]" % (k, i), rtol=rtol, atol=atol)
    h.unchanged(snap, (u, v), "inputs")
