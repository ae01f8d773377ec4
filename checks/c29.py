"""Contrast stretch to 8 bits."""
import numpy as np

from . import spec
from .c27 import rank
from .c32 import purity

m = spec.m


def clip(x):
    if x > 255.0:
        return 255.0
    if x < 0.0:
        return 0.0
    return x


def judge(h, out, img, s, perc, label=""):
    """s: the image's values in increasing order"""
    lo, hi = rank(s, perc[0]), rank(s, perc[1])
    shape = np.shape(img)
    h.true(np.shape(out) == shape, "shape" + label)
    if not h.sym:
        h.true(out.dtype == np.uint8, "8-bit type" + label)
    flat = list(np.asarray(out, dtype=object).reshape(-1))
    ref = list(np.asarray(img, dtype=object).reshape(-1))
    for i, (o, x) in enumerate(zip(flat, ref)):
        o = o if h.sym else float(o)
        h.le(0.0, o, "not below 0" + label)
        h.le(o, 255.0, "not above 255" + label)
        want = clip(255.0 * ((x - lo) / (hi - lo)))
        h.le(o - want, 0.5, "pixel %d not above%s" % (i, label), tol=1e-6)
        h.le(want - o, 0.5, "pixel %d not below%s" % (i, label), tol=1e-6)


def distinct(perm, shape, perc, lo=-100.0):
    """distinct pixel values in a given order"""
    def case(h):
        n = len(perm)
        s = list(h.inc("s", n, lo, 4000.0, 0.01, 5000.0))
        img = h.arr([s[k] for k in perm]).reshape(shape)
        snap = h.snap(img)
        out = h.pb.sim.stretch_contrast_convert_8bit(img) if perc is None else h.pb.sim.stretch_contrast_convert_8bit(img, perc)
        h.unchanged(snap, (img,), "image")
        judge(h, out, img, s, perc or [0.1, 99.9])
        o = list(np.asarray(out, dtype=object).reshape(-1))
        where = {k: i for i, k in enumerate(perm)}
        for a in range(n - 1):
            h.le(o[where[a]] if h.sym else float(o[where[a]]), o[where[a + 1]] if h.sym else float(o[where[a + 1]]), "order of %d" % a)
    return case


def arbitrary(n, perc):
    """any pixel values, equal ones included, as long as the percentiles differ"""
    def case(h):
        img = h.vec("p", n, -1000.0, 70000.0)
        out = h.pb.sim.stretch_contrast_convert_8bit(img, perc)
        s = []
        for x in list(img):
            i = len(s)
            while i > 0 and x < s[i - 1]:
                i -= 1
            s.insert(i, x)
        h.assume(rank(s, perc[1]) - rank(s, perc[0]), ">=", 1e-3)
        judge(h, out, img, s, perc)
    return case


def flat(shape):
    """a picture of one value is black"""
    def case(h):
        c = h.real("c", -1e4, 1e4)
        n = int(np.prod(shape))
        img = h.arr([c] * n).reshape(shape)
        for args in ((), ([0.1, 99.9],), ([0, 100],)):
            out = h.pb.sim.stretch_contrast_convert_8bit(img, *args)
            h.true(np.shape(out) == shape, "shape")
            for i, o in enumerate(np.asarray(out, dtype=object).reshape(-1)):
                h.close(o if h.sym else float(o), 0.0, "black pixel %d" % i, atol=1e-12)
    return case


def nearly(h):
    """flat except for an outlier beyond the percentiles: 0 and 255 only"""
    c, d, k = h.real("c", -1e3, 1e3), h.real("d", 1.0, 1e3), h.real("k", 1.0, 1e3)
    img = h.arr([c, c, c - k, c, c, c, c, c + d, c, c])
    out = h.pb.sim.stretch_contrast_convert_8bit(img, [20, 80])
    for i, o in enumerate(np.asarray(out, dtype=object).reshape(-1)):
        h.close(o if h.sym else float(o), 255.0 if i == 7 else 0.0, "pixel %d" % i, atol=1e-12)


def outlier(h):
    """21 evenly spaced values and one arbitrary pixel far outside the percentiles saturate and never wrap"""
    for name, lo, hi in (("bright", 30.0, 1e6), ("dark", -1e6, -30.0)):
        p = h.real(name, lo, hi)
        v = [float((8 * i) % 21) for i in range(21)]
        v.insert(4, p)
        img = h.arr(v).reshape(2, 11)
        s = sorted(v[:4] + v[5:])
        s = s + [p] if name == "bright" else [p] + s
        judge(h, h.pb.sim.stretch_contrast_convert_8bit(img, [10.0, 90.0]), img, s, [10.0, 90.0], " with a %s outlier" % name)


def affine(h):
    """a shifted picture or one in other units stretches to the same picture"""
    f = h.pb.sim.stretch_contrast_convert_8bit
    p = h.real("p", -20.0, 300.0)
    v = [3.0, 90.0, p, 41.0, 200.0, 77.7]
    s = sorted(v[:2] + v[3:])
    k = 0
    while k < 5 and p > s[k]:
        k += 1
    s = s[:k] + [p] + s[k:]
    for a, b in ((1.0, -500.0), (0.01, 0.0), (37.0, 12.0)):
        img = h.arr([a * x + b for x in v]).reshape(2, 3)
        judge(h, f(img, [5.0, 90.0]), img, [a * x + b for x in s], [5.0, 90.0], " times %g plus %g" % (a, b))


def dtypes(h):
    """integer pictures mean the numbers they hold (fixed pictures)"""
    a = h.real("unused", 0.0, 1.0)
    h.le(a, 1.0, "range")
    px = [200, 3, 77, 41, 120, 9]
    s = sorted(float(x) for x in px)
    for dt in (np.uint8, np.int8, np.uint16, np.int16, np.int64, np.float32, np.float64):
        w = [x - 100 for x in px] if dt is np.int8 else px
        ss = [x - 100.0 for x in s] if dt is np.int8 else s
        img = np.array(w, dtype=dt).reshape(3, 2)
        keep = img.copy()
        for perc in ([0.1, 99.9], [20, 70], [0, 100]):
            out = h.pb.sim.stretch_contrast_convert_8bit(img, perc)
            h.true(out.dtype == np.uint8, "8-bit type")
            lo, hi = rank(ss, perc[0]), rank(ss, perc[1])
            for o, x in zip(out.reshape(-1), w):
                want = min(255.0, max(0.0, 255.0 * (x - lo) / (hi - lo)))
                h.true(abs(float(o) - want) <= 0.5 + 1e-3, "%s pixel %d with %s" % (np.dtype(dt).name, x, perc), "%g for %g" % (float(o), want))
        h.true(img.dtype == dt and bool((img == keep).all()), "image left alone")
    for base in (10 ** 9, -(10 ** 12)):
        img = np.array([[base + 4, base], [base + 1, base + 9]], dtype=np.int64)
        out = h.pb.sim.stretch_contrast_convert_8bit(img, [0, 100])
        for o, x in zip(out.reshape(-1), (4, 0, 1, 9)):
            h.true(abs(float(o) - 255.0 * x / 9) <= 0.5 + 1e-3, "large offset", "%g for %d" % (float(o), x))


CASES = [
    dict(name="distinct-%d-%s" % (len(p), "default" if q is None else "%g-%g" % tuple(q)), fn=distinct(p, s, q), bounds="%d distinct pixels" % len(p), max_paths=900)
    for p, s, q in (((1, 0), (1, 2), None), ((1, 2, 0), (3, 1), None), ((2, 0, 3, 1), (2, 2), None), ((2, 0, 3, 1), (2, 2), [0.0, 100.0]),
                    ((4, 2, 0, 3, 1), (5, 1), [20.0, 80.0]), ((4, 2, 0, 5, 3, 1), (2, 3), [2.0, 98.0]), ((6, 4, 2, 0, 5, 3, 1), (7, 1), None), ((0, 2, 1), (3,), [25.0, 50.0]), ((4, 2, 0, 5, 3, 1), (3, 2), [5.0, 40.0]), ((4, 2, 0, 5, 3, 1), (1, 6), [60.0, 95.0]))
] + [
    dict(name="arbitrary-3", fn=arbitrary(3, [0.0, 100.0]), bounds="3 arbitrary pixels, ties included", max_paths=900),
    dict(name="arbitrary-3-inner", fn=arbitrary(3, [10.0, 80.0]), bounds="3 arbitrary pixels, ties included", max_paths=900),
    dict(name="flat-1x1", fn=flat((1, 1)), bounds="one pixel"),
    dict(name="flat-3x3", fn=flat((3, 3)), bounds="3x3 flat pictures"),
    dict(name="nearly-flat", fn=nearly, bounds="10 pixels, two outliers outside the percentiles"),
    dict(name="outlier", fn=outlier, bounds="22 pixels, one arbitrary up to 1e6 beyond the percentiles"),
    dict(name="affine", fn=affine, bounds="6 pixels, one arbitrary, three affine changes of units", max_paths=900),
    dict(name="dtypes", fn=dtypes, bounds="fixed pictures in 7 number types"),
]
CASES += purity("stretch_contrast_convert_8bit")
OUTSIDE = "Larger pictures with every pixel arbitrary; percentile pairs other than those listed; percentiles closer than 1e-3 without being equal."
