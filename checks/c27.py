"""Pixel values to reflectance, and the calibration a reference image gets by default."""
import numpy as np

from . import spec
from .c32 import purity

m = spec.m


def line(x, pts):
    """piecewise linear through pts (increasing first coordinate), end segments extended, clipped to 0..1"""
    k = 0
    while k < len(pts) - 2 and x > pts[k + 1][0]:
        k += 1
    (xa, ya), (xb, yb) = pts[k], pts[k + 1]
    v = ya + (x - xa) * (yb - ya) / (xb - xa)
    if v > 1.0:
        return 1.0
    if v < 0.0:
        return 0.0
    return v


def two(shape, flip, lo=-50.0, hi=300.0):
    """two calibration values in either order"""
    def case(h):
        r, c = shape
        img = h.mat("p", r, c, lo, hi)
        a, d = h.real("a", 0.0, 200.0), h.real("d", 0.5, 255.0)
        ra, rb = h.real("ra", -0.5, 1.5), h.real("rb", -0.5, 1.5)
        pts = [(a, ra), (a + d, rb)]
        order = pts[::-1] if flip else pts
        pix, refl = h.arr([x[0] for x in order]), h.arr([x[1] for x in order])
        snap = h.snap(img, pix, refl)
        out = h.pb.sim.img_to_reflectance(img, pix, refl)
        h.true(np.shape(out) == (r, c), "shape")
        h.unchanged(snap, (img, pix, refl), "inputs")
        for i in range(r):
            for j in range(c):
                h.close(out[i, j], line(img[i, j], pts), "reflectance[%d,%d]" % (i, j), atol=1e-9)
    return case


def exact(h):
    """calibration pixels get their reflectances exactly"""
    a, d, e = h.real("a", 0.0, 200.0), h.real("d", 0.5, 255.0), h.real("e", 0.5, 255.0)
    r = h.vec("r", 3, 0.0, 1.0)
    img = h.arr([a + d, a, a + d + e])
    for pix, rv in (((a, a + d, a + d + e), (r[0], r[1], r[2])), ((a + d + e, a, a + d), (r[2], r[0], r[1]))):
        out = h.pb.sim.img_to_reflectance(img, h.arr(list(pix)), h.arr(list(rv)))
        for i, w in enumerate((r[1], r[0], r[2])):
            h.close(out[i], w, "calibration pixel %d" % i, atol=1e-9)


def many(order):
    """several calibration points in any order"""
    def case(h):
        n = len(order)
        xs = h.inc("a", n, 0.0, 100.0, 1.0, 90.0)
        r = h.vec("r", n, -0.2, 1.2)
        img = h.arr([h.real("p", -50.0, 400.0)])
        pts = list(zip(list(xs), list(r)))
        out = h.pb.sim.img_to_reflectance(img, h.arr([pts[k][0] for k in order]), h.arr([pts[k][1] for k in order]))
        h.close(out[0], line(img[0], pts), "reflectance", atol=1e-9)
    return case


def local(h):
    """a pixel's reflectance does not depend on its neighbours or place"""
    f = h.pb.sim.img_to_reflectance
    pix, refl = h.arr([20.0, 200.0]), h.arr([0.05, 0.95])
    p, q = h.real("p", -50.0, 300.0), h.real("q", -50.0, 300.0)
    one = f(h.arr([p]), pix, refl)
    a, b = f(h.arr([[10.0, p, q], [250.0, q, p]]), pix, refl), f(h.arr([[q], [p]]), pix, refl)
    for k, x in enumerate((a[0, 1], a[1, 2], b[1, 0])):
        h.close(x, one[0], "same pixel %d" % k, atol=1e-12)
    h.close(a[0, 0], 0.0, "dark pixel", atol=1e-12)
    h.close(a[1, 0], 1.0, "bright pixel", atol=1e-12)
    stack = f(h.arr([[10.0, p], [p, 250.0]]).reshape(2, 1, 2), pix, refl)
    h.true(np.shape(stack) == (2, 1, 2), "shape of a stack")
    h.close(stack[0, 0, 1], one[0], "stack", atol=1e-12)
    h.close(stack[1, 0, 0], one[0], "stack", atol=1e-12)


def dtypes(h):
    """integer pictures and integer calibration values mean the numbers they hold"""
    ra, rb = h.real("ra", 0.1, 0.3), h.real("rb", 0.6, 0.8)
    for dt in (np.uint8, np.uint16, np.int16, np.int64, np.float32):
        for pdt in (dt, np.int64):
            for pix in ([10, 200],) if pdt is dt else ([200, 10],):
                r = h.arr([ra, rb])
                px = [0, 5, 10, 100, 200, 201, 255] + ([300, 9000] if np.dtype(dt).itemsize > 1 else []) + ([-3] if np.dtype(dt).kind != "u" else [])
                img = np.array(px, dtype=dt)
                out = h.pb.sim.img_to_reflectance(img, np.array(pix, dtype=pdt), r)
                pts = [(10.0, ra), (200.0, rb)] if pix[0] == 10 else [(10.0, rb), (200.0, ra)]
                for i, x in enumerate(px):
                    h.close(out[i], line(float(x), pts), "%s pixel %d" % (np.dtype(dt).name, x), rtol=1e-6 if dt is np.float32 else 1e-9, atol=1e-9)


def rank(vals, q):
    """linear percentile of already sorted values"""
    pos = q / 100.0 * (len(vals) - 1)
    k = int(pos)
    if k >= len(vals) - 1:
        return vals[-1]
    return vals[k] + (vals[k + 1] - vals[k]) * (pos - k)


def laid(img, how):
    """the same picture with another memory layout"""
    if how == "columns":
        return img.copy(order="F")
    if how == "turned":
        return img.T.copy().T
    if how == "part":
        big = img.repeat(2, axis=0).repeat(3, axis=1)
        return big[::2, ::3]
    if how == "backwards":
        return img[::-1, ::-1].copy()[::-1, ::-1]
    return img


def default(perm, shape, how=None):
    """without calibration, the 0.2 and 99.8 percentiles of the whole image mean 0.05 and 0.95"""
    def case(h):
        n = len(perm)
        s = list(h.inc("s", n, 0.0, 100.0, 0.5, 50.0))
        img = laid(h.arr([s[k] for k in perm]).reshape(shape), how)
        gsd = h.real("gsd", 1e-3, 100.0)
        snap = h.snap(img)
        ri = h.pb.RefImage(img, gsd)
        h.unchanged(snap, (img,), "image")
        h.true(ri.img is img, "stored image")
        h.close(ri.gsd, gsd, "sample distance")
        h.close(ri.pix_values[0], rank(s, 0.2), "low percentile")
        h.close(ri.pix_values[1], rank(s, 99.8), "high percentile")
        h.close(ri.refl_values, [0.05, 0.95], "reflectances")
        h.true(ri.name == "ref_image", "name")
        out = h.pb.sim.img_to_reflectance(ri.img, ri.pix_values, ri.refl_values)
        pts = [(rank(s, 0.2), 0.05), (rank(s, 99.8), 0.95)]
        h.true(np.shape(out) == shape, "shape")
        for i, k in enumerate(perm):
            h.close(out.reshape(-1)[i], line(s[k], pts), "reflectance %d" % i, atol=1e-9)
    return case


def big(lo, hi):
    """601 pixels, so the percentiles fall inside the picture; one arbitrary pixel"""
    def case(h):
        n = 601
        v = [float((37 * i) % 601) for i in range(n)]
        p = h.real("p", lo, hi)
        v[100] = p
        ri = h.pb.RefImage(h.arr(v), 1.0)
        rest = sorted(v[:100] + v[101:])
        k = len([x for x in rest if x < lo])
        while k < n - 1 and rest[k] <= hi and p > rest[k]:
            k += 1
        s = rest[:k] + [p] + rest[k:]
        h.close(ri.pix_values[0], rank(s, 0.2), "low percentile", atol=1e-9)
        h.close(ri.pix_values[1], rank(s, 99.8), "high percentile", atol=1e-9)
    return case


def given(h):
    """an explicit calibration is stored as it is; half a calibration is refused"""
    img = h.vec("p", 3, 0.0, 255.0).reshape(1, 3)
    pix, refl = h.vec("x", 2, 0.0, 255.0), h.vec("r", 2, 0.0, 1.0)
    snap = h.snap(img, pix, refl)
    ri = h.pb.RefImage(img, 2.0, pix, refl, "scene")
    h.unchanged(snap, (img, pix, refl), "inputs")
    h.close(ri.pix_values, pix, "pixel values", atol=1e-12)
    h.close(ri.refl_values, refl, "reflectances", atol=1e-12)
    h.true(ri.img is img and ri.name == "scene", "stored image and name")
    h.raises(ValueError, lambda: h.pb.RefImage(img, 2.0, pix), "half a calibration")
    h.raises(ValueError, lambda: h.pb.RefImage(img, 2.0, pix, None, "x"), "half a calibration")


CASES = [
    dict(name="two-%dx%d%s" % (s[0], s[1], "-reversed" if f else ""), fn=two(s, f), bounds="%dx%d images, every pixel and calibration value" % s, max_paths=900)
    for s, f in (((1, 1), False), ((1, 1), True), ((1, 2), False), ((2, 1), True))
] + [
    dict(name="exact", fn=exact, bounds="3 arbitrary calibration points in two orders"),
    dict(name="local", fn=local, bounds="1x1, 2x3, 2x1 and 2x1x2 images, two arbitrary pixels", max_paths=900),
    dict(name="dtypes", fn=dtypes, bounds="7 pixel values in 5 number types, arbitrary reflectances", max_paths=900),
    dict(name="default-4", fn=default((2, 0, 3, 1), (2, 2)), bounds="2x2 images of distinct pixels"),
    dict(name="default-6", fn=default((5, 0, 3, 1, 4, 2), (2, 3)), bounds="2x3 images of distinct pixels"),
    dict(name="default-5", fn=default((4, 3, 2, 1, 0), (5, 1)), bounds="5x1 images of distinct pixels"),
] + [
    dict(name="many-%d-%s" % (len(o), "".join(map(str, o))), fn=many(o), bounds="%d arbitrary calibration points in this order" % len(o))
    for o in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0), (0, 2, 1, 3), (1, 0, 3, 2), (3, 1, 4, 0, 2), (0, 3, 1, 2, 4), (0, 1, 2, 4, 3))
] + [
    dict(name="default-2", fn=default((1, 0), (1, 2)), bounds="1x2 images of distinct pixels"),
    dict(name="default-3", fn=default((1, 0, 2), (3, 1)), bounds="3x1 images of distinct pixels"),
] + [
    dict(name="default-%s" % how, fn=default((5, 0, 3, 1, 4, 2), (2, 3), how), bounds="2x3 images of distinct pixels, another memory layout") for how in ("columns", "turned", "part", "backwards")
] + [
    dict(name="default-601-%s" % k, fn=big(lo, hi), bounds="601 pixels, one arbitrary in %g..%g" % (lo, hi))
    for k, lo, hi in (("dark", -100.0, 5.5), ("middle", 300.0, 303.0), ("bright", 594.5, 800.0))
] + [
    dict(name="given", fn=given, bounds="1x3 images, every calibration"),
]
CASES += purity("img_to_reflectance")
OUTSIDE = "Images whose calibration values coincide (documented to give no number); larger images with every pixel arbitrary."
