"""Spectral resampling, and its use on the sensor's own tables."""
import numpy as np

from . import spec
from .c32 import purity

m = spec.m
LO, HI = 1e-7, 2e-5


def judge(h, r, n, f, label):
    h.true(np.shape(r) == (n,), "shape of " + label, "%s for %d wavelengths" % (np.shape(r), n))
    for i in range(n):
        h.close(r[i], f(i), "%s[%d]" % (label, i), atol=1e-9)


def fixed(nodes, nq):
    """fixed table wavelengths, arbitrary values, requested wavelengths arbitrary in value and order"""
    def case(h):
        xs = h.arr(list(nodes))
        ys, q = h.vec("y", len(nodes), -10.0, 1e3), h.vec("q", nq, LO, HI)
        snap = h.snap(xs, ys, q)
        r = h.pb.rad.resample_by_wavelength(xs, ys, q)
        judge(h, r, nq, lambda i: spec.interp0(list(xs), list(ys), q[i]), "resampled")
        h.unchanged(snap, (xs, ys, q), "inputs")
    return case


def moving(n):
    """arbitrary increasing table wavelengths"""
    def case(h):
        xs = h.inc("x", n, 2e-7, 5e-6, 1e-9, 3e-6)
        ys, q = h.vec("y", n, -10.0, 1e3), h.vec("q", 1, LO, HI)
        snap = h.snap(xs, ys, q)
        r = h.pb.rad.resample_by_wavelength(xs, ys, q)
        judge(h, r, 1, lambda i: spec.interp0(list(xs), list(ys), q[i]), "resampled")
        h.unchanged(snap, (xs, ys, q), "inputs")
    return case


def nodes(n):
    """the table's own wavelengths, in any order, give the table's own values; just outside gives zero"""
    def case(h):
        xs, ys = h.inc("x", n, 2e-7, 5e-6, 1e-9, 3e-6), h.vec("y", n, -10.0, 1e3)
        f = h.pb.rad.resample_by_wavelength
        judge(h, f(xs, ys, xs), n, lambda i: ys[i], "own wavelengths")
        judge(h, f(xs, ys, xs[::-1]), n, lambda i: ys[n - 1 - i], "own wavelengths reversed")
        d = h.real("out", 1e-12, 1e-5)
        judge(h, f(xs, ys, h.arr([xs[0] - d, xs[-1] + d])), 2, lambda i: 0.0, "outside")
    return case


def constant(h):
    xs, c, q = h.inc("x", 4, 2e-7, 5e-6, 1e-9, 3e-6), h.real("c", 0.0, 1e3), h.real("q", LO, HI)
    r = h.pb.rad.resample_by_wavelength(xs, h.arr([c, c, c, c]), h.arr([q]))
    inside = q >= xs[0] and q <= xs[3]
    h.close(r[0], c if inside else 0.0, "constant spectrum", atol=1e-9)


def linear(h):
    """resampling is linear in the values"""
    xs = h.arr([4e-7, 5e-7, 8e-7, 9e-7])
    a, b, k, q = h.vec("a", 4, 0.0, 10.0), h.vec("b", 4, 0.0, 10.0), h.real("k", -3.0, 3.0), h.vec("q", 2, 3e-7, 1e-6)
    f = h.pb.rad.resample_by_wavelength
    x, y, z = f(xs, a, q), f(xs, b, q), f(xs, a + k * b, q)
    judge(h, z, 2, lambda i: x[i] + k * y[i], "sum")


def long(h):
    """a 120-sample table with one arbitrary value, a 300-sample grid with one arbitrary wavelength"""
    n = 120
    xs = h.arr([3e-7 + 7e-9 * i + 1e-12 * i * i for i in range(n)])
    v = [0.3 + 0.001 * i for i in range(n)]
    v[61] = h.real("y", 0.0, 5.0)
    ys = h.arr(v)
    q = [2e-7 + 4e-9 * i for i in range(300)]
    q[5] = h.real("q", LO, 2e-6)
    q[6] = float(xs[61])
    qq = h.arr(q)
    r = h.pb.rad.resample_by_wavelength(xs, ys, qq)
    h.true(np.shape(r) == (300,), "shape")
    fx = [3e-7 + 7e-9 * i + 1e-12 * i * i for i in range(n)]
    for i in (0, 4, 5, 6, 7, 24, 25, 26, 127, 128, 129, 130, 298, 299):
        x = q[i]
        h.close(r[i], spec.interp0(fx, v, x), "resampled[%d]" % i, atol=1e-9)


CASES = [
    dict(name="fixed-%d-%d" % (len(a), b), fn=fixed(a, b), bounds="%d fixed table wavelengths, %d arbitrary requests" % (len(a), b), max_paths=900)
    for a, b in (((4e-7,), 2), ((4e-7, 9e-7), 2), ((4e-7, 5e-7, 9e-7), 3), ((4e-7, 4.1e-7, 5e-7, 9e-7, 1.3e-6), 2))
] + [dict(name="moving-%d" % n, fn=moving(n), bounds="%d arbitrary table wavelengths" % n) for n in (2, 3, 5)] + [
    dict(name="nodes-%d" % n, fn=nodes(n), bounds="%d arbitrary table wavelengths" % n) for n in (2, 4)
] + [
    dict(name="constant", fn=constant, bounds="4 arbitrary table wavelengths"),
    dict(name="linear", fn=linear, bounds="4 table wavelengths, 2 requests"),
    dict(name="long", fn=long, bounds="120-sample table and 300 requests, one arbitrary value and one arbitrary request", max_paths=900),
]
CASES += purity("resample_by_wavelength")
OUTSIDE = "Tables longer than 5 with every value arbitrary; tables whose wavelengths do not increase."
