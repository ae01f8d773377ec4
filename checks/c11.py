"""Slices through a two-dimensional OTF."""
import math

import numpy as np

from . import spec
from .c32 import purity

m = spec.m


def tent(d):
    return m.max(0.0, 1.0 - m.abs(d))


def sample(otf, x, y):
    """bilinear value at normalised frequencies x (right) and y (up), both in [-1, 1]"""
    r, c = np.shape(otf)
    cx, cy = (x + 1.0) * (c - 1) / 2.0, (1.0 - y) * (r - 1) / 2.0
    tot = 0.0
    for i in range(r):
        wy = tent(cy - i)
        if not m.is_sym(wy) and wy < 1e-14:
            continue
        for j in range(c):
            wx = tent(cx - j)
            if not m.is_sym(wx) and wx < 1e-14:
                continue
            tot = tot + otf[i, j] * wx * wy
    return tot


def count(c):
    """samples at 0, du, 2 du, ... below 1, du = 2 / (columns - 1); the one at 1 may or may not be there
    (np.arange(0, 1, du) includes it for some sizes through rounding)"""
    return (c - 1 + 1) // 2


def fixed(r, c, degrees):
    def case(h):
        a = h.mat("o", r, c, -1.0, 1.0)
        snap = h.snap(a)
        for d in degrees:
            ang = math.radians(d)
            s = h.pb.otf.slice_otf(a, ang)
            h.true(np.shape(s) in ((count(c),), (count(c) + 1,)), "length at %d" % d, "%s, expected %d" % (np.shape(s), count(c)))
            for k in range(len(s)):
                q = k * 2.0 / (c - 1)
                h.close(s[k], sample(a, q * math.cos(ang), q * math.sin(ang)), "at %d degrees[%d]" % (d, k), atol=1e-12)
        h.unchanged(snap, (a,), "otf")
    return case


def axes(n, half):
    """0 and 90 degrees are the half row to the right and the half column upwards"""
    def case(h):
        a = h.mat("o", n, n, -1.0, 1.0)
        mid = n // 2
        s0, s90 = h.pb.otf.slice_otf(a, 0.0), h.pb.otf.slice_otf(a, np.pi / 2)
        s180, s270 = h.pb.otf.slice_otf(a, np.pi), h.pb.otf.slice_otf(a, -np.pi / 2)
        for k in range(half):
            h.close(s0[k], a[mid, mid + k], "right[%d]" % k, atol=1e-12)
            h.close(s90[k], a[mid - k, mid], "up[%d]" % k, atol=1e-12)
            h.close(s180[k], a[mid, mid - k], "left[%d]" % k, atol=1e-12)
            h.close(s270[k], a[mid + k, mid], "down[%d]" % k, atol=1e-12)
    return case


def any_angle(lo, hi, n):
    def case(h):
        ang = h.real("ang", lo, hi)
        a = h.arr([[0.11 * (3 * i + 7 * j + i * j) % 1.0 for j in range(n)] for i in range(n)])
        a[n // 2, n // 2 + 1] = h.real("p", -1.0, 1.0)
        a[n // 2 - 1, n // 2 + 1] = h.real("q", -1.0, 1.0)
        s = h.pb.otf.slice_otf(a, ang)
        for k in range(count(n)):
            q = k * 2.0 / (n - 1)
            h.close(s[k], sample(a, q * m.cos(ang), q * m.sin(ang)), "slice[%d]" % k, atol=1e-9)
    return case


def rotate(h):
    """turning the OTF and the angle together changes nothing"""
    a = h.mat("o", 5, 5, -1.0, 1.0)
    for d in (0, 20, 45, 70, 100):
        s = h.pb.otf.slice_otf(a, math.radians(d))
        b = a
        for t in (1, 2, 3):
            b = h.arr([[b[j, 4 - i] for j in range(5)] for i in range(5)])   # a quarter turn anticlockwise
            h.close(h.pb.otf.slice_otf(b, math.radians(d + 90 * t)), s, "turned %d at %d" % (t, d), atol=1e-12)


def big(h):
    n = 101
    g = np.linspace(-1, 1, n)
    base = np.exp(-3 * (g[None, :] - 0.2) ** 2 - 2 * (g[:, None] + 0.1) ** 2)
    a = h.arr(base.tolist())
    a[50, 63] = h.real("p", 0.0, 1.0)
    a[31, 50] = h.real("q", 0.0, 1.0)
    a[37, 63] = h.real("r", 0.0, 1.0)
    for ang in (0.0, np.pi / 2, np.pi / 4, 0.3, -2.0):
        s = h.pb.otf.slice_otf(a, ang)
        h.true(np.shape(s) == (50,), "length")
        for k in (0, 1, 12, 13, 14, 17, 18, 19, 20, 49):
            q = k / 50.0
            h.close(s[k], sample(a, q * math.cos(ang), q * math.sin(ang)), "at %.2f[%d]" % (ang, k), atol=1e-10)


def complex_otf(h):
    """a complex OTF keeps its phase"""
    n = 5
    re, im = h.mat("re", n, n, -1.0, 1.0), h.mat("im", n, n, -1.0, 1.0)
    a = h.arr(re.tolist()) + 1j * h.arr(im.tolist())
    for d in (0, 90, 35, -120):
        ang = math.radians(d)
        s = h.pb.otf.slice_otf(a, ang)
        for k in range(2):
            q = k * 2.0 / (n - 1)
            h.close(s[k].real, sample(re, q * math.cos(ang), q * math.sin(ang)), "real part at %d[%d]" % (d, k), atol=1e-12)
            h.close(s[k].imag, sample(im, q * math.cos(ang), q * math.sin(ang)), "imaginary part at %d[%d]" % (d, k), atol=1e-12)


DEG = (0, 90, 180, 270, -90, 30, 45, 60, 135, 200, 300, 359)
OUTSIDE = "Grids other than those listed (5x5, 7x7, 4x4, 6x6, 5x7, 7x5, 4x6, 101x101)."
CASES = [
    dict(name="fixed-%dx%d" % (r, c), fn=fixed(r, c, DEG), bounds="every %dx%d OTF with values in +-1, 12 fixed angles" % (r, c))
    for r, c in ((5, 5), (7, 7), (4, 4), (6, 6), (5, 7), (7, 5), (4, 6))
] + [
    dict(name="axes-5", fn=axes(5, 2), bounds="every 5x5 OTF, the four axis directions"),
    dict(name="axes-9", fn=axes(9, 4), bounds="every 9x9 OTF, the four axis directions"),
    dict(name="angle-q1", fn=any_angle(0.0, 1.5707963, 5), bounds="every angle in the first quadrant, two arbitrary samples of a 5x5 OTF"),
    dict(name="angle-q2", fn=any_angle(1.5707964, 3.1415926, 5), bounds="every angle in the second quadrant"),
    dict(name="angle-q34", fn=any_angle(-3.1415926, -0.0001, 5), bounds="every angle in the lower half plane"),
    dict(name="complex", fn=complex_otf, bounds="every complex 5x5 OTF, four directions"),
    dict(name="rotate", fn=rotate, bounds="every 5x5 OTF, quarter turns, 5 angles"),
    dict(name="big", fn=big, bounds="101x101 OTF (the size the metrics use), three arbitrary samples, 5 angles"),
]
CASES += purity("slice_otf")
