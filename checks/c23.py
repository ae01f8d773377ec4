"""Edge response, relative edge response, overshoot, GIQE edge terms and ground resolved distance."""
import math

import numpy as np

from . import spec
from .c32 import purity

m = spec.m
EPS = 1e-6


def er(pos, mtf, df, ifov):
    """half plus one over pi times the trapezoid integral of MTF(w)/w sin(2 pi w ifov pos); the frequencies start at 1e-6, not 0"""
    n = len(mtf)
    w = [df * k + EPS for k in range(n)]
    y = [mtf[k] / w[k] * m.sin(2 * m.pi * w[k] * ifov * pos) for k in range(n)]
    tot = 0.0
    for k in range(n - 1):
        tot = tot + (y[k] + y[k + 1]) * 0.5 * df
    return 0.5 + tot / m.pi


def rer(mtf, df, ifov):
    return er(0.5, mtf, df, ifov) - er(-0.5, mtf, df, ifov)


def overshoot(mtf, df, ifov):
    """the value 1.25 pixels beyond the edge when the response keeps rising from 1 to 3 pixels, else its maximum there"""
    e = [er(1.0 + 0.25 * k, mtf, df, ifov) for k in range(9)]
    rising, ties = True, False
    for a, b in zip(e, e[1:]):
        d = b - a
        if not d > 0:
            rising = False
        ties = ties or bool(-1e-9 < d < 1e-9)
    if ties:
        return None   # level within rounding: either branch is right, and they differ
    if rising:
        return e[1]
    top = e[0]
    for x in e[1:]:
        top = m.max(top, x)
    return top


def same(h, got, want):
    if want is not None:
        h.close(got, want, "overshoot", atol=1e-9)


def sampling(h):
    return h.real("df", 1.0, 5e4), h.real("ifov", 1e-8, 1e-2)


def response(n):
    def case(h):
        df, ifov = sampling(h)
        mtf, pos = h.vec("mtf", n, 0.0, 1.0), h.real("pos", -4.0, 4.0)
        snap = h.snap(mtf)
        h.close(h.pb.met.edge_response(pos, mtf, df, ifov), er(pos, mtf, df, ifov), "edge response", atol=1e-9)
        h.unchanged(snap, (mtf,), "slice")
    return case


def response_fixed(h):
    """a 50 sample slice as the metrics make it, every sample arbitrary, several positions"""
    mtf = h.vec("mtf", 50, 0.0, 1.0)
    for df, ifov in ((2.0e3, 1.1e-5), (400.0, 3.0e-4)):
        for pos in (-3.0, -0.5, 0.0, 0.5, 1.25, 2.75):
            h.close(h.pb.met.edge_response(pos, mtf, df, ifov), er(pos, mtf, df, ifov), "edge response at %g" % pos, rtol=1e-7, atol=1e-7)


def odd(h):
    """antisymmetric about the edge, one half on it"""
    df, ifov = sampling(h)
    mtf, pos = h.vec("mtf", 4, 0.0, 1.0), h.real("pos", 0.0, 4.0)
    a, b = h.pb.met.edge_response(pos, mtf, df, ifov), h.pb.met.edge_response(-pos, mtf, df, ifov)
    h.close(a + b, 1.0, "response at x and -x add up to one")
    h.close(h.pb.met.edge_response(0.0, mtf, df, ifov), 0.5, "response on the edge")


def relative(n):
    def case(h):
        df, ifov = sampling(h)
        mtf = h.vec("mtf", n, 0.0, 1.0)
        h.close(h.pb.met.relative_edge_response(mtf, df, ifov), rer(mtf, df, ifov), "relative edge response", atol=1e-9)
    return case


def perfect(h):
    """no blur up to many times the sampling frequency: an ideal edge"""
    ifov = 1e-5
    a, e = h.real("a", 0.9, 1.0), 0.0
    n = 801
    mtf = h.arr([a] * n)
    df = 50.0 / ifov / (n - 1)
    h.close(h.pb.met.relative_edge_response(mtf, df, ifov), a, "edge of a flat MTF", rtol=0.02)
    h.close(h.pb.met.edge_response(2.25, mtf, df, ifov), 0.5 + a / 2, "bright side", rtol=0.02)
    h.close(h.pb.met.edge_response(-2.25, mtf, df, ifov), 0.5 - a / 2, "dark side", rtol=0.02, atol=0.02)


def over(df, ifov, lead, free, tail=()):
    def case(h):
        mtf = h.arr(list(lead) + [h.real("mtf%d" % k, 0.0, 1.0) for k in range(free)] + list(tail))
        snap = h.snap(mtf)
        same(h, h.pb.met.edge_height_overshoot(mtf, df, ifov), overshoot(mtf, df, ifov))
        h.unchanged(snap, (mtf,), "slice")
    return case


def over_long(h):
    n, df, ifov = 50, 2000.0, 1.0e-5
    mtf = [math.exp(-(k / 22.0) ** 2) for k in range(n)]
    mtf[9] = h.real("a", 0.0, 2.0)
    mtf[24] = h.real("b", 0.0, 1.0)
    mtf = h.arr(mtf)
    same(h, h.pb.met.edge_height_overshoot(mtf, df, ifov), overshoot(mtf, df, ifov))


def image(h, n):
    """a 2-D MTF with unlike axes: arbitrary samples on the half row and half column the slices read"""
    a = h.arr([[math.exp(-0.3 * abs(i - n // 2) - 0.2 * abs(j - n // 2)) + 0.01 * i - 0.02 * j for j in range(n)] for i in range(n)])
    mid = n // 2
    a[mid, mid] = 1.0
    a[mid, mid + 1] = h.real("r1", 0.2, 1.0)
    a[mid - 1, mid] = h.real("u1", 0.2, 1.0)
    return a, [a[mid, mid + k] for k in range(mid)], [a[mid - k, mid] for k in range(mid)]


def edge_terms(h):
    a, row, col = image(h, 5)
    df, ix, iy = 2000.0, 5.0e-5, 8.0e-5
    snap = h.snap(a)
    r, e = h.pb.met.giqe_edge_terms(a, df, ix, iy)
    h.close(r * r, rer(row, df, ix) * rer(col, df, iy), "relative edge response squared", atol=1e-9)
    h.le(0.0, r, "sign of the edge response")
    a1, a2 = overshoot(row, df, ix), overshoot(col, df, iy)
    if a1 is not None and a2 is not None:
        h.close(e * e, a1 * a2, "overshoot squared", atol=1e-9)
    h.le(0.0, e, "sign of the overshoot")
    h.unchanged(snap, (a,), "mtf")


def edge_terms5(h):
    a, row, col = image(h, 7)
    df, ix, iy = 2000.0, h.real("ix", 1e-6, 1e-4), h.real("iy", 1e-6, 1e-4)
    r0, r90 = h.pb.met.giqe5_RER(a, df, ix, iy)
    # a 7-column grid may or may not include its outermost sample
    x, y = [rer(z, df, i) for z, i in ((row, ix), (col, iy))]
    x4, y4 = rer(row + [a[3, 6]], df, ix), rer(col + [a[0, 3]], df, iy)
    n = len(h.pb.otf.slice_otf(a, 0.0))
    h.close(r0, x if n == 3 else x4, "edge response along x", atol=1e-9)
    h.close(r90, y if n == 3 else y4, "edge response along y", atol=1e-9)


def edge_terms5_small(h):
    a, row, col = image(h, 5)
    df, ix, iy = h.real("df", 1.0, 5e4), h.real("ix", 1e-7, 1e-3), h.real("iy", 1e-7, 1e-3)
    r0, r90 = h.pb.met.giqe5_RER(a, df, ix, iy)
    h.close(r0, rer(row, df, ix), "edge response along x", atol=1e-9)
    h.close(r90, rer(col, df, iy), "edge response along y", atol=1e-9)


def falling(h, n):
    x = 1.0
    out = [x]
    for k in range(1, n):
        x = x - h.real("fall%d" % k, 1e-6, 0.99 / (n - 1))
        out.append(x)
    return h.arr(out)


def any_shape(h, n):
    """side lobes and sharpening: the samples after the first go anywhere"""
    return h.arr([1.0] + [h.real("mtf%d" % k, 0.0, 3.0) for k in range(1, n)])


def grd(n, make=falling, snr=None):
    def case(h):
        mtf = make(h, n)
        df, ratio, ifov, rng = h.real("df", 1.0, 5e4), snr or h.real("snr", 0.1, 1e4), h.real("ifov", 1e-8, 1e-2), h.real("range", 1.0, 1e6)
        snap = h.snap(mtf)
        g = h.pb.met.ground_resolved_distance(mtf, df, ratio, ifov, rng)
        th = 3.0 / ratio
        if th >= 1.0:
            u = 0.0
        else:
            u = (n - 1) * df
            for k in range(n - 1):
                if th >= mtf[k + 1]:
                    u = df * (k + (mtf[k] - th) / (mtf[k] - mtf[k + 1]))
                    break
        best = 2.0 * ifov * rng
        lim = rng / (u + 1e-12)
        h.close(g, m.max(best, lim), "ground resolved distance", rtol=1e-7)
        h.unchanged(snap, (mtf,), "slice")
    return case


def grd_long(h):
    """a 30 sample slice with side lobes"""
    def make(h, n):
        a = [abs(math.cos(0.35 * k)) * math.exp(-0.05 * k) for k in range(n)]
        a[4], a[13] = h.real("a", 0.0, 1.0), h.real("b", 0.0, 1.5)
        return h.arr(a)
    for snr in (5.7, 31.0, 130.0):
        grd(30, make, snr)(h)


OUTSIDE = ("Slices longer than 5 with every quantity arbitrary (50 samples with fixed spacing); overshoot with more than three arbitrary samples; "
           "edge responses that are level within 1e-9 somewhere between 1 and 3 pixels (the overshoot jumps there).")
CASES = [
    dict(name="response-2", fn=response(2), bounds="2 samples, everything arbitrary"),
    dict(name="response-3", fn=response(3), bounds="3 samples"),
    dict(name="response-5", fn=response(5), bounds="5 samples"),
    dict(name="response-50", fn=response_fixed, bounds="50 arbitrary samples, fixed spacing and field of view, 6 positions"),
    dict(name="odd", fn=odd, bounds="4 samples, any position"),
    dict(name="relative-3", fn=relative(3), bounds="3 samples"),
    dict(name="relative-5", fn=relative(5), bounds="5 samples"),
    dict(name="perfect", fn=perfect, bounds="flat MTF of any height 0.9 to 1 over 50 sampling frequencies, 801 samples"),
    dict(name="overshoot-2", fn=over(6e3, 2.0e-5, [1.0], 1), bounds="1 arbitrary sample of 2"),
    dict(name="overshoot-3", fn=over(4e3, 5.0e-5, [1.0], 2), bounds="2 arbitrary samples of 3", max_paths=800),
    dict(name="overshoot-4", fn=over(2e3, 3.0e-5, [1.0], 3), bounds="3 arbitrary samples of 4", max_paths=800),
    dict(name="overshoot-fine", fn=over(50.0, 3.0e-5, [1.0, 0.9], 2), bounds="2 arbitrary samples, finely sampled: always rising"),
    dict(name="overshoot-50", fn=over_long, bounds="50 samples of a Gaussian, two of them arbitrary", max_paths=800),
    dict(name="edge-terms", fn=edge_terms, bounds="5x5 MTF without symmetry, arbitrary samples on both slices", max_paths=800),
    dict(name="edge-terms-5", fn=edge_terms5_small, bounds="5x5 MTF, any spacing and pixel fields of view"),
    dict(name="edge-terms-5-7", fn=edge_terms5, bounds="7x7 MTF, any pixel fields of view"),
    dict(name="grd-2", fn=grd(2), bounds="2 samples, any fall"),
    dict(name="grd-4", fn=grd(4), bounds="4 samples"),
    dict(name="grd-7", fn=grd(7), bounds="7 samples"),
    dict(name="grd-any-3", fn=grd(3, any_shape), bounds="3 samples of any height 0 to 3, rising or falling"),
    dict(name="grd-any-6", fn=grd(6, any_shape), bounds="6 samples of any height 0 to 3", max_paths=800),
    dict(name="grd-any-30", fn=grd_long, bounds="30 samples with side lobes, two of them arbitrary", max_paths=800),
]
CASES += purity("giqe5_RER", "giqe_edge_terms", "ground_resolved_distance", "relative_edge_response", "edge_height_overshoot", "edge_response")
