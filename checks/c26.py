"""Noise gain, quantisation noise."""
import numpy as np

from . import spec
from .c32 import purity

m = spec.m


def gain(shape, lo, hi):
    """arbitrary kernel, normalised by its last entry"""
    def case(h):
        r, c = shape
        k = [[h.real("k%d%d" % (i, j), lo, hi) if (i, j) != (r - 1, c - 1) else None for j in range(c)] for i in range(r)]
        rest = sum((x for row in k for x in row if x is not None), 0.0)
        k[r - 1][c - 1] = 1.0 - rest
        K = h.arr(k)
        snap = h.snap(K)
        g = h.pb.noise.noise_gain(K)
        ss = sum(x * x for row in k for x in row)
        h.le(0.0, g, "positive")
        h.close(g * g, ss, "gain squared")
        h.unchanged(snap, (K,), "kernel")
    return case


def oned(h):
    k = h.vec("k", 3, -2.0, 2.0)
    K = h.arr([k[0], k[1], k[2], 1.0 - k[0] - k[1] - k[2]])
    g = h.pb.noise.noise_gain(K)
    h.le(0.0, g, "positive")
    h.close(g * g, sum(x * x for x in list(K)), "gain squared")


def scaled(h):
    """within rounding of unit sum, the gain is the kernel's own, not a renormalised one"""
    a, d = h.real("a", -2.0, 2.0), h.real("d", -9e-6, 9e-6)
    K = h.arr([[a, 1.0 - a + d]])
    g = h.pb.noise.noise_gain(K)
    h.close(g * g, a * a + (1.0 - a + d) * (1.0 - a + d), "gain squared")


def reject(shape):
    """a kernel whose sum is further from one than rounding is rejected"""
    def case(h):
        k = [h.real("k%d" % i, -3.0, 3.0) for i in range(int(np.prod(shape)))]
        s = sum(k) - 1.0
        h.assume(s * s, ">=", 1e-3 * 1e-3)
        h.raises(ValueError, lambda: h.pb.noise.noise_gain(h.arr(k).reshape(shape)), "sum not one")
    return case


def identity(h):
    h.close(h.pb.noise.noise_gain(np.array([1])), 1.0, "identity kernel")
    h.close(h.pb.noise.noise_gain(np.array([[0, -1, 0], [-1, 5, -1], [0, -1, 0]])), float(np.sqrt(29.0)), "integer kernel")
    n = h.real("n", -5.0, 5.0)
    K = h.arr([[0.0, -n, 0.0], [-n, 1.0 + 4.0 * n, -n], [0.0, -n, 0.0]])
    g = h.pb.noise.noise_gain(K)
    h.close(g * g, 4.0 * n * n + (1.0 + 4.0 * n) * (1.0 + 4.0 * n), "sharpening kernel")


def quant(h):
    """electron range over root twelve times the steps"""
    rng, b = h.real("range", 1e-3, 1e9), h.real("bits", 0.5, 100.0)
    q = h.pb.noise.quantization_noise(rng, b)
    h.close(q * m.sqrt(12.0) * (m.pow(2.0, b) - 1.0), rng, "quantisation noise")
    h.le(0.0, q, "positive")


def quantint(h):
    rng = h.real("range", 0.0, 1e9)
    for b in (1, 2, 8, 10, 12, 14, 16, 32, 64):
        want = rng / (12.0 ** 0.5 * (2.0 ** b - 1.0))
        for t in (b, float(b), np.int64(b) if b < 63 else float(b)):
            h.close(h.pb.noise.quantization_noise(rng, t), want, "%d bits" % b)


CASES = [dict(name="gain-%dx%d" % s, fn=gain(s, -2.0, 2.0), bounds="every unit-sum %dx%d kernel" % s) for s in ((1, 1), (1, 4), (2, 2), (3, 3), (4, 2))] + [
    dict(name="gain-5x5", fn=gain((5, 5), -1.0, 1.0), bounds="every unit-sum 5x5 kernel"),
    dict(name="gain-7x7", fn=gain((7, 7), -1.0, 1.0), bounds="every unit-sum 7x7 kernel"),
    dict(name="gain-3x11", fn=gain((3, 11), -1.0, 1.0), bounds="every unit-sum 3x11 kernel"),
    dict(name="gain-1d", fn=oned, bounds="every unit-sum kernel of 4 in one dimension"),
    dict(name="near-unit", fn=scaled, bounds="sums within 9e-6 of one"),
] + [dict(name="reject-" + "x".join(map(str, s)), fn=reject(s), bounds="every %s kernel whose sum is at least 1e-3 from one" % "x".join(map(str, s)))
         for s in ((1, 1), (1, 3), (2, 2), (3, 3), (4, 1), (1,), (4,), (2, 1, 2))] + [
    dict(name="identity", fn=identity, bounds="identity, one integer kernel, the sharpening family"),
    dict(name="quantisation", fn=quant, bounds="ranges to 1e9 electrons, real bit depths 0.5 to 100"),
    dict(name="quantisation-int", fn=quantint, bounds="integer bit depths 1 to 64"),
]
CASES += purity("noise_gain", "quantization_noise")
OUTSIDE = "Sums between 1e-5 and 1e-3 from one, where acceptance depends on the rounding tolerance; kernels above 7x7 and 3x11."
