"""Point spread functions from OTFs."""
import math

import cv2
import numpy as np

from . import spec
from .c32 import purity

m = spec.m


def fund(n, c):
    """cosine and sine of every multiple of 2 pi / n"""
    return [math.cos(2 * math.pi * k / n) for k in range(n)], [math.sin(2 * math.pi * k / n) for k in range(n)]


def transform(O, im=None):
    """real part of the inverse transform of a grid with zero frequency at index n//2, centre of the result at index n//2"""
    r, c = O.shape
    (cr, sr), (cc, sc) = fund(r, 0), fund(c, 0)
    out = np.empty((r, c), dtype=object)
    for y in range(r):
        for x in range(c):
            acc = 0.0
            for k in range(r):
                for l in range(c):
                    a, b = (k - r // 2) * (y - r // 2) % r, (l - c // 2) * (x - c // 2) % c
                    co, si = cr[a] * cc[b] - sr[a] * sc[b], sr[a] * cc[b] + cr[a] * sc[b]
                    acc = acc + O[k, l] * (co if abs(co) > 1e-15 else 0.0)
                    if im is not None:
                        acc = acc - im[k, l] * si
            out[y, x] = acc / (r * c)
    return out


def lin(n, k):
    """weights of linear interpolation of n samples at k pixel centres covering the same extent, rounded as OpenCV rounds them"""
    M = np.zeros((k, n))
    for i in range(k):
        x = (i + 0.5) * n / k - 0.5
        f = int(math.floor(x))
        w = x - f
        M[i, min(max(f, 0), n - 1)] += 1 - w
        M[i, min(max(f + 1, 0), n - 1)] += w
    C = np.stack([cv2.resize(np.tile(e[:, None], (1, 2)), (2, k))[:, 0] for e in np.eye(n)], axis=1)
    return C if np.max(np.abs(C - M)) < 1e-6 else M


def total(A):
    return sum((x for x in A.reshape(-1)), 0.0)


def resized(A, shape):
    A = np.asarray(A, dtype=object)
    return lin(A.shape[0], shape[0]).astype(object).dot(A).dot(lin(A.shape[1], shape[1]).astype(object).T)


def check(h, psf, R, label="", tol=1e-9):
    """psf is R over its sum"""
    h.true(np.shape(psf) == R.shape, "shape" + label, "%s instead of %s" % (np.shape(psf), R.shape))
    S = total(R)
    h.close(total(np.asarray(psf, dtype=object)), 1.0, "sum" + label, atol=1e-9)
    for i in range(R.shape[0]):
        for j in range(R.shape[1]):
            h.close(psf[i, j] * S, R[i, j], "psf[%d,%d]%s" % (i, j, label), atol=tol)


def grid(h, r, c, lo=-1.0, hi=1.0, free=None):
    """an OTF with arbitrary entries (all of them, or those listed) and 1 at zero frequency"""
    O = np.empty((r, c), dtype=object)
    for i in range(r):
        for j in range(c):
            base = math.exp(-0.3 * abs(i - r // 2) ** 1.3 - 0.2 * abs(j - c // 2) - 0.05 * (i - r // 2) * (j - c // 2) / max(r, c))
            O[i, j] = base if free is not None and (i, j) not in free else h.real("o%d_%d" % (i, j), lo, hi) if lo is not None else base + h.real("o%d_%d" % (i, j), -0.2, 0.2)
    O[r // 2, c // 2] = 1.0
    return O


def native(n, free=None):
    """same spacing in and out"""
    def case(h):
        O = grid(h, n, n, free=free)
        A = h.arr(O.tolist())
        df = h.real("df", 1.0, 1e6)
        snap = h.snap(A)
        psf = h.pb.otf.otf_to_psf(A, df, 0.95 / (n * df) if n > 2 else 0.7 / (n * df))
        h.unchanged(snap, (A,), "OTF")
        check(h, psf, transform(O))
    return case


def resample(n, size, free=None, lo=None):
    """spacing such that the psf has the given size"""
    def case(h):
        O = grid(h, n, n, lo=lo, free=free)
        df, e = h.real("df", 1.0, 1e6), h.real("e", 0.05, 0.9)
        psf = h.pb.otf.otf_to_psf(h.arr(O.tolist()), df, n * (1.0 / (n * df)) / (size + e))
        R = resized(transform(O), (size, size))
        h.assume(total(R) * total(R), ">=", 1e-4)
        check(h, psf, R, tol=1e-6)
    return case


def oblong(r, c, size, free=None, lo=None):
    """a grid of unequal sides covers the same angle both ways: the psf is square"""
    def case(h):
        O = grid(h, r, c, lo=lo, free=free)
        df, e = h.real("df", 1.0, 1e6), h.real("e", 0.05, 0.9)
        A = h.arr(O.tolist())
        snap = h.snap(A)
        psf = h.pb.otf.otf_to_psf(A, df, 1.0 / (df * (size + e)))
        h.unchanged(snap, (A,), "OTF")
        R = resized(transform(O), (size, size))
        h.assume(total(R) * total(R), ">=", 1e-4)
        check(h, psf, R, tol=1e-6)
    return case


def coarse(h):
    """spacings beyond the extent of the psf leave a single sample"""
    O = grid(h, 4, 4)
    df, k = h.real("df", 1.0, 1e6), h.real("k", 4.01, 1e6)
    T = transform(O)
    R = resized(T, (1, 1))
    h.assume(R[0, 0] * R[0, 0], ">=", 1e-4)
    psf = h.pb.otf.otf_to_psf(h.arr(O.tolist()), df, k / (4.0 * df))
    h.true(np.shape(psf) == (1, 1), "shape")
    h.close(psf[0, 0], 1.0, "single sample")


def flat(h):
    """an OTF of one everywhere is a centred impulse, whatever its size"""
    df = h.real("df", 1.0, 1e6)
    c = h.real("c", 0.01, 10.0)
    for n in (2, 3, 5, 8, 9, 11, 12, 16, 17):
        psf = h.pb.otf.otf_to_psf(h.arr([[c] * n] * n), df, 0.95 / (n * df) if n > 2 else 0.7 / (n * df))
        h.true(psf.shape[0] == psf.shape[1] and psf.shape[0] <= n, "shape for %d" % n)
        q = psf.shape[0]
        for i in range(q):
            for j in range(q):
                h.close(psf[i, j], 1.0 if i == q // 2 and j == q // 2 else 0.0, "impulse of size %d" % n, atol=1e-9)


def block(n, width, free=(), size=None, s=None):
    """larger OTFs: the result is a central block of the transform, holding most of its energy"""
    def case(h):
        O = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                y, x = (i - n // 2) / n, (j - n // 2) / n
                O[i, j] = math.exp(-2 * (math.pi * width) ** 2 * (y * y + 1.3 * x * x + 0.4 * x * y))
        for k, (i, j) in enumerate(free):
            # an even perturbation, so that the psf stays symmetric
            a = h.real("a%d" % k, -0.05, 0.05)
            O[i, j] = O[i, j] + a
            p, q = 2 * (n // 2) - i, 2 * (n // 2) - j
            if (p, q) != (i, j) and p < n and q < n:
                O[p, q] = O[p, q] + a
        df = h.real("df", 1.0, 1e6)
        ratio = (n + 0.4) / n if size is None else (size + 0.4) / n
        psf = h.pb.otf.otf_to_psf(h.arr(O.tolist()), df, 1.0 / (n * df) / ratio)
        d = n if size is None else size
        T = fast(O)
        R = T if d == n else resized(T, (d, d))
        k = psf.shape[0]
        h.true(psf.shape == (k, k) and k <= d, "square block", str(psf.shape))
        off = d // 2 - k // 2
        B = R[off:off + k, off:off + k]
        if k < d:
            h.le(0.95 * total(R), total(B), "energy of the block")
        check(h, psf, B, tol=1e-6)
        if k % 2 and n % 2 and not free and d == n:
            h.true(all(psf[k // 2, k // 2] >= x for x in psf.reshape(-1)), "central peak")
    return case


def fast(O):
    """transform() for larger grids, row then column"""
    n = O.shape[0]
    a = np.array([[(i - n // 2) * (j - n // 2) % n for j in range(n)] for i in range(n)])
    C = np.array([math.cos(2 * math.pi * k / n) for k in range(n)])[a].astype(object)
    S = np.array([math.sin(2 * math.pi * k / n) for k in range(n)])[a].astype(object)
    return (C.dot(O).dot(C) - S.dot(O).dot(S)) / (n * n)


def complexotf(h):
    """complex OTFs: only the real part of the transform is kept"""
    n = 4
    re, im = grid(h, n, n), np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            im[i, j] = h.real("i%d_%d" % (i, j), -1.0, 1.0) if (i, j) != (n // 2, n // 2) else 0.0
    A = h.arr(re.tolist()) + 1j * h.arr(im.tolist())
    df = h.real("df", 1.0, 1e6)
    check(h, h.pb.otf.otf_to_psf(A, df, 0.95 / (n * df)), transform(re, im))


def scale(h):
    """a multiple of an OTF has the same psf; a pair of calls does not interfere"""
    O, c = grid(h, 4, 4), h.real("c", 0.01, 100.0)
    A = h.arr(O.tolist())
    f = h.pb.otf.otf_to_psf
    p = f(A, 10.0, 0.024)
    q = f(A * c, 10.0, 0.024)
    for i in range(4):
        for j in range(4):
            h.close(q[i, j], p[i, j], "multiple[%d,%d]" % (i, j), atol=1e-9)


CASES = [dict(name="native-%d" % n, fn=native(n), bounds="%dx%d OTFs, every value, any spacing" % (n, n)) for n in (2, 3, 4, 5, 6)] + [
    dict(name="native-8", fn=native(8, {(0, 0), (1, 6), (4, 5), (7, 2), (3, 3)}), bounds="8x8 OTF, 5 arbitrary values"),
    dict(name="native-9", fn=native(9, {(0, 0), (1, 6), (4, 5), (8, 2), (3, 3)}), bounds="9x9 OTF, 5 arbitrary values"),
    dict(name="resample-4-7", fn=resample(4, 7), bounds="4x4 OTFs within 0.2 of a given one, 7x7 psf"),
    dict(name="resample-5-3", fn=resample(5, 3, {(0, 4), (1, 2), (3, 0), (2, 1), (4, 4), (0, 1)}), bounds="5x5 OTFs, 6 values within 0.2 of given ones, 3x3 psf"),
    dict(name="resample-6-9", fn=resample(6, 9, {(0, 3), (2, 2), (3, 5), (5, 1)}), bounds="6x6 OTF, 4 values within 0.2 of given ones, 9x9 psf"),
    dict(name="resample-4-4", fn=resample(4, 4, lo=-1.0), bounds="4x4 OTFs, 4x4 psf for every spacing that gives it"),
    dict(name="oblong-3-5", fn=oblong(3, 5, 5), bounds="3x5 OTFs within 0.2 of a given one, 5x5 psf"),
    dict(name="oblong-6-4", fn=oblong(6, 4, 4, {(0, 3), (2, 2), (3, 1), (5, 1)}, -1.0), bounds="6x4 OTFs, 4 arbitrary values, 4x4 psf"),
    dict(name="oblong-2-4", fn=oblong(2, 4, 6, lo=-1.0), bounds="2x4 OTFs, every value, 6x6 psf"),
    dict(name="coarse", fn=coarse, bounds="4x4 OTFs, every coarser spacing"),
    dict(name="flat", fn=flat, bounds="constant OTFs of 9 sizes"),
    dict(name="block-21", fn=block(21, 1.5), bounds="one 21x21 OTF"),
    dict(name="block-22", fn=block(22, 1.2), bounds="one 22x22 OTF"),
    dict(name="block-27", fn=block(27, 3.3), bounds="one 27x27 OTF with a wide psf"),
    dict(name="block-21-free", fn=block(21, 1.5, ((8, 9),)), bounds="21x21 OTFs, an arbitrary pair of values"),
    dict(name="block-18-24", fn=block(18, 1.0, ((8, 7),), 24), bounds="18x18 OTFs resampled to 24x24"),
    dict(name="block-12-60", fn=block(12, 1.6, ((5, 4),), 60), bounds="12x12 OTFs resampled to 60x60, further than the OTF is large"),
    dict(name="block-26-wide", fn=block(26, 9.0), bounds="a 26x26 OTF of which no block holds the energy"),
    dict(name="block-12-wide", fn=block(12, 4.2), bounds="a 12x12 OTF of which no block holds the energy"),
    dict(name="block-21-14", fn=block(21, 1.5, ((8, 7),), 14), bounds="21x21 OTFs resampled to 14x14"),
    dict(name="complex", fn=complexotf, bounds="4x4 complex OTFs"),
    dict(name="scale", fn=scale, bounds="4x4 OTFs and every multiple"),
]
CASES += purity("otf_to_psf")
OUTSIDE = "OTFs above 6x6 with every value arbitrary; grids that are not square other than 3x5, 6x4 and 2x4; OTFs whose resampled psf sums to less than 0.01."
