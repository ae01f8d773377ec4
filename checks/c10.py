"""Blurring and resampling an image.

The point spread function comes from otf_to_psf itself (decided in C09); what is decided here is what happens to it and
to the image."""
import math

import numpy as np

from . import spec
from .c09 import lin
from .c32 import purity

m = spec.m


def mirror(i, n):
    """reflection at the picture's edge without repeating the edge pixel"""
    if n == 1:
        return 0
    i %= 2 * (n - 1)
    return i if i < n else 2 * (n - 1) - i


def convolve(img, k):
    """the psf's centre is at the index half its size, rounded down"""
    H, W = img.shape
    kh, kw = k.shape
    out = np.empty((H, W), dtype=object)
    for i in range(H):
        for j in range(W):
            acc = 0.0
            for p in range(kh):
                for q in range(kw):
                    acc = acc + k[p, q] * img[mirror(i - p + kh // 2, H), mirror(j - q + kw // 2, W)]
            out[i, j] = acc
    return out


def resized(A, shape):
    A = np.asarray(A, dtype=object)
    return lin(A.shape[0], shape[0]).astype(object).dot(A).dot(lin(A.shape[1], shape[1]).astype(object).T)


def gauss(n, wx, wy, cross=0.3):
    """a real even OTF whose psf is wider in one direction"""
    g = (np.arange(n) - n // 2) / n
    y, x = g[:, None], g[None, :]
    o = np.exp(-2 * math.pi ** 2 * (wx ** 2 * x ** 2 + wy ** 2 * y ** 2 + cross * wx * wy * x * y))
    if n % 2 == 0:
        o[0, :], o[:, 0] = o[0, :] * (1 + 0 * x[0]), o[:, 0]
    return o


def place(n, ratio, gsd, R, keep=1.0):
    """frequency spacing for which the psf keeps its size, and a field of view of ratio reference pixels"""
    return keep / (n * 2.0 * math.atan(gsd / 2.0 / R)), ratio * gsd / R


def judge(h, img, gsd, R, O, df, ifov, label="", tol=1e-9):
    f = h.pb.otf
    A = img if isinstance(img, np.ndarray) else h.arr(img)
    snap = h.snap(A, O)
    sim, sp = f.apply_otf_to_image(A, gsd, R, O, df, ifov)
    h.unchanged(snap, (A, O), "image and OTF" + label)
    psf = np.asarray(f.otf_to_psf(O, df, 2.0 * m.atan(gsd / 2.0 / R)), dtype=object)
    return A, sim, sp, psf


def compare(h, got, want, label, tol=1e-6):
    h.true(np.shape(got) == want.shape, "shape of " + label, "%s instead of %s" % (np.shape(got), want.shape))
    for i in range(want.shape[0]):
        for j in range(want.shape[1]):
            h.close(got[i, j], want[i, j], "%s[%d,%d]" % (label, i, j), rtol=1e-6, atol=tol)


def pixels(shape, n, ratio, out, keep=0.95, wx=0.8, wy=0.5):
    """every pixel arbitrary, fixed geometry; out: size of the result"""
    def case(h):
        r, c = shape
        img = h.mat("p", r, c, -100.0, 1000.0)
        gsd, R = 0.05, 1000.0
        df, ifov = place(n, ratio, gsd, R, keep)
        A, sim, sp, psf = judge(h, img, gsd, R, gauss(n, wx, wy), df, ifov)
        compare(h, sim, resized(convolve(np.asarray(A, dtype=object), psf), out), "image")
        k = tuple(int(round(q / ratio)) for q in psf.shape)
        compare(h, sp, resized(psf, k), "resampled psf", tol=1e-9)
    return case


def anyotf(h):
    """arbitrary real OTF values, fixed picture"""
    n = 5
    O = np.array(gauss(n, 0.7, 0.5), dtype=object)
    for k, (i, j) in enumerate(((0, 1), (1, 2), (2, 3), (1, 3), (0, 4))):
        a = h.real("a%d" % k, -0.2, 0.2)
        O[i, j] = O[i, j] + a
    gsd, R = 0.3, 4000.0
    df, ifov = place(n, 1.02, gsd, R, 0.95)
    img = h.arr([[10.0, 20.0, 500.0, 3.0], [0.0, 7.0, 90.0, 44.0], [1.0, 2.0, 33.0, 400.0]])
    A, sim, sp, psf = judge(h, img, gsd, R, h.arr(O.tolist()), df, ifov)
    compare(h, sim, resized(convolve(np.asarray(A, dtype=object), psf), (3, 4)), "image", tol=1e-5)


def constant(h):
    """a constant picture stays what it is, whatever the OTF"""
    c = h.real("c", -1e4, 1e6)
    for shape, n, ratio, out in (((3, 4), 5, 1.02, (3, 4)), ((4, 6), 6, 2.0, (2, 3)), ((2, 3), 4, 0.5, (4, 6)), ((5, 5), 12, 1.6, (3, 3))):
        df, ifov = place(n, ratio, 0.05, 900.0, 0.95)
        A, sim, sp, psf = judge(h, h.arr([[c] * shape[1]] * shape[0]), 0.05, 900.0, gauss(n, 0.9, 0.4), df, ifov)
        h.true(np.shape(sim) == out, "shape of the image", "%s for %s" % (np.shape(sim), shape))
        for x in np.asarray(sim, dtype=object).reshape(-1):
            h.close(x, c, "constant picture", rtol=1e-6, atol=1e-6)


def shape(lo, hi):
    def case(h):
        """the size of the result follows the two sampling distances, rounded, each direction on its own"""
        img = np.arange(24.0).reshape(4, 6)
        k = h.real("ratio_%g" % lo, lo, hi)
        df, _ = place(4, 1.0, 0.05, 800.0, 0.95)
        sim, sp = h.pb.otf.apply_otf_to_image(img, 0.05, 800.0, gauss(4, 0.6, 0.4), df, k * 0.05 / 800.0)
        q = np.shape(sim)
        for a, n in ((q[0], 4), (q[1], 6)):
            h.le(a * 1.0 - n / k, 0.5, "size not above", tol=1e-9)
            h.le(n / k - a * 1.0, 0.5, "size not below", tol=1e-9)
        pq = np.shape(sp)
        h.true(pq[0] == pq[1], "square psf")
        h.le(pq[0] * 1.0 - 4 / k, 0.5, "psf size not above", tol=1e-9)
        h.le(4 / k - pq[0] * 1.0, 0.5, "psf size not below", tol=1e-9)
    return case


def resample(shape, out, free=True):
    """resample_2D on its own"""
    def case(h):
        r, c = shape
        img = h.mat("p", r, c, -100.0, 1000.0)
        dx = h.real("dx", 1e-6, 10.0)
        e = h.real("e", -0.04, 0.04)
        k = (r / out[0] + c / out[1]) / 2 * (1.0 + e) if r * out[1] == c * out[0] else (r / out[0] + c / out[1]) / 2
        snap = h.snap(img)
        got = h.pb.otf.resample_2D(img, dx, k * dx)
        h.unchanged(snap, (img,), "image")
        compare(h, got, resized(img, out), "resampled")
    return case


def kernel(h):
    """the psf is taken at the picture's own sampling, range and sample distance both counting"""
    calls = []
    f = h.pb.otf
    K = h.mat("k", 3, 3, 0.0, 1.0)

    def fake(otf, df, dx_out):
        calls.append((otf, df, dx_out))
        return K
    h.patch_everywhere(f.otf_to_psf, fake)
    gsd, R, df = h.real("gsd", 1e-3, 10.0), h.real("R", 10.0, 1e6), h.real("df", 1.0, 1e6)
    img = h.mat("p", 3, 4, -10.0, 100.0)
    O = gauss(5, 0.8, 0.5)
    sim, sp = f.apply_otf_to_image(img, gsd, R, O, df, gsd / R)
    if not calls:
        return
    h.true(len(calls) == 1, "one psf")
    o, d, dx = calls[0]
    h.true(np.shape(o) == (5, 5), "OTF handed on")
    h.close(o, O, "OTF handed on")
    h.close(d, df, "frequency spacing handed on")
    h.close(dx, 2.0 * m.atan(gsd / 2.0 / R), "angular size of a reference pixel", rtol=1e-6)
    compare(h, sim, convolve(np.asarray(img, dtype=object), np.asarray(K, dtype=object)), "image")
    compare(h, sp, np.asarray(K, dtype=object), "psf")


def evenkernel(h):
    """kernels with an even number of samples are centred past the middle"""
    f = h.pb.otf
    for r, c in ((2, 2), (4, 3), (1, 2), (5, 1)):
        K = np.arange(1.0, r * c + 1).reshape(r, c)
        K[0, 0] = 7.0
        h.patch_everywhere(f.otf_to_psf, lambda otf, df, dx_out, K=K: K)
        img = h.arr([[h.real("p%d%d" % (i, j), -10.0, 100.0) for j in range(4)] for i in range(3)])
        sim, sp = f.apply_otf_to_image(img, 0.1, 50.0, np.ones((4, 4)), 1.0, 0.1 / 50.0)
        if sp.shape == K.shape and bool(np.all(np.abs(np.asarray(sp, dtype=float) - K) < 1e-9)) if not h.sym else True:
            compare(h, sim, convolve(np.asarray(img, dtype=object), K.astype(object)), "image")
        h.restore()


def phase(h):
    """an OTF that only shifts moves the picture the way its phase says"""
    n = 5
    u = (np.arange(n) - n // 2) / n
    O = np.exp(-2j * math.pi * u[None, :] * 1.0) * np.ones((n, 1))
    gsd, R = 0.05, 1000.0
    df, ifov = place(n, 1.0, gsd, R, 0.95)
    img = h.mat("p", 1, 6, 0.0, 100.0)
    sim, sp = h.pb.otf.apply_otf_to_image(img, gsd, R, O, df, ifov * 1.001)
    for j in range(1, 5):
        h.close(sim[0, j], img[0, j - 1], "shift of one pixel", atol=1e-6)


CASES = [
    dict(name="pixels-3x4", fn=pixels((3, 4), 5, 1.02, (3, 4)), bounds="3x4 images, every pixel; 5x5 OTF"),
    dict(name="pixels-4x3-even", fn=pixels((4, 3), 6, 0.98, (4, 3)), bounds="4x3 images, every pixel; 6x6 OTF"),
    dict(name="pixels-down", fn=pixels((4, 6), 5, 2.05, (2, 3)), bounds="4x6 images to 2x3, every pixel"),
    dict(name="pixels-up", fn=pixels((2, 3), 5, 0.51, (4, 6)), bounds="2x3 images to 4x6, every pixel"),
    dict(name="pixels-oneway", fn=pixels((2, 5), 4, 1.7, (1, 3)), bounds="2x5 images to 1x3, every pixel"),
    dict(name="pixels-crop", fn=pixels((3, 3), 17, 1.01, (3, 3), wx=1.2, wy=0.7), bounds="3x3 images, every pixel; 17x17 OTF, psf larger than the image"),
    dict(name="pixels-coarse", fn=pixels((3, 3), 6, 1.01, (3, 3), keep=1.4), bounds="3x3 images, every pixel; psf resampled to 4x4"),
    dict(name="pixels-fine", fn=pixels((3, 3), 5, 1.01, (3, 3), keep=0.7), bounds="3x3 images, every pixel; psf resampled to 7x7"),
    dict(name="pixels-point", fn=pixels((2, 2), 5, 0.51, (4, 4), keep=6.0), bounds="2x2 images to 4x4, every pixel; psf of one sample"),
    dict(name="otf", fn=anyotf, bounds="fixed 3x4 image, 5 arbitrary values of a 5x5 OTF"),
    dict(name="constant", fn=constant, bounds="constant images of 4 shapes, every value"),
] + [
    dict(name="shape-%g" % a, fn=shape(a, b), bounds="4x6 image, every field of view from %g to %g reference pixels" % (a, b), max_paths=900)
    for a, b in ((0.45, 0.7), (0.7, 1.4), (1.4, 2.6))
] + [dict(name="resample-%dx%d-%dx%d" % (a + b), fn=resample(a, b), bounds="%dx%d images to %dx%d, every pixel" % (a + b))
     for a, b in (((3, 4), (3, 4)), ((4, 4), (2, 2)), ((2, 3), (4, 6)), ((4, 8), (3, 6)), ((5, 5), (2, 2)), ((1, 4), (2, 8)))] + [
    dict(name="kernel", fn=kernel, bounds="3x4 images, 3x3 psf, sampling and range, all arbitrary"),
    dict(name="even-kernel", fn=evenkernel, bounds="3x4 images, 4 fixed psfs with even sides"),
    dict(name="phase", fn=phase, bounds="1x6 images, every pixel; an OTF of pure phase"),
]
CASES += purity("resample_2D")
OUTSIDE = "Larger images with every pixel arbitrary; integer images, which OpenCV filters in integer arithmetic; OTFs whose psf has more than 17 samples across."
