"""Filter OTF against the kernel's discrete-time Fourier transform.

The implementation interpolates a 100-point transform whose bins it spreads over [-Nyquist, Nyquist] inclusive, so a value may belong to a frequency up to one
bin (2% of Nyquist, 0.0635 rad per sample) away.  The magnitude of the transform changes by at most sum |k||n-c| per radian, which gives the tolerance."""
import numpy as np

from . import spec
from .c32 import purity

m = spec.m
BIN = 0.0635


def dtft(k, u, v, ifov):
    """magnitude"""
    return m.sqrt(dtft2(k, u, v, ifov))


def dtft2(k, u, v, ifov):
    """squared magnitude of the transform; columns run along +u, rows along -v"""
    nr, nc = np.shape(k)
    re, im = 0.0, 0.0
    for r in range(nr):
        for c in range(nc):
            x = k[r, c]
            if not h_sym(x) and x == 0:
                continue
            ph = 2 * np.pi * ifov * (u * c - v * r)
            re, im = re + x * m.cos(ph), im - x * m.sin(ph)
    return re * re + im * im


def h_sym(x):
    return hasattr(x, "p")


def tol(k):
    nr, nc = np.shape(k)
    t = 0.0
    for r in range(nr):
        for c in range(nc):
            w = abs(r - (nr - 1) / 2) + abs(c - (nc - 1) / 2)
            if w:
                t = t + m.abs(k[r, c]) * w
    return t * BIN * 1.02 + 1e-9


def node(i):
    """grid frequency nearest to i, in units of Nyquist: there the interpolation returns a sample of the transform"""
    k = round((i + 1) / 2 * 99)
    return -1 + 2 * k / 99


def near(h, k, pts, ifov, shape=None):
    """the square of the result against the square of the transform's magnitude (both quadratic in the kernel)"""
    pts = [tuple(node(c - 2 * round(c / 2)) + 2 * round(c / 2) for c in p) for p in pts]
    u, v = [p[0] * 0.5 / ifov for p in pts], [p[1] * 0.5 / ifov for p in pts]
    a, b = h.arr(u), h.arr(v)
    if shape:
        a, b = a.reshape(shape), b.reshape(shape)
    snap = h.snap(a, b, k)
    r = h.pb.otf.filter_OTF(a, b, k, ifov)
    h.true(np.shape(r) == np.shape(a), "shape")
    e, top = tol(k), 0.0
    for x in np.asarray(k, dtype=object).reshape(-1):
        top = top + m.abs(x)
    for i, x in enumerate(np.asarray(r, dtype=object).reshape(-1)):
        d = dtft2(k, u[i], v[i], ifov)
        where = " at (%.3g, %.3g)" % pts[i]
        h.le(0.0, x, "not negative" + where)
        h.le(x * x, d + 2 * e * top, "not above the transform" + where, tol=1e-9)
        h.le(d - 2 * e * top, x * x, "not below the transform" + where, tol=1e-9)
    h.unchanged(snap, (a, b, k), "inputs")
    return r


# frequencies in units of Nyquist
ROW = [(0.03, 0.0), (0.33, 0.1), (0.71, -0.52), (-0.55, 0.9), (1.37, 0.2), (-2.45, 0.4)]


def pair(axis, sign):
    """two taps along one axis"""
    def case(h):
        p, q = h.real("p", 0.2, 2.0), h.real("q", 0.05, 2.0)
        k = h.arr([[p, q if sign > 0 else -q]])
        near(h, k if axis == 0 else k.T, [x if axis == 0 else x[::-1] for x in ROW], 0.4e-4)
    return case


def diagonal(anti):
    """two taps on a diagonal: the sign of the vertical frequency axis"""
    def case(h):
        p, q = h.real("p", 0.2, 2.0), h.real("q", 0.05, 2.0)
        near(h, h.arr([[0.0, p], [q, 0.0]] if anti else [[p, 0.0], [0.0, q]]), [(0.03, 0.03), (0.4, 0.4), (0.4, -0.4), (-0.7, 0.6), (0.8, 0.25), (1.3, 0.5)], 2e-5)
    return case


def sharpen(h):
    """unsharp masking of any strength"""
    a = h.real("a", 0.01, 2.0)
    near(h, h.arr([[0.0, -a, 0.0], [-a, 1 + 4 * a, -a], [0.0, -a, 0.0]]), [(0.03, 0.03), (0.5, 0.0), (0.0, 0.5), (0.9, 0.9), (-0.3, 0.75), (1.6, 0.1)], 1.7e-5, shape=(2, 3))


def blur(shape):
    """averaging kernels that are not square, two free values"""
    def case(h):
        a, c = h.real("a", 0.02, 0.25), h.real("c", 0.9, 1.5)  # one dominant tap, so that no sign is open
        k = {"1x3": lambda: [[a, c, 2 * a]], "3x1": lambda: [[a], [c], [2 * a]], "2x3": lambda: [[a, 0.2, 0.1], [0.3, c, 0.0]],
             "3x2": lambda: [[a, 0.1], [0.2, c], [0.0, -0.2]], "1x5": lambda: [[0.1, a, 0.3, 0.2, c]]}[shape]()
        near(h, h.arr(k), [(0.03, 0.03), (0.5, 0.1), (0.1, 0.5), (0.85, 0.2), (0.2, 0.85), (-0.6, 0.35), (-0.35, -2.6)], 1e-4)
    return case


def large(r, c):
    """many positions, most taps near the middle, one free value"""
    def case(h):
        a = h.real("a", 0.02, 0.2)
        k = [[0.0] * c for i in range(r)]
        i, j = (r - 1) // 2, (c - 1) // 2
        k[i][j], k[i + 1][j + 1], k[i + 1][j], k[0][0], k[r - 1][0], k[i][j - 1] = 1.2, 0.45, 0.15, 0.02, -0.01, a
        near(h, h.arr(k), [(0.03, 0.03), (0.5, 0.1), (0.1, 0.5), (0.85, 0.2), (-0.6, 0.35)], 1e-4)
    return case


def reshaped(h):
    """the same taps laid out differently are different kernels"""
    a = h.real("a", 1.3, 1.6)
    pts = [(0.03, 0.33), (0.62, 0.1), (-0.3, 0.9)]
    for shape in ((1, 6), (3, 2), (6, 1)):
        near(h, np.array([0.1, 1.4, -0.3, 0.15, 0.05, 0.2]).reshape(shape), pts, 2e-5)
    near(h, h.arr([0.1, a, -0.3, 0.15, 0.05, 0.2]).reshape((2, 3)), pts[:2], 2e-5)


def between(h):
    """between two grid frequencies the value lies between theirs"""
    a, c = h.real("a", 0.02, 0.25), h.real("c", 0.6, 1.5)
    k, ifov = h.arr([[a, 0.2], [0.1, c]]), 1e-4
    x0, x1, y0, y1 = -1 + 2 * 60 / 99, -1 + 2 * 61 / 99, -1 + 2 * 30 / 99, -1 + 2 * 31 / 99
    pu, pv, ts = [], [], []
    for t in (0.5, 0.25):
        for ex in ((x0, y0, x1, y0), (x0, y0, x0, y1)):
            pu += [ex[0], ex[2], ex[0] + t * (ex[2] - ex[0])]
            pv += [ex[1], ex[3], ex[1] + t * (ex[3] - ex[1])]
            ts.append(t)
    r = h.pb.otf.filter_OTF(h.arr([z * 0.5 / ifov for z in pu]), h.arr([z * 0.5 / ifov for z in pv]), k, ifov)
    for i, t in enumerate(ts):
        h.close(r[3 * i + 2], (1 - t) * r[3 * i] + t * r[3 * i + 1], "interpolated", rtol=0, atol=2e-3)


def periodic(h):
    """repeats with twice the Nyquist frequency on either axis"""
    a, b = h.real("a", 0.9, 1.5), h.real("b", 0.01, 0.4)
    k = h.arr([[a, b, 0.1], [0.0, 0.3, -0.05]])
    ifov = 2.5e-5
    pts = []
    for u, v in ((0.3331, 0.2117), (-0.8123, 0.4459)):
        pts += [(u, v), (u + 2, v), (u, v - 2), (u - 2, v + 4)]
    r = h.pb.otf.filter_OTF(h.arr([p[0] * 0.5 / ifov for p in pts]), h.arr([p[1] * 0.5 / ifov for p in pts]), k, ifov)
    for j in (0, 4):
        for i in (1, 2, 3):
            h.close(r[j + i], r[j], "period %d" % i, rtol=1e-7, atol=1e-7)


def scaled(h):
    """scaling the kernel scales the OTF; scaling the sample spacing scales the frequencies"""
    a, b = h.real("a", 0.8, 1.5), h.real("b", 0.01, 0.4)
    k = [[a, b], [0.2, 0.1]]
    f = h.pb.otf.filter_OTF
    u, v = [3011.0, 9000.0, 17321.0], [1201.0, -7003.0, 13457.0]
    r = f(h.arr(u), h.arr(v), h.arr(k), 3e-5)
    r3 = f(h.arr(u), h.arr(v), h.arr([[3 * x for x in row] for row in k]), 3e-5)
    r2 = f(h.arr([2 * x for x in u]), h.arr([2 * x for x in v]), h.arr(k), 1.5e-5)
    for i in range(3):
        h.close(r3[i], 3 * r[i], "kernel scaled", rtol=1e-7, atol=1e-7)
        h.close(r2[i], r[i], "spacing scaled", rtol=1e-7, atol=1e-7)


def identity(h):
    """a single tap is flat at its value everywhere, wherever it stands in the kernel"""
    c = h.real("c", 0.1, 10.0)
    for k in ([[c]], [[0.0, c, 0.0]], [[0.0], [c]]):
        r = h.pb.otf.filter_OTF(h.arr([0.0, 123.4, 5e4, -3e5]), h.arr([0.0, -700.2, 3e4, 1e5]), h.arr(k), 2e-5)
        for x in r:
            h.close(x, c, "flat", rtol=1e-7)


def window(n, lo, hi, other, axis):
    """every frequency of a window along one axis"""
    def case(h):
        ifov, k = 5e-5, np.array([[0.3, 0.9], [-0.25, 0.05]])
        x = h.real("f", lo * 0.5 / ifov, hi * 0.5 / ifov)
        y = other * 0.5 / ifov
        u, v = (x, y) if axis == 0 else (y, x)
        r = h.pb.otf.filter_OTF(h.arr([u]), h.arr([v]), k, ifov)
        d, e = dtft(k, u, v, ifov), tol(k)
        h.le(r[0], d + e, "not above the transform", tol=1e-9)
        h.le(d - e, r[0], "not below the transform", tol=1e-9)
    return case


def dc(h):
    """at zero frequency the OTF is the kernel's sum"""
    q = h.real("q", 0.2, 1.0)
    p = 0.5
    r = h.pb.otf.filter_OTF(h.arr([0.0]), h.arr([0.0]), h.arr([[p, q]]), 1e-4)
    h.le(r[0], (p + q) * 1.0003, "zero-frequency gain above the sum by more than the interpolation error")
    h.le((p + q) * 0.9997, r[0], "zero-frequency gain below the sum by more than the interpolation error")
    h.close(r[0], p + q, "gain at zero frequency", rtol=1e-6)


CASES = [dict(name="pair-%s%s" % ("xy"[a], "+-"[s < 0]), fn=pair(a, s), bounds="1x2 / 2x1 kernels, both values free, six frequencies out to 2.5 times Nyquist") for a in (0, 1) for s in (1, -1)]
CASES += [dict(name="diagonal-%d" % a, fn=diagonal(a), bounds="2x2 kernels with two free values") for a in (0, 1)]
CASES += [dict(name="sharpen", fn=sharpen, bounds="3x3 unsharp mask of every strength up to 2, six frequencies in a 2x3 array")]
CASES += [dict(name="blur-" + s, fn=blur(s), bounds="%s kernel with two free values" % s) for s in ("1x3", "3x1", "2x3", "3x2", "1x5")]
CASES += [dict(name="large-%dx%d" % s, fn=large(*s), bounds="%dx%d kernel with one free value" % s) for s in ((9, 7), (4, 11))]
CASES += [dict(name=f.__name__, fn=f, bounds="two free kernel values") for f in (periodic, scaled, between)]
CASES += [dict(name="reshaped", fn=reshaped, bounds="the same 6 taps in 4 layouts one after the other, one free value")]
CASES += [dict(name="identity", fn=identity, bounds="every gain")]
W = [(0.30, 0.33, 0.1, 0), (-0.02, 0.01, 0.45, 1), (-0.01, 0.01, 0.0, 0)]
CASES += [dict(name="window-%d" % i, fn=window(i, *w), bounds="every frequency in %g..%g of Nyquist along axis %d" % (w[0], w[1], w[3])) for i, w in enumerate(W)]
CASES += [dict(name="dc", fn=dc, bounds="1x2 kernels")]
CASES += purity("filter_OTF")
OUTSIDE = "Kernels with more than two free values and frequencies other than the listed ones; the offset of up to one bin described above is inside the tolerance and reported as a known finding at zero frequency."
