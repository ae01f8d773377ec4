"""From radiance to photoelectron rate: focal-plane irradiance, detection rate, band integral, dark current."""
import numpy as np

from . import spec
from .c13 import optics
from .c32 import purity

m = spec.m


def each(h, r, n, f, label, **k):
    h.true(np.shape(r) == (n,), "shape of " + label, "shape %s for %d samples" % (np.shape(r), n))
    for i in range(n):
        h.close(r[i], f(i), "%s[%d]" % (label, i), **k)


def irradiance(n):
    def case(h):
        D, f = optics(h)
        L = h.vec("L", n, -1e3, 1e9)
        snap = h.snap(L)
        each(h, h.pb.rad.at_focal_plane_irradiance(D, f, L), n, lambda i: L[i] * spec.fnum_fac(D, f), "irradiance")
        h.unchanged(snap, (L,), "radiance")
    return case


def integrated(n):
    def case(h):
        D, f = optics(h)
        L, lam = h.vec("L", n, 0.0, 1e9), h.vec("lam", n, 3e-7, 2e-5)
        Ls, t, e, dl, T = h.real("Ls", 0.0, 1e6), h.real("t", 0.0, 1.0), h.real("e", 0.0, 1.0), h.real("dl", 1e-10, 1e-6), h.real("T", 20.0, 2000.0)
        r = h.pb.rad.focal_plane_integrated_irradiance(L, Ls, t, e, lam, dl, T, D, f)
        each(h, r, n, lambda i: (t * L[i] + e * spec.planck(lam[i], T) * dl + Ls) * spec.fnum_fac(D, f), "integrated irradiance")
    return case


def rate(n):
    def case(h):
        E, lam, qe = h.vec("E", n, 0.0, 1e9), h.vec("lam", n, 3e-7, 2e-5), h.vec("qe", n, 0.0, 2.0)
        wx, wy = h.real("wx", 1e-7, 1e-3), h.real("wy", 1e-7, 1e-3)
        snap = h.snap(E, lam, qe)
        r = h.pb.rad.photon_detection_rate(E, wx, wy, lam, qe)
        each(h, r, n, lambda i: lam[i] / (spec.HC * spec.CC) * qe[i] * wx * wy * E[i], "rate")
        h.unchanged(snap, (E, lam, qe), "inputs")
    return case


def signal(n, order="up", other="vec"):
    """band integral by the trapezoid rule over the given wavelengths"""
    def case(h):
        D, f = optics(h)
        if order == "up":
            lam = h.inc("lam", n, 3e-7, 1e-5, 1e-9, 1e-6)
        elif order == "fixed":
            lam = h.arr([4e-7 + 1e-8 * i * i for i in range(n)])
        L, t, qe = h.vec("L", n, 0.0, 1e9), h.vec("t", n, 0.0, 1.0), h.vec("qe", n, 0.0, 2.0)
        oth = h.vec("o", n, 0.0, 1e6) if other == "vec" else h.arr([h.real("o", 0.0, 1e6)])
        wx, wy, dark = h.real("wx", 1e-7, 1e-3), h.real("wy", 1e-7, 1e-3), h.real("dark", 0.0, 1e9)
        snap = h.snap(lam, L, t, qe, oth)
        r, E, dN = h.pb.rad.signal_rate(lam, L, t, D, f, wx, wy, qe, oth, dark)
        o = [oth[i] if other == "vec" else oth[0] for i in range(n)]
        e = [t[i] * L[i] * spec.fnum_fac(D, f) + o[i] for i in range(n)]
        d = [lam[i] / (spec.HC * spec.CC) * qe[i] * wx * wy * e[i] for i in range(n)]
        each(h, E, n, lambda i: e[i], "focal plane irradiance")
        each(h, dN, n, lambda i: d[i], "spectral rate")
        h.close(r, spec.trapz(d, lam) + dark, "total rate")
        h.unchanged(snap, (lam, L, t, qe, oth), "inputs")
    return case


def linear(h):
    """doubling the scene doubles the signal above the scene-free rate"""
    D, f = optics(h)
    n = 3
    lam = h.arr([4e-7, 5e-7, 7e-7])
    L, t, qe, oth = h.vec("L", n, 0.0, 1e9), h.vec("t", n, 0.0, 1.0), h.vec("qe", n, 0.0, 2.0), h.vec("o", n, 0.0, 1e6)
    k, dark = h.real("k", 0.0, 10.0), h.real("dark", 0.0, 1e9)
    g = h.pb.rad.signal_rate
    z = g(lam, L * 0.0, t, D, f, 1e-5, 1e-5, qe, oth, dark)[0]
    a = g(lam, L, t, D, f, 1e-5, 1e-5, qe, oth, dark)[0]
    b = g(lam, L * k, t, D, f, 1e-5, 1e-5, qe, oth, dark)[0]
    h.close(b - z, k * (a - z), "superposition", rtol=1e-7, atol=1e-3)
    h.le(z, a, "more light, more electrons", tol=1e-3)


def dark(h):
    j, wx, wy = h.real("jd", 0.0, 1e3), h.real("wx", 1e-7, 1e-3), h.real("wy", 1e-7, 1e-3)
    h.close(h.pb.otf.dark_current_from_density(j, wx, wy), j * wx * wy / spec.QE, "dark current")


CASES = [dict(name="irradiance-%d" % n, fn=irradiance(n), bounds="%d samples" % n) for n in (1, 3)]
CASES += [dict(name="integrated-%d" % n, fn=integrated(n), bounds="%d samples" % n) for n in (1, 3)]
CASES += [dict(name="rate-%d" % n, fn=rate(n), bounds="%d samples" % n) for n in (1, 2, 4)]
CASES += [dict(name="signal-%d-%s-%s" % (n, o, x), fn=signal(n, o, x), bounds="%d wavelengths (%s)" % (n, o)) for n, o, x in
          ((1, "up", "vec"), (2, "up", "vec"), (3, "up", "vec"), (4, "up", "one"), (6, "fixed", "vec"), (12, "fixed", "vec"))]
CASES += [dict(name="superposition", fn=linear, bounds="3 wavelengths"), dict(name="dark-current", fn=dark, bounds="any")]
CASES += purity("at_focal_plane_irradiance", "focal_plane_integrated_irradiance", "photon_detection_rate", "signal_rate")
OUTSIDE = "more spectral samples than listed per case"
