"""Defocused circular aperture: Hopkins' series, in-focus formula at zero defocus."""
import math

from .common import grid, pointwise
from . import spec
from .c32 import purity


def par(h, dz=None):
    return (h.real("lam", 3e-7, 1.4e-5), h.real("D", 0.005, 5.0), h.real("f", 0.01, 20.0),
            h.real("dz", -1e-3, 1e-3, nonzero=True) if dz is None else dz)


def defocused(kind):
    def case(h):
        u, v = grid(h, kind)
        pointwise(h, h.pb.otf.circular_aperture_OTF_with_defocus, spec.hopkins, u, v, par(h), None, atol=1e-7)
    return case


def infocus(kind):
    def case(h):
        u, v = grid(h, kind)
        pointwise(h, h.pb.otf.circular_aperture_OTF_with_defocus, lambda a, b, l, D, f, z: spec.in_focus(a, b, l, D), u, v, par(h, 0.0), None, atol=1e-7)
    return case


def fixed(kind, dz):
    def case(h):
        u, v = grid(h, kind)
        sp = spec.hopkins if dz else (lambda a, b, l, D, f, z: spec.in_focus(a, b, l, D))
        pointwise(h, h.pb.otf.circular_aperture_OTF_with_defocus, sp, u, v, (4e-6, 0.275, 4.0, dz), None, atol=1e-7)
    return case


def consistent(h):
    """zero defocus agrees with the unobscured diffraction OTF"""
    u, v = grid(h, "1")
    lam, D, f, dz = par(h, 0.0)
    a = h.pb.otf.circular_aperture_OTF_with_defocus(u, v, lam, D, f, 0.0)
    b = h.pb.otf.circular_aperture_OTF(u, v, lam, D, 0.0)
    h.close(a[0], b[0], "in focus == diffraction", atol=1e-7)


def overlap(x, w20, lam):
    """pupil-overlap integral at normalised frequency x (fraction of the cutoff), by quadrature"""
    s = 2 * x
    n = 8000
    half = 1 - s / 2
    tot = 0.0
    for i in range(n):
        t = -half + 2 * half * (i + 0.5) / n
        q = 1 - (abs(t) + s / 2) ** 2
        if q > 0:
            tot += 2 * math.sqrt(q) * math.cos(4 * math.pi / lam * w20 * s * t) * 2 * half / n
    return tot / math.pi


def physics(x, waves):
    """the pupil autocorrelation itself, at fixed points (rational focal lengths symbolic)"""
    def case(h):
        lam, D = 4e-6, 0.25
        k = h.real("k", 0.5, 2.0)          # scales wavelength, aperture and defocus together
        lam, D = lam * k, D * k
        f = 2.0 * k
        dz = waves * lam * 2 * (1 + 4 * (f / D) * (f / D))
        r = h.pb.otf.circular_aperture_OTF_with_defocus(h.arr([x * 62500.0]), h.arr([0.0]), lam, D, f, dz)
        h.close(r[0], overlap(x, waves * 4e-6, 4e-6), "pupil overlap integral", atol=2e-4)
    return case


CASES = [dict(name="defocused-%s" % k, fn=defocused(k), bounds="|defocus|<=1mm, f in [1cm,20m], D in [5mm,5m]") for k in ("1", "x", "y")]
CASES += [dict(name="in-focus-%s" % k, fn=infocus(k), bounds="defocus 0") for k in ("1", "x", "y")]
CASES += [dict(name="fixed-%s" % k, fn=fixed(k, z), bounds="fixed optics, one arbitrary entry") for k, z in (("2d", 2e-5), ("big2", -3e-5))]
CASES += [dict(name="fixed0-2d", fn=fixed("2d", 0.0), bounds="fixed optics, one arbitrary entry")]
CASES += [dict(name="in-focus-consistent", fn=consistent, bounds="any optics")]
CASES += [dict(name="overlap-%g-%g" % (x, w), fn=physics(x, w), bounds="x=%g cutoff, %g waves of defocus, scale in [0.5,2]" % (x, w))
          for x, w in ((0.025, 0.3), (0.15, 0.05), (0.35, 0.05), (0.35, 0.25), (0.6, 0.1), (0.9, 0.02))]
CASES += purity("circular_aperture_OTF_with_defocus")
OUTSIDE = "Bessel orders above 8 (the published truncation); defocus above 1 mm"
