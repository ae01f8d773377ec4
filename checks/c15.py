"""At-aperture radiance of a target seen through the atmosphere; the GIQE scene constants."""
import numpy as np

from . import spec
from .c14 import each
from .c32 import purity

m = spec.m


def atmosphere(h, n, tag=""):
    """columns: wavelength, transmission, path emission, (unused), path scatter, ground reflected at 0.15"""
    a = h.mat("atm" + tag, n, 6, 0.0, 1e8)
    for i in range(n):
        a[i, 0] = h.real("lam%s%d" % (tag, i), 3e-7, 1.4e-5)
        a[i, 1] = h.real("tau%s%d" % (tag, i), 0.0, 1.0)
    return a


def want(a, i, r, T):
    return a[i, 2] + a[i, 4] + a[i, 5] * (r / 0.15) + (1 - r) * spec.planck(a[i, 0], T) * a[i, 1]


def total(n):
    def case(h):
        a = atmosphere(h, n)
        r, T = h.real("refl", 0.0, 1.0), h.real("T", 20.0, 2000.0)
        snap = h.snap(a)
        each(h, h.pb.rad.total_radiance(a, r, T), n, lambda i: want(a, i, r, T), "radiance")
        h.unchanged(snap, (a,), "atmosphere")
    return case


def giqe(n, emissive):
    def case(h):
        a = atmosphere(h, n)
        snap = h.snap(a)
        for em in ((1, 0, 1) if emissive else (0, 1, 0)):
            t, b = h.pb.rad.giqe_radiance(a, em)
            rt, rb = (0.0, 0.0) if em else (0.15, 0.07)
            each(h, t, n, lambda i: want(a, i, rt, 282.0), "target")
            each(h, b, n, lambda i: want(a, i, rb, 280.0), "background")
        h.unchanged(snap, (a,), "atmosphere")
    return case


def linear(h):
    """reflectance enters linearly: the mean of two reflectances gives the mean radiance"""
    a = atmosphere(h, 2)
    r, s, T = h.real("r", 0.0, 1.0), h.real("s", 0.0, 1.0), h.real("T", 100.0, 1000.0)
    f = h.pb.rad.total_radiance
    each(h, f(a, r, T) + f(a, s, T), 2, lambda i: 2 * f(a, (r + s) / 2, T)[i], "mean", rtol=1e-8)


def opaque(h):
    """with no transmission and no ground term the surface is invisible"""
    a = atmosphere(h, 2)
    a[:, 1] = 0.0
    a[:, 5] = 0.0
    f = h.pb.rad.total_radiance
    x = f(a, h.real("r", 0.0, 1.0), h.real("T", 100.0, 1000.0))
    each(h, x, 2, lambda i: a[i, 2] + a[i, 4], "path radiance only")


CASES = [dict(name="total-%d" % n, fn=total(n), bounds="%d wavelengths" % n) for n in (1, 2, 5)]
CASES += [dict(name="giqe-%d-%s" % (n, "ir" if e else "vis"), fn=giqe(n, e), bounds="%d wavelengths" % n) for n in (1, 3) for e in (0, 1)]
CASES += [dict(name="linear", fn=linear, bounds="2 wavelengths"), dict(name="opaque", fn=opaque, bounds="2 wavelengths")]
CASES += purity("total_radiance", "giqe_radiance")
OUTSIDE = "more wavelengths than listed; the atmosphere data itself (not shipped in this tree)"
