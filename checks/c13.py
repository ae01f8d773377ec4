"""Thermal emission: Planck radiance and the self-emission of cold shield, cold stop and optics."""
import numpy as np

from . import spec
from .c32 import purity

m = spec.m


def lams(h, n, tag="", lo=3e-7, hi=2e-5):
    return h.vec("lam" + tag, n, lo, hi)


def temp(h, name="T"):
    return h.real(name, 20.0, 2000.0)


def each(h, r, lam, f, label):
    h.true(np.shape(r) == np.shape(lam), "shape of " + label)
    fr, fl = np.asarray(r).reshape(-1), np.asarray(lam).reshape(-1)
    for i in range(fl.size):
        h.close(fr[i], f(fl[i]), "%s[%d]" % (label, i))


def planck(n, lo=3e-7, hi=2e-5):
    def case(h):
        lam, T = lams(h, n, "", lo, hi), temp(h)
        snap = h.snap(lam)
        each(h, h.pb.rad.blackbody_radiance(lam, T), lam, lambda x: spec.planck(x, T), "Planck radiance")
        h.unchanged(snap, (lam,), "wavelengths")
    return case


def planck_hotter(h):
    """more radiance at every wavelength when hotter (same wavelength, T' > T)"""
    lam = lams(h, 1)
    T = h.real("T", 100.0, 2000.0)
    d = h.real("d", 1.0, 500.0)
    a = h.pb.rad.blackbody_radiance(lam, T)[0]
    b = h.pb.rad.blackbody_radiance(lam, T + d)[0]
    h.le(0.0, a, "radiance is not negative")
    h.le(a, b, "hotter is brighter")


def optics(h):
    return h.real("D", 0.005, 5.0), h.real("f", 0.01, 20.0)


def shield(n, lo=3e-7, hi=2e-5):
    def case(h):
        lam, T = lams(h, n, "", lo, hi), temp(h)
        D, f = optics(h)
        each(h, h.pb.rad.cold_shield_self_emission(lam, T, D, f), lam, lambda x: (m.pi - spec.fnum_fac(D, f)) * spec.planck(x, T), "cold shield")
    return case


def stop(n):
    def case(h):
        lam, T, e = lams(h, n), temp(h), h.real("emis", 0.0, 1.0)
        D, f = optics(h)
        each(h, h.pb.rad.cold_stop_self_emission(lam, T, e, D, f), lam, lambda x: e * spec.planck(x, T) * spec.fnum_fac(D, f), "cold stop")
    return case


def warm(n):
    def case(h):
        lam, T, e, t = lams(h, n), temp(h), h.real("emis", 0.0, 1.0), h.real("trans", 0.0, 1.0)
        D, f = optics(h)
        each(h, h.pb.rad.optics_self_emission(lam, T, e, t, D, f), lam, lambda x: t * e * spec.planck(x, T) * spec.fnum_fac(D, f), "optics")
    return case


def closure(h):
    """a cold shield and a black stop at one temperature fill the hemisphere exactly once"""
    lam, T = lams(h, 2), temp(h)
    D, f = optics(h)
    a = h.pb.rad.cold_shield_self_emission(lam, T, D, f) + h.pb.rad.cold_stop_self_emission(lam, T, 1.0, D, f)
    each(h, a, lam, lambda x: m.pi * spec.planck(x, T), "enclosure")


def repeat(h):
    """no memory of earlier calls"""
    lam, T = lams(h, 2), temp(h)
    lam2, T2 = lams(h, 3, "b"), temp(h, "T2")
    D, f = optics(h)
    e = h.real("emis", 0.0, 1.0)
    r = h.pb.rad
    for L, t in ((lam, T), (lam2, T2), (lam, T2), (lam, T)):
        each(h, r.blackbody_radiance(L, t), L, lambda x: spec.planck(x, t), "Planck")
        each(h, r.cold_shield_self_emission(L, t, D, f), L, lambda x: (m.pi - spec.fnum_fac(D, f)) * spec.planck(x, t), "shield")
        each(h, r.optics_self_emission(L, t, e, e, D, f), L, lambda x: e * e * spec.planck(x, t) * spec.fnum_fac(D, f), "optics")


CASES = [dict(name="planck-%d" % n, fn=planck(n), bounds="%d wavelengths 0.3-20 um, 20-2000 K" % n) for n in (1, 2, 4)]
CASES += [dict(name="planck-short", fn=planck(2, 1e-8, 3e-7), bounds="2 wavelengths 0.01-0.3 um, 20-2000 K"),
          dict(name="planck-far", fn=planck(2, 2e-5, 1e-3), bounds="2 wavelengths 20-1000 um, 20-2000 K"),
          dict(name="cold-shield-far", fn=shield(1, 2e-5, 1e-3), bounds="one wavelength 20-1000 um")]
CASES += [dict(name="planck-monotone", fn=planck_hotter, bounds="temperature step 1-500 K above 100 K")]
CASES += [dict(name="cold-shield-%d" % n, fn=shield(n), bounds="%d wavelengths" % n) for n in (1, 3)]
CASES += [dict(name="cold-stop-%d" % n, fn=stop(n), bounds="%d wavelengths" % n) for n in (1, 3)]
CASES += [dict(name="optics-%d" % n, fn=warm(n), bounds="%d wavelengths" % n) for n in (1, 3)]
CASES += [dict(name="enclosure", fn=closure, bounds="2 wavelengths"), dict(name="repeat", fn=repeat, bounds="sequence of 4 calls")]
CASES += purity("blackbody_radiance", "cold_shield_self_emission", "cold_stop_self_emission", "optics_self_emission")
OUTSIDE = "wavelengths outside 0.01-1000 um (self-emission of stop and optics: 0.3-20 um), temperatures below 20 K or above 2000 K"
