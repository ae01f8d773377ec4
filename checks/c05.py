"""Turbulence: Hufnagel-Valley profile, Fried diameter, long/short exposure OTF, wind mixing, polychromatic OTF."""
import numpy as np

from .common import grid, pointwise
from . import spec
from .c32 import purity

m = spec.m


def par(h, tag=""):
    return (h.real("lam" + tag, 3e-7, 1.4e-5), h.real("D" + tag, 0.005, 5.0), h.real("r0" + tag, 1e-5, 1000.0))


def turb(kind):
    def case(h):
        u, v = grid(h, kind)
        if kind in ("2d", "big", "big2"):
            p = (4e-6, 0.3, 0.12, h.real("alpha", 0.0, 1.0))
        else:
            p = par(h) + (h.real("alpha", 0.0, 1.0),)
        pointwise(h, h.pb.otf.turbulence_OTF, spec.turb, u, v, p)
    return case


def wind(kind):
    def case(h):
        u, v = grid(h, kind)
        td, vel = h.real("t_d", 0.0, 10.0), h.real("vel", 0.0, 1000.0)
        p = ((4e-6, 0.3, 0.12) if kind in ("2d", "big", "big2") else par(h)) + (td, vel)
        pointwise(h, h.pb.otf.wind_speed_turbulence_OTF, spec.wind_turb, u, v, p)
    return case


def wind_limits(h):
    """no motion: the short-exposure form; the two extremes bracket the mixture"""
    u, v = grid(h, "1")
    lam, D, r0 = par(h)
    f = h.pb.otf.wind_speed_turbulence_OTF
    h.close(f(u, v, lam, D, r0, 0.0, h.real("vel", 0.0, 100.0)), h.pb.otf.turbulence_OTF(u, v, lam, D, r0, 0.5), "frozen", rtol=1e-9)
    h.close(f(u, v, lam, D, r0, h.real("td", 0.0, 100.0), 0.0), h.pb.otf.turbulence_OTF(u, v, lam, D, r0, 0.5), "no wind", rtol=1e-9)


def hv(n):
    def case(h):
        hh = h.vec("h", n, 0.0, 3.0e4)
        w, a = h.real("wind", 0.0, 200.0), h.real("cn2", 0.0, 1e-12)
        snap = h.snap(hh)
        r = h.pb.otf.hufnagel_valley_turbulence_profile(hh, w, a)
        h.true(np.shape(r) == (n,), "shape")
        for i in range(n):
            h.close(r[i], spec.hv(hh[i], w, a), "cn2[%d]" % i)
        h.unchanged(snap, (hh,), "altitudes")
    return case


def fried(n, uniform):
    def case(h):
        if uniform:
            R = h.real("R", 1.0, 1e6)
            z = h.arr([R * (k / (n - 1)) for k in range(n)])
        else:
            z = h.inc("z", n, 0.0, 10.0, 0.5, 1e5)
        c = h.vec("c", n, 1e-22, 1e-11)
        lam = h.real("lam", 3e-7, 1.4e-5)
        snap = h.snap(z, c)
        r = h.pb.otf.coherence_diameter(lam, z, c)
        h.close(r, spec.fried(lam, z, c), "r0")
        h.unchanged(snap, (z, c), "path")
    return case


def poly(nw, kind, stub=False):
    """wavelength-weighted OTF and coherence diameter over the slant path to the ground"""
    def case(h):
        alt = h.real("alt", 10.0, 2.0e4) if stub else 5000.0
        R = alt * h.real("obl", 1.0, 3.0) if stub else 5500.0
        calls = []
        if stub:
            zs, ps = h.arr([0.0, 1000.0, 4000.0]), h.arr([0.0, h.real("h1", 1.0, 1000.0), 3000.0])

            def path(*a, **k):
                calls.append((a, k))
                return zs.copy(), ps.copy()
            h.patch_everywhere(h.pb.geo.altitude_along_slant_path, path)
        u, v = grid(h, kind)
        wav = h.arr([0.5e-6, 0.9e-6, 1.6e-6][:nw])
        wts = h.vec("w", nw, 0.1, 10.0)
        D = h.real("D", 0.01, 2.0)
        wind, cn2 = h.real("wind", 0.0, 100.0), h.real("cn2", 1e-16, 1e-12)
        it, sp = h.real("int_time", 1e-6, 1.0), h.real("speed", 0.0, 300.0)
        snap = h.snap(u, v, wav, wts)
        H, r0 = h.pb.otf.polychromatic_turbulence_OTF(u, v, wav, wts, alt, R, D, wind, cn2, it, sp)
        if stub:
            if not calls:
                return      # the path is obtained some other way; the other cases decide
            for a, k in calls:
                b = dict(zip(("h_target", "h_sensor", "slant_range"), a))
                b.update(k)
                h.close(b["h_target"], 0.0, "path starts on the ground")
                h.close(b["h_sensor"], alt, "path ends at the sensor altitude")
                h.close(b["slant_range"], R, "path length")
            z, p = zs, ps
        else:
            z, p = h.pb.geo.altitude_along_slant_path(0.0, alt, R)
        if h.sym:
            r1 = spec.fried(1e-6, z, [spec.hv(x, wind, cn2) for x in p])
        else:
            zz, pp = np.asarray(z, float), np.asarray(p, float)
            c = 5.94e-53 * (wind / 27) ** 2 * pp ** 10 * np.exp(-pp / 1000) + 2.7e-16 * np.exp(-pp / 1500) + cn2 * np.exp(-pp / 100)
            y = c * (zz / zz[-1]) ** (5 / 3)
            r1 = (0.423 * (2 * np.pi / 1e-6) ** 2 * float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(zz)))) ** (-3 / 5)
        tot = wts[0]
        for i in range(1, nw):
            tot = tot + wts[i]
        rs = [r1 * m.pow(wav[i] / 1e-6, 6.0 / 5.0) for i in range(nw)]
        rb = 0.0
        for i in range(nw):
            rb = rb + wts[i] / tot * rs[i]
        h.close(np.asarray(r0).reshape(-1)[0], rb, "band coherence diameter", rtol=1e-8)
        h.true(np.size(r0) == 1, "size of r0")
        h.true(np.shape(H) == np.shape(u), "shape")
        fu, fv, fH = (np.asarray(x).reshape(-1) for x in (u, v, H))
        for k in range(fu.size):
            s = 0.0
            for i in range(nw):
                s = s + wts[i] / tot * spec.wind_turb(fu[k], fv[k], wav[i], D, rs[i], it, sp)
            h.close(fH[k], s, "H[%d]" % k, rtol=1e-8)
        h.unchanged(snap, (u, v, wav, wts), "inputs")
    return case


CASES = [dict(name="turbulence-%s" % k, fn=turb(k), bounds="lambda 0.3-14 um, D 5 mm-5 m, r0 0.01 mm-1 km, alpha in [0,1]") for k in ("1", "axes", "2d", "big", "big2")]
CASES += [dict(name="wind-%s" % k, fn=wind(k), bounds="as turbulence; integration time 0-10 s, speed 0-1000 m/s") for k in ("1", "axes", "2d")]
CASES += [dict(name="wind-limits", fn=wind_limits, bounds="zero integration time or zero speed")]
CASES += [dict(name="hufnagel-valley-%d" % n, fn=hv(n), bounds="altitudes 0-30 km, %d samples" % n) for n in (1, 3)]
CASES += [dict(name="fried-%d%s" % (n, "u" if un else ""), fn=fried(n, un), bounds="%d path samples%s" % (n, ", uniform" if un else "")) for n, un in ((2, False), (3, False), (5, False), (5, True))]
CASES += [dict(name="polychromatic-%d-%s" % (n, k), fn=poly(n, k), bounds="%d wavelengths, 5 km altitude, 5.5 km slant range, full path" % n)
          for n, k in ((1, "1"), (2, "1"), (3, "axes"))]
CASES += [dict(name="polychromatic-geometry", fn=poly(2, "x", True), bounds="2 wavelengths, any altitude 10 m-20 km, obliquity 1-3; path of 3 samples substituted for the geometry")]
CASES += purity("polychromatic_turbulence_OTF", "turbulence_OTF", "wind_speed_turbulence_OTF", "coherence_diameter", "hufnagel_valley_turbulence_profile")
OUTSIDE = "profiles and paths with more samples than listed (the concrete witness replays use the real 10000-sample path)"
