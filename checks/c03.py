"""Detector, motion, carrier-diffusion, clocking, wavefront and defocus-blur OTFs equal
their published closed forms at every frequency."""
import numpy as np

from .common import grid, pointwise, U
from . import spec
from .c32 import purity

KINDS = ("1", "axes", "2d", "grid", "big2")


def R(h, *specs, tag=""):
    return tuple(h.real(n + tag, lo, hi) for n, lo, hi in specs)


def make(fname, sp, params, kinds=KINDS, two=True, atol=1e-12, pre=None):
    def mk(kind):
        def case(h):
            u, v = grid(h, kind)
            p1 = params(h, "")
            p2 = params(h, "_b") if two and kind in ("1", "2d") else None
            pointwise(h, getattr(h.pb.otf, fname), sp, u, v, p1, p2, atol=atol)
        return case
    return [dict(name="%s-%s" % (fname.replace("_OTF", ""), k), fn=mk(k), bounds="%s layout, |u|,|v|<=2e5" % k) for k in kinds]


CASES = []
CASES += make("detector_OTF", spec.detector, lambda h, t: R(h, ("wx", 1e-7, 1e-3), ("wy", 1e-7, 1e-3), ("f", 0.01, 20.0), tag=t))
CASES += make("drift_OTF", spec.drift, lambda h, t: R(h, ("ax", 0.0, 1e-3), ("ay", 0.0, 1e-3), tag=t))
CASES += make("jitter_OTF", spec.jitter, lambda h, t: R(h, ("sx", 0.0, 1e-4), ("sy", 0.0, 1e-4), tag=t))
CASES += make("gaussian_OTF", spec.gaussian, lambda h, t: R(h, ("bx", 1e-8, 1e-3), ("by", 1e-8, 1e-3), tag=t))
CASES += make("defocus_OTF", spec.defocus, lambda h, t: R(h, ("D", 0.005, 5.0), ("wx", 0.0, 1e-4), ("wy", 0.0, 1e-4), tag=t))
CASES += make("cte_OTF", spec.cte, lambda h, t: R(h, ("px", 1e-7, 1e-3), ("py", 1e-7, 1e-3), ("nx", 0.0, 1e4), ("ny", 0.0, 1e4), ("ph", 1.0, 6.0),
                                                 ("eff", 0.9, 1.0), ("f", 0.01, 20.0), tag=t))
CASES += make("diffusion_OTF", spec.diffusion, lambda h, t: R(h, ("alpha", 1e3, 1e6), ("ald", 1e-7, 1e-4), ("al0", 1e-7, 1e-4), ("f", 0.01, 20.0), tag=t))
CASES += make("wavefront_OTF", spec.wavefront, lambda h, t: R(h, ("lam", 3e-7, 1.4e-5), ("pv", 0.0, 20.0), ("Lx", 0.001, 10.0), ("Ly", 0.001, 10.0), tag=t))
CASES += make("wavefront_OTF_2", spec.wavefront2, lambda h, t: R(h, ("cut", 1.0e2, 1e7), ("w", 0.0, 0.3), tag=t))


def agg(n, kind):
    def case(h):
        u, v = grid(h, kind)
        p = R(h, ("wx", 1e-7, 1e-3), ("wy", 1e-7, 1e-3), ("px", 1e-7, 1e-3), ("py", 1e-7, 1e-3), ("f", 0.01, 20.0)) + (n,)
        pointwise(h, h.pb.otf.detector_OTF_with_aggregation, spec.detector_agg, u, v, p, None, atol=1e-12)
    return case


def agg_default(h):
    u, v = grid(h, "1")
    p = R(h, ("wx", 1e-7, 1e-3), ("wy", 1e-7, 1e-3), ("px", 1e-7, 1e-3), ("py", 1e-7, 1e-3), ("f", 0.01, 20.0))
    r = h.pb.otf.detector_OTF_with_aggregation(u, v, *p)
    h.close(r[0], spec.detector(u[0], v[0], p[0], p[1], p[4]), "n defaults to 1", atol=1e-12)


for n in (1, 2, 3, 5, 8, 16, 33):
    CASES.append(dict(name="aggregation-%d" % n, fn=agg(n, "1"), bounds="n=%d" % n))
CASES.append(dict(name="aggregation-2d", fn=agg(2, "2d"), bounds="n=2, 2x3 grid"))
CASES.append(dict(name="aggregation-default", fn=agg_default, bounds="n omitted"))


def tdi(n, ph, kind="1"):
    def case(h):
        w, beta, f = R(h, ("w", 1e-7, 1e-3), ("beta", 0.5, 2.0), ("f", 0.01, 20.0))
        if kind == "1":
            u = h.arr([h.real("u", -U, U)])
        else:
            u = h.arr([0.0, h.real("u", -U, U), 150.0])
        r = h.pb.otf.tdi_OTF(u, w, n, ph, beta, f)
        h.true(len(r) == len(u), "shape")
        for i in range(len(u)):
            re, im = spec.tdi(u[i], w, n, ph, beta, f)
            h.close(r[i].real, re, "re", atol=1e-9)
            h.close(r[i].imag, im, "im", atol=1e-9)
    return case


for n, ph in ((1, 1), (2, 1), (2, 2), (3, 4), (65, 1), (100, 4)):
    CASES.append(dict(name="tdi-%d-%d" % (n, ph), fn=tdi(n, ph), bounds="n_tdi=%d, phases=%d" % (n, ph)))
CASES.append(dict(name="tdi-arr", fn=tdi(2, 2, "arr"), bounds="n_tdi=2, phases=2, 3 frequencies"))


def radii(h):
    D, dz, f, Rg, R0 = R(h, ("D", 0.005, 5.0), ("dz", -1e-3, 1e-3), ("f", 0.01, 20.0), ("R", 1.0, 1e6), ("R0", 1.0, 1e6))
    h.close(h.pb.otf.image_domain_defocus_radii(D, dz, f), 0.62 * D * dz / (f * f), "image")
    h.close(h.pb.otf.object_domain_defocus_radii(D, Rg, R0), 0.62 * D * (1 / Rg - 1 / R0), "object", atol=1e-15)
    h.close(h.pb.otf.object_domain_defocus_radii(D, Rg, Rg), 0.0, "in focus", atol=1e-15)


def dark(h):
    jd, wx, wy = R(h, ("jd", 0.0, 1.0), ("wx", 1e-7, 1e-3), ("wy", 1e-7, 1e-3))
    h.close(h.pb.otf.dark_current_from_density(jd, wx, wy), jd * wx * wy / spec.QE, "dark")


def diffusion_spectral(h):
    """the diffusion coefficient given per frequency"""
    u, v = h.arr([h.real("u", 1.0, U), 3.0e4, 0.0]), h.arr([2.0e4, -1.5e4, 0.0])
    al = [h.real("alpha", 1e3, 1e6), 4.2e4, 7.0e5]
    ald, al0, f = R(h, ("ald", 1e-7, 1e-4), ("al0", 1e-7, 1e-4), ("f", 0.01, 20.0))
    a = h.arr(al)
    snap = h.snap(u, v, a)
    r = h.pb.otf.diffusion_OTF(u, v, a, ald, al0, f)
    h.unchanged(snap, (u, v, a), "inputs")
    h.true(np.shape(r) == (3,), "shape")
    for i in range(3):
        h.close(r[i], spec.diffusion(u[i], v[i], al[i], ald, al0, f), "spectral[%d]" % i, atol=1e-12)


CASES.append(dict(name="diffusion-spectral", fn=diffusion_spectral, bounds="3 frequencies with their own diffusion coefficients"))
CASES.append(dict(name="defocus-radii", fn=radii, bounds="D in [5mm,5m], ranges 1 m to 1000 km"))
CASES.append(dict(name="dark-current", fn=dark, bounds="jd in [0,1] A/m^2"))
CASES += purity("detector_OTF", "drift_OTF", "jitter_OTF", "gaussian_OTF", "defocus_OTF", "cte_OTF", "diffusion_OTF", "wavefront_OTF", "wavefront_OTF_2", "detector_OTF_with_aggregation", "tdi_OTF", "object_domain_defocus_radii", "image_domain_defocus_radii", "dark_current_from_density")
OUTSIDE = "aggregation beyond n=33, TDI beyond 400 sub-steps; carrier and wavefront parameters outside the stated ranges"
