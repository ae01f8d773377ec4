"""Invariants shared by the component OTFs: one at zero frequency, magnitude at most one, symmetries, shape."""
import numpy as np

from . import spec

m = spec.m
U = 2e5


def P(*specs):
    return specs


# function, parameters (name, lo, hi, partner on the other axis or None), extra assumption on (u, v, parameters) or None
FAMILIES = [
    ("detector_OTF", P(("wx", 1e-7, 1e-3, "wy"), ("wy", 1e-7, 1e-3, "wx"), ("f", 0.01, 20.0, None)), None),
    ("drift_OTF", P(("ax", 0.0, 1e-3, "ay"), ("ay", 0.0, 1e-3, "ax")), None),
    ("jitter_OTF", P(("sx", 0.0, 1e-4, "sy"), ("sy", 0.0, 1e-4, "sx")), None),
    ("gaussian_OTF", P(("bx", 1e-8, 1e-3, "by"), ("by", 1e-8, 1e-3, "bx")), None),
    ("defocus_OTF", P(("D", 0.005, 5.0, None), ("wx", 0.0, 1e-4, "wy"), ("wy", 0.0, 1e-4, "wx")), None),
    ("cte_OTF", P(("px", 1e-7, 1e-3, "py"), ("py", 1e-7, 1e-3, "px"), ("nx", 0.0, 1e4, "ny"), ("ny", 0.0, 1e4, "nx"), ("ph", 1.0, 6.0, None),
                  ("eff", 0.9, 1.0, None), ("f", 0.01, 20.0, None)), None),
    ("diffusion_OTF", P(("alpha", 1e3, 1e6, None), ("ald", 1e-7, 1e-4, None), ("al0", 1e-7, 1e-4, None), ("f", 0.01, 20.0, None)), None),
    ("wavefront_OTF", P(("lam", 3e-7, 1.4e-5, None), ("pv", 0.0, 1.0, None), ("Lx", 0.001, 10.0, "Ly"), ("Ly", 0.001, 10.0, "Lx")), None),
    ("wavefront_OTF_2", P(("cut", 3e5, 1e7, None), ("w", 0.0, 0.25, None)), None),
    ("turbulence_OTF", P(("lam", 3e-7, 1.4e-5, None), ("D", 0.005, 5.0, None), ("r0", 1e-3, 100.0, None), ("alpha", 0.0, 1.0, None)),
     lambda h, u, v, p: h.assume(p[0] * p[0] * (u * u + v * v), "<=", p[1] * p[1])),
    ("wind_speed_turbulence_OTF", P(("lam", 3e-7, 1.4e-5, None), ("D", 0.005, 5.0, None), ("r0", 1e-3, 100.0, None), ("td", 0.0, 10.0, None), ("vel", 0.0, 500.0, None)),
     lambda h, u, v, p: h.assume(p[0] * p[0] * (u * u + v * v), "<=", p[1] * p[1])),
    ("circular_aperture_OTF", P(("lam", 3e-7, 1.4e-5, None), ("D", 0.005, 5.0, None), ("eta", 0.0, 0.95, None)), None),
    ("circular_aperture_OTF_with_defocus", P(("lam", 3e-7, 1.4e-5, None), ("D", 0.005, 5.0, None), ("f", 0.05, 20.0, None), ("dz", -1e-4, 1e-4, None)), None),
]
NB = {"circular_aperture_OTF", "circular_aperture_OTF_with_defocus", "wind_speed_turbulence_OTF"}  # bounds decided separately


def params(h, specs, fixed=None):
    return [fixed[i] if fixed else h.real(n, lo, hi) for i, (n, lo, hi, _) in enumerate(specs)]


def dc(fname, specs):
    """one at zero frequency, whatever the parameters and the shape of the grid"""
    def case(h):
        p = params(h, specs)
        f = getattr(h.pb.otf, fname)
        for z in (h.arr([0.0]), h.arr([[0.0, 0.0], [0.0, 0.0]])):
            r = f(z, z, *p)
            h.true(np.shape(r) == np.shape(z), "shape")
            for x in np.asarray(r, dtype=object).reshape(-1):
                h.close(x, 1.0, "at zero frequency", rtol=1e-9, atol=1e-9)
    return case


MID = dict(lam=4e-6, D=0.3, r0=0.1, alpha=0.5, eta=0.4, f=1.5, dz=1e-5, td=0.01, vel=20.0, ph=4.0, eff=0.9999, cut=4e5, w=0.1, pv=0.2, Lx=0.1, Ly=0.25, wx=1e-5, wy=2e-5,
           ax=1e-5, ay=2e-5, sx=1e-6, sy=3e-6, bx=1e-6, by=2e-6, px=1e-5, py=2e-5, nx=100.0, ny=250.0, al0=1e-5, ald=2e-5)


def symmetric(fname, specs, dom, free):
    """even in each frequency; swapping the axes with their parameters swaps the result; shape kept"""
    def case(h):
        fx = dict(MID, alpha=5e4 if fname == "diffusion_OTF" else 0.5)
        p = [h.real(n, lo, hi) if free else fx[n] for n, lo, hi, _ in specs]
        u, v = h.real("u", 1e-3, U), h.real("v", 1e-3, U)
        if dom:
            dom(h, u, v, p)
        f = getattr(h.pb.otf, fname)
        r = f(h.arr([u, -u, u, -u]), h.arr([v, v, -v, -v]), *p)
        h.true(np.shape(r) == (4,), "shape")
        for k in (1, 2, 3):
            h.close(r[k], r[0], "even %d" % k, atol=1e-12)
        names = [s[0] for s in specs]
        q = [p[names.index(s[3])] if s[3] else p[i] for i, s in enumerate(specs)]
        h.close(f(h.arr([v]), h.arr([u]), *q)[0], r[0], "axes swapped", atol=1e-12)
        one = f(h.arr([[u], [u]]), h.arr([[v], [v]]), *p)
        h.true(np.shape(one) == (2, 1), "shape of a column")
        h.close(one[1, 0], r[0], "column", atol=1e-12)
    return case


def bounded(fname, specs, dom):
    """magnitude at most one"""
    def case(h):
        p = params(h, specs)
        u, v = h.real("u", -U, U), h.real("v", -U, U)
        if dom:
            dom(h, u, v, p)
        r = getattr(h.pb.otf, fname)(h.arr([u]), h.arr([v]), *p)[0]
        h.le(r, 1.0, "at most 1", tol=1e-9)
        h.le(-1.0, r, "at least -1", tol=1e-9)
        ax = getattr(h.pb.otf, fname)(h.arr([u, 0.0]), h.arr([0.0, v]), *p)
        for x in ax:
            h.le(x, 1.0, "at most 1 on an axis", tol=1e-9)
            h.le(-1.0, x, "at least -1 on an axis", tol=1e-9)
    return case


def aperture(h):
    """unobscured, between 0 and 1 everywhere and zero beyond the cutoff"""
    lam, D = h.real("lam", 3e-7, 1.4e-5), h.real("D", 0.005, 5.0)
    u, v = h.real("u", 1.0, U), h.real("v", 1.0, U)
    r = h.pb.otf.circular_aperture_OTF(h.arr([u]), h.arr([v]), lam, D, 0.0)[0]
    h.le(0.0, r, "not negative", tol=1e-9)
    h.le(r, 1.0, "at most 1", tol=1e-9)
    if lam * lam * (u * u + v * v) > D * D * (1.0 + 1e-6):
        h.close(r, 0.0, "beyond the cutoff", atol=1e-12)


def wind(h):
    """the mixture lies in 0..1 and not below the long exposure"""
    lam, D, r0 = h.real("lam", 3e-7, 1.4e-5), h.real("D", 0.005, 5.0), h.real("r0", 1e-3, 100.0)
    u, v = h.real("u", 1.0, U), h.real("v", 1.0, U)
    h.assume(lam * lam * (u * u + v * v), "<=", D * D)
    a, b = h.arr([u]), h.arr([v])
    r = h.pb.otf.wind_speed_turbulence_OTF(a, b, lam, D, r0, h.real("td", 0.0, 10.0), h.real("vel", 0.0, 500.0))[0]
    l = h.pb.otf.turbulence_OTF(a, b, lam, D, r0, 0.0)[0]
    h.le(l, r, "not below long exposure", tol=1e-9)


def agg(n):
    """aggregated detectors"""
    def case(h):
        p = [h.real(k, 1e-7, 1e-3) for k in ("wx", "wy", "px", "py")] + [h.real("f", 0.01, 20.0), n]
        f = h.pb.otf.detector_OTF_with_aggregation
        h.close(f(h.arr([0.0]), h.arr([0.0]), *p)[0], 1.0, "at zero frequency")
        u, v = h.real("u", 1e-3, U), h.real("v", 1e-3, U)
        r = f(h.arr([u, -u, u, -u]), h.arr([v, v, -v, -v]), *p)
        for k in (1, 2, 3):
            h.close(r[k], r[0], "even %d" % k, atol=1e-12)
        h.close(f(h.arr([v]), h.arr([u]), p[1], p[0], p[3], p[2], p[4], n)[0], r[0], "axes swapped", atol=1e-12)
        # |product of sinc and a mean of cosines|
        ax = f(h.arr([u]), h.arr([0.0]), *p)[0]
        h.le(ax, 1.0, "at most 1", tol=1e-9)
        h.le(-1.0, ax, "at least -1", tol=1e-9)
    return case


def tdi(n, ph):
    """time delay integration: 1 at zero, conjugate symmetric, parts at most 1 for two stages or fewer"""
    def case(h):
        w, beta, f = h.real("w", 1e-7, 1e-3), h.real("beta", 0.5, 2.0), h.real("f", 0.01, 20.0)
        u = h.real("u", 1e-3, U)
        r = h.pb.otf.tdi_OTF(h.arr([0.0, u, -u]), w, n, ph, beta, f)
        h.true(np.shape(r) == (3,), "shape")
        h.close(r[0].real, 1.0, "real part at zero")
        h.close(r[0].imag, 0.0, "imaginary part at zero", atol=1e-12)
        h.close(r[2].real, r[1].real, "even real part", atol=1e-9)
        h.close(r[2].imag, -r[1].imag, "odd imaginary part", atol=1e-9)
        if n < 3:
            h.le(r[1].real, 1.0, "at most 1", tol=1e-9)
            h.le(-1.0, r[1].real, "at least -1", tol=1e-9)
            h.le(r[1].imag, 1.0, "imaginary part at most 1", tol=1e-9)
    return case


def poly(nw):
    """polychromatic turbulence: one at zero frequency, even, symmetric in the axes"""
    def case(h):
        wl = h.arr([4e-6, 4.6e-6, 3.5e-6][:nw])
        wt = h.vec("wt", nw, 0.1, 5.0)
        u, v = h.real("u", 1e-3, 2e4), h.real("v", 1e-3, 2e4)
        a = (wl, wt, 3000.0, 5000.0, 0.4, h.real("wind", 0.0, 60.0), 1.7e-14, 0.01, 50.0)
        r, r0 = h.pb.otf.polychromatic_turbulence_OTF(h.arr([0.0, u, -u, u, v]), h.arr([0.0, v, v, -v, u]), *a)
        h.true(np.shape(r) == (5,), "shape")
        h.close(r[0], 1.0, "at zero frequency")
        for k in (2, 3, 4):
            h.close(r[k], r[1], "even and symmetric %d" % k, atol=1e-12)
    return case


def system(h):
    """the whole system's OTF is one at zero frequency and even without a filter kernel"""
    D, eta = h.real("D", 0.05, 1.0), h.real("eta", 0.0, 0.8)
    s = h.pb.Sensor("s", D, 2.0, 1e-5, h.arr([4e-7, 9e-7]), eta, w_x=h.real("w_x", 1e-6, 1e-4), w_y=h.real("w_y", 1e-6, 1e-4), s_x=1e-6, s_y=2e-6, da_x=1e-4, da_y=3e-4,
                    pv=0.3, int_time=0.01)
    sc = h.pb.Scenario("x", 1, 2000.0, 1000.0, cn2_at_1m=0.0)
    z = h.arr([[0.0, 0.0]])
    o = h.pb.otf.common_OTFs(s, sc, z, z, h.arr([4.5e-7, 6e-7]), h.vec("wt", 2, 0.1, 1.0), 2300.0, 0.01)
    for k in ("system_OTF", "ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF"):
        x = getattr(o, k)
        h.true(np.shape(x) == (1, 2), k + " shape")
        for i in (0, 1):
            h.close(x[0, i], 1.0, k + " at zero frequency", rtol=1e-9)


CASES = [dict(name="dc-" + f.replace("_OTF", ""), fn=dc(f, s), bounds="every parameter value") for f, s, d in FAMILIES]
CASES += [dict(name="symmetric-" + f.replace("_OTF", ""), fn=symmetric(f, s, d, f not in ("circular_aperture_OTF_with_defocus",)), bounds="every frequency up to 2e5 and parameter value", max_paths=400)
          for f, s, d in FAMILIES]
CASES += [dict(name="bounded-" + f.replace("_OTF", ""), fn=bounded(f, s, d), bounds="every frequency up to 2e5 and parameter value") for f, s, d in FAMILIES if f not in NB]
CASES += [dict(name="aperture", fn=aperture, bounds="unobscured, every frequency up to 2e5")]
CASES += [dict(name="wind", fn=wind, bounds="every frequency below the cutoff")]
CASES += [dict(name="aggregation-%d" % n, fn=agg(n), bounds="n=%d" % n) for n in (1, 2, 4)]
CASES += [dict(name="tdi-%d-%d" % k, fn=tdi(*k), bounds="n_tdi=%d, phases=%d" % k) for k in ((1, 1), (2, 2), (3, 4))]
CASES += [dict(name="polychromatic-%d" % n, fn=poly(n), bounds="%d wavelengths" % n) for n in (1, 3)]
CASES += [dict(name="system", fn=system, bounds="zero frequency, every aperture, detector width and weight")]
OUTSIDE = "The magnitude bound of obscured and defocused apertures, polychromatic turbulence and three or more stages of time delay integration (their values are decided by C02, C03, C04 and C05 against the formulas); short-exposure turbulence and the second wavefront form beyond the cutoff, where the formulas themselves exceed 1."
