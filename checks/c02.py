"""Diffraction OTF of a clear / annular aperture."""
from .common import grid, pointwise
from . import spec
from .c32 import purity


def par(h, tag="", eta=None):
    lam = h.real("lam" + tag, 3e-7, 1.4e-5)
    D = h.real("D" + tag, 0.005, 5.0)
    e = h.real("eta" + tag, 0.02, 0.9) if eta is None else eta
    return lam, D, e


def clear(kind, second=True):
    def case(h):
        u, v = grid(h, kind)
        p2 = par(h, "_b", 0.0) if second else None
        pointwise(h, h.pb.otf.circular_aperture_OTF, spec.aperture, u, v, par(h, "", 0.0), p2, atol=1e-9)
    return case


def annular(kind):
    def case(h):
        u, v = grid(h, kind)
        pointwise(h, h.pb.otf.circular_aperture_OTF, spec.aperture, u, v, par(h), None, atol=1e-7)
    return case


def fixed(kind, lam, D, eta, p2=None):
    """arbitrary point inside a larger grid, fixed optics"""
    def case(h):
        u, v = grid(h, kind)
        pointwise(h, h.pb.otf.circular_aperture_OTF, spec.aperture, u, v, (lam, D, eta), p2, atol=1e-7)
    return case


def annular_seq(h):
    """annulus after clear after annulus: results depend only on the arguments"""
    k = h.real("k", 1.0, 2.0e5)
    u, v = h.arr([k]), h.arr([0.0])
    e = h.real("eta", 0.02, 0.9)
    pointwise(h, h.pb.otf.circular_aperture_OTF, spec.aperture, u, v, (4e-6, 0.3, 0.0), (4e-6, 0.3, e), atol=1e-7)


def boundary(which):
    """the edges of the regions of the piecewise formula, allowing for rounding there"""
    def case(h):
        lam, D, e = par(h)
        x = {"inner": (1 - e) / 2, "outer": (1 + e) / 2, "obsc": e, "cut": 1.0}[which]
        u = h.real("u", 0.0, 2.0e7)
        h.assume(u, "==", x * D / lam)
        if not h.sym:
            pass
        r = h.pb.otf.circular_aperture_OTF(h.arr([u]), h.arr([0.0]), lam, D, e)
        h.close(r[0], _edge(which, e), "edge", rtol=1e-6, atol=2e-5)
    return case


def _edge(which, e):
    x = {"inner": (1 - e) / 2, "outer": (1 + e) / 2, "obsc": e, "cut": 1.0}[which]
    return spec.aperture(x, 0.0, 1.0, 1.0, e)


def rounding_inner(h):
    """u is the float nearest the inner boundary: the function must be continuous there"""
    lam, D, e = par(h)
    u = (1.0 - e) * (D / lam) / 2.0
    r = h.pb.otf.circular_aperture_OTF(h.arr([u]), h.arr([0.0]), lam, D, e)
    h.close(r[0], _edge("inner", e), "inner", rtol=1e-6, atol=2e-5)


def rounding_outer(h):
    lam, D, e = par(h)
    u = (1.0 + e) * (D / lam) / 2.0
    r = h.pb.otf.circular_aperture_OTF(h.arr([u]), h.arr([0.0]), lam, D, e)
    h.close(r[0], _edge("outer", e), "outer", rtol=1e-6, atol=2e-5)


def rounding_cut(h):
    lam, D, e = par(h)
    u = D / lam
    r = h.pb.otf.circular_aperture_OTF(h.arr([u]), h.arr([0.0]), lam, D, e)
    h.close(r[0], 0.0, "cutoff", atol=2e-5)


def beyond(h):
    lam, D, e = par(h)
    k = h.real("k", 1.0, 50.0)
    ang = h.real("ang", 0.0, 6.2832)
    m = h.m
    u, v = k * D / lam * m.cos(ang), k * D / lam * m.sin(ang)
    h.assume(k, ">", 1.000001)
    for eta in (0.0, e):
        r = h.pb.otf.circular_aperture_OTF(h.arr([u]), h.arr([v]), lam, D, eta)
        h.close(r[0], 0.0, "beyond cutoff", atol=1e-12)


B = "lambda in [0.3,14] um, D in [5 mm,5 m], |u|,|v| <= 2e5 cyc/rad"
CASES = [
    dict(name="clear-1", fn=clear("1"), bounds=B),
    dict(name="clear-axes", fn=clear("axes", False), bounds=B),
    dict(name="clear-2d", fn=fixed("2d", 4e-6, 0.275, 0.0), bounds="2x3 grid, one arbitrary entry, lambda=4um, D=0.275m"),
    dict(name="clear-big", fn=fixed("big", 4e-6, 0.275, 0.0), bounds="700-vector, one arbitrary entry, lambda=4um, D=0.275m"),
    dict(name="annular-1", fn=annular("1"), bounds=B + "; eta in [0.02,0.9]", weight=5),
    dict(name="annular-x", fn=annular("x"), bounds=B + "; eta in [0.02,0.9]; u axis and origin", weight=4),
    dict(name="annular-y", fn=annular("y"), bounds=B + "; eta in [0.02,0.9]; v axis and origin", weight=4),
    dict(name="annular-2d", fn=fixed("2d", 4e-6, 0.275, 0.4), bounds="2x3 grid, one arbitrary entry; eta=0.4", weight=4),
    dict(name="annular-big", fn=fixed("big2", 4e-6, 0.275, 0.4, (6e-6, 0.2, 0.0)), bounds="33x33 grid, one arbitrary entry; eta=0.4", weight=4),
    dict(name="annular-thin", fn=fixed("y", 4e-6, 0.275, 0.006), bounds="eta=0.006, the v axis, lambda=4um, D=0.275m"),
    dict(name="annular-thinner", fn=fixed("x", 4e-6, 0.275, 0.0007), bounds="eta=0.0007, the u axis, lambda=4um, D=0.275m"),
    dict(name="annular-seq", fn=annular_seq, bounds=B + "; eta in [0.02,0.9]"),
    dict(name="beyond-cutoff", fn=beyond, bounds="k in (1,50] times the cutoff, any direction"),
    dict(name="rounding-inner", fn=rounding_inner, fp_slack=4e-15, bounds="rho = (1-eta)/2 cutoff with rounding slack 4e-15"),
    dict(name="rounding-outer", fn=rounding_outer, fp_slack=4e-15, bounds="rho = (1+eta)/2 cutoff with rounding slack 4e-15"),
    dict(name="rounding-cutoff", fn=rounding_cut, fp_slack=4e-15, bounds="rho = cutoff with rounding slack 4e-15"),
]
CASES += purity("circular_aperture_OTF")
