"""General image quality equations, versions 3, 4 and 5."""
from . import spec
from .c32 import purity

m = spec.m


def log10(x):
    return m.log10(x)


def inputs(h, tag=""):
    return (h.real("rer" + tag, 0.02, 1.5), h.real("gsd" + tag, 1e-3, 500.0), h.real("eho" + tag, 0.1, 3.0), h.real("ng" + tag, 0.1, 20.0),
            h.real("snr" + tag, 0.05, 1e4))


def elev(h):
    return h.real("elev", 0.01, 3.13)


def v3(rer, gsd, eho, ng, snr):
    return 11.81 + 3.32 * log10(rer * 0.0254 / gsd) - 1.48 * eho - ng / snr


def v4(rer, gsd, eho, ng, snr, e):
    g = gsd / m.sqrt(m.sin(e))
    a, b = (3.32, 1.559) if rer >= 0.9 else (3.16, 2.817)
    return 10.251 - a * log10(g / 0.0254) + b * log10(rer) - 0.656 * eho - 0.334 * ng / snr, g


def v5(r1, r2, gsd, snr, e):
    g = gsd / m.pow(m.sin(e), 0.25)
    r = m.pow(m.max(r1, r2) * m.min(r1, r2) * m.min(r1, r2), 1.0 / 3.0)
    return 9.57 - 3.32 * log10(g / 0.0254) + 3.32 * (1 - m.exp(-1.9 / snr)) * log10(r) - 2.0 * log10(r) ** 4 - 1.8 / snr, g, r


def giqe3(h):
    x = inputs(h)
    h.close(h.pb.met.giqe3(*x), v3(*x), "version 3", atol=1e-9)


def giqe4(h):
    x, e = inputs(h), elev(h)
    n, g = h.pb.met.giqe4(*x, e)
    wn, wg = v4(*x, e)
    h.close(n, wn, "version 4", atol=1e-9)
    h.close(g, wg, "ground-plane distance")


def giqe4_edge(h):
    """the coefficients switch at an edge response of exactly 0.9"""
    _, gsd, eho, ng, snr = inputs(h)
    e = elev(h)
    for r in (0.9, 0.9 - 1e-6, 0.9 + 1e-6, 0.05, 1.4):
        n, g = h.pb.met.giqe4(r, gsd, eho, ng, snr, e)
        h.close(n, v4(r, gsd, eho, ng, snr, e)[0], "version 4 at %g" % r, atol=1e-9)


def giqe5(h):
    r1, r2 = h.real("r1", 0.02, 1.5), h.real("r2", 0.02, 1.5)
    _, gsd, _, _, snr = inputs(h)
    e = elev(h)
    n, g, r = h.pb.met.giqe5(r1, r2, gsd, snr, e)
    wn, wg, wr = v5(r1, r2, gsd, snr, e)
    h.close(r, wr, "edge response")
    h.close(g, wg, "ground-plane distance")
    h.close(n, wn, "version 5", atol=1e-9)


def giqe5_swap(h):
    r1, r2 = h.real("r1", 0.02, 1.5), h.real("r2", 0.02, 1.5)
    _, gsd, _, _, snr = inputs(h)
    e = elev(h)
    a, b = h.pb.met.giqe5(r1, r2, gsd, snr, e), h.pb.met.giqe5(r2, r1, gsd, snr, e)
    for i in range(3):
        h.close(a[i], b[i], "exchanged directions[%d]" % i, atol=1e-9)


def better(h):
    """finer sampling or less noise never lowers the rating"""
    rer, gsd, eho, ng, snr = inputs(h)
    e = elev(h)
    k = h.real("k", 1.0, 10.0)
    M = h.pb.met
    h.le(M.giqe3(rer, gsd * k, eho, ng, snr), M.giqe3(rer, gsd, eho, ng, snr), "3: coarser sampling", tol=1e-9)
    h.le(M.giqe4(rer, gsd * k, eho, ng, snr, e)[0], M.giqe4(rer, gsd, eho, ng, snr, e)[0], "4: coarser sampling", tol=1e-9)
    h.le(M.giqe5(rer, rer, gsd * k, snr, e)[0], M.giqe5(rer, rer, gsd, snr, e)[0], "5: coarser sampling", tol=1e-9)
    h.le(M.giqe3(rer, gsd, eho, ng, snr), M.giqe3(rer, gsd, eho, ng, snr * k), "3: less noise", tol=1e-9)
    h.le(M.giqe4(rer, gsd, eho, ng, snr, e)[0], M.giqe4(rer, gsd, eho, ng, snr * k, e)[0], "4: less noise", tol=1e-9)


def negative(h):
    """a target darker than its background has a negative signal-to-noise ratio"""
    rer, gsd, eho, ng, _ = inputs(h)
    snr = h.real("neg", -1e4, -0.05)
    e = elev(h)
    h.close(h.pb.met.giqe3(rer, gsd, eho, ng, snr), v3(rer, gsd, eho, ng, snr), "version 3", atol=1e-9)
    h.close(h.pb.met.giqe4(rer, gsd, eho, ng, snr, e)[0], v4(rer, gsd, eho, ng, snr, e)[0], "version 4", atol=1e-9)
    r2 = h.real("r2", 0.02, 1.5)
    n, g, r = h.pb.met.giqe5(rer, r2, gsd, snr, e)
    wn, wg, wr = v5(rer, r2, gsd, snr, e)
    h.close(r, wr, "edge response")
    h.close(g, wg, "ground-plane distance")
    h.close(n, wn, "version 5", rtol=1e-9, atol=1e-9)


B = "edge response 0.02-1.5, sampling 1 mm-500 m, overshoot 0.1-3, gain 0.1-20, signal-to-noise 0.05-1e4, elevation 0.01-3.13 rad (also past the zenith)"
CASES = [dict(name=n, fn=f, bounds=B) for n, f in (("v3", giqe3), ("v4", giqe4), ("v4-edge", giqe4_edge), ("v5", giqe5), ("v5-swap", giqe5_swap),
                                                   ("better", better), ("negative", negative))]
CASES += purity("giqe3", "giqe4", "giqe5")
OUTSIDE = "non-positive edge response or sample distance; elevation below 0.01 or above 3.13 rad"
