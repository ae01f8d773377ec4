"""Interpolated atmospheres.

The stored records are replaced by synthetic ones whose contents are A*p(key) + B*q(key) with arbitrary A and B per
column and fixed, unrelated p and q, so that a wrong record, weight or column cannot cancel."""
import math

import numpy as np

from . import atmdb, spec
from .c19 import which

m = spec.m
LAM = (3e-7, 5.5e-7, 1.4e-5)


def frac(x):
    return x - math.floor(x)


def content(h, A, B, key):
    alt, g, z = key
    p, q = frac(math.sin(alt * 0.731 + g * 0.0137 + z) * 43.7), frac(math.sin(alt * 0.317 + g * 0.0071 + 3 * z) * 91.3)
    return h.arr([[x] + [A[c] * (p + 0.1 * c) + B[c] * (q + 0.2 * i) for c in range(5)] for i, x in enumerate(LAM)])


class Store:
    def __init__(self, h):
        self.h, self.asked = h, []
        self.A, self.B = h.vec("A", 5, -0.5, 1.0), h.vec("B", 5, -0.5, 1.0)

        def load(altitude, ground_range, ihaze):
            k = (float(altitude), float(ground_range), int(ihaze))
            self.asked.append(k)
            if k not in atmdb.INDEX:
                raise IndexError("index 0 is out of bounds for axis 0 with size 0")
            return content(h, self.A, self.B, k)
        h.patch_everywhere(h.pb.utils.load_database_atmosphere_no_interp, load)

    def get(self, *key):
        try:
            return self.h.pb.utils.load_database_atmosphere(*key)
        except IndexError:
            return None


def bracket(x, nodes):
    """(lower node, upper node, weight of the upper), by comparisons; None outside"""
    if x < nodes[0] or x > nodes[-1]:
        return None
    for a in nodes:
        if x == a:
            return a, a, 0.0
    lo, hi = 0, len(nodes) - 1
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if x >= nodes[mid]:
            lo = mid
        else:
            hi = mid
    return nodes[lo], nodes[hi], (x - nodes[lo]) / (nodes[hi] - nodes[lo])


def expect(h, S, alt, g, z, alts, gs):
    a, r = bracket(alt, alts), bracket(g, gs)
    if a is None or r is None:
        return None
    if any((x, y, z) not in atmdb.INDEX for x in a[:2] for y in r[:2]):
        return None
    c = {(i, j): content(h, S.A, S.B, (a[i], r[j], z)) for i in (0, 1) for j in (0, 1)}
    return c, a[2], r[2]


def judge(h, S, t, e, label):
    if e is None:
        h.true(t is None, label, "a table came back for a point the database does not cover")
        return
    h.true(t is not None, label, "the point is covered by the database but was refused")
    c, x, y = e
    h.true(np.shape(t) == (len(LAM), 6), label + " shape", str(np.shape(t)))
    for i in range(len(LAM)):
        h.close(t[i, 0], LAM[i], label + " wavelength")
        for k in range(1, 6):
            w = (1 - y) * ((1 - x) * c[0, 0][i, k] + x * c[1, 0][i, k]) + y * ((1 - x) * c[0, 1][i, k] + x * c[1, 1][i, k])
            h.close(t[i, k], w, label + " column %d" % k, rtol=1e-8, atol=1e-9)
            if i == 0 and k == 1:
                v = [c[q][i, k] for q in c]
                h.le(m.min(m.min(v[0], v[1]), m.min(v[2], v[3])), t[i, k], label + " not below the neighbours", tol=1e-9)
                h.le(t[i, k], m.max(m.max(v[0], v[1]), m.max(v[2], v[3])), label + " not above the neighbours", tol=1e-9)


def some(nodes, lo, hi):
    """the nodes in reach of [lo, hi]"""
    a = [x for x in nodes if x < lo][-1:]
    b = [x for x in nodes if x > hi][:1]
    return a + [x for x in nodes if lo <= x <= hi] + b


def go(z, alo, ahi, glo, ghi):
    def case(h):
        S = Store(h)
        alt = h.real("alt", alo, ahi) if alo != ahi else alo
        g = h.real("range", glo, ghi) if glo != ghi else glo
        e = expect(h, S, alt, g, z, some(atmdb.ALTS, alo, ahi), some(atmdb.RANGES, glo, ghi))
        judge(h, S, S.get(alt, g, z), e, "interpolated")
    return case


def node(h):
    """exact on every kind of node, integer and floating-point keys alike"""
    S = Store(h)
    for k in ((2, 0, 1), (2.0, 5000.0, 2), (32.5, 100, 1), (75, 500, 2), (500.0, 1000, 1), (1000, 20000, 1), (3000, 22000.0, 2), (12000, 80000, 1), (14000, 85000, 2),
              (20000, 0.0, 1), (20000, 300000, 1), (20000.0, 300000.0, 2), (8000.0, 295000.0, 2)):
        t = S.get(*k)
        h.true(t is not None, "node %s" % (k,), "refused")
        w = content(h, S.A, S.B, (float(k[0]), float(k[1]), k[2]))
        for i in range(len(LAM)):
            h.close(t[i], w[i], "node %s" % (k,), atol=1e-12)


def line(h):
    """half way is the mean of both ends, in altitude and in ground range"""
    S = Store(h)
    a, b = h.real("a", 5000.0, 6000.0), h.real("b", 5000.0, 6000.0)
    f = h.pb.utils.load_database_atmosphere
    x, y, z = f(a, 1500.0, 1), f(b, 1500.0, 1), f((a + b) / 2, 1500.0, 1)
    for c in (1, 3, 5):
        h.close(2 * z[1, c], x[1, c] + y[1, c], "linear in altitude", atol=1e-8)


def line_range(h):
    S = Store(h)
    a, b = h.real("a", 20000.0, 22000.0), h.real("b", 20000.0, 22000.0)
    f = h.pb.utils.load_database_atmosphere
    x, y, z = f(5100.0, a, 2), f(5100.0, b, 2), f(5100.0, (a + b) / 2, 2)
    for c in (1, 3, 5):
        h.close(2 * z[1, c], x[1, c] + y[1, c], "linear in ground range", atol=1e-8)


def history(h):
    """lookups do not influence one another, nor does writing into a table handed out"""
    S = Store(h)
    alt, g = h.real("alt", 1000.0, 2000.0), h.real("range", 500.0, 1000.0)
    for i, z in enumerate((1, 2, 1, 1)):
        t = S.get(alt, g, z)
        judge(h, S, t, expect(h, S, alt, g, z, [1000.0, 2000.0], [500.0, 1000.0]), "lookup %d" % i)
        t[:, :] = -7.0
        S.get(30000.0, g, 1)


CASES = [
    dict(name="altitude-low", fn=go(1, 0.0, 700.0, 120.0, 120.0), bounds="any altitude 0-700 m"),
    dict(name="altitude-mid", fn=go(2, 600.0, 9500.0, 17500.0, 17500.0), bounds="any altitude 0.6-9.5 km"),
    dict(name="altitude-high", fn=go(1, 9000.0, 25000.0, 4000.0, 4000.0), bounds="any altitude 9-25 km"),
    dict(name="range-near", fn=go(1, 3300.0, 3300.0, -10.0, 6500.0), bounds="any ground range to 6.5 km"),
    dict(name="range-step", fn=go(2, 10500.0, 10500.0, 17500.0, 27000.0), bounds="any ground range 17.5-27 km, where the step changes"),
    dict(name="range-far", fn=go(2, 12500.0, 12500.0, 73000.0, 92000.0), bounds="any ground range 73-92 km, where the step changes"),
    dict(name="range-end", fn=go(1, 20000.0, 20000.0, 284000.0, 400000.0), bounds="any ground range 284-400 km"),
    dict(name="horizon", fn=go(1, 2500.0, 2500.0, 147000.0, 163000.0), bounds="any ground range at the 2 km horizon"),
    dict(name="horizon-low", fn=go(2, 2.0, 40.0, 4500.0, 6500.0), bounds="altitude and ground range around the 2 m horizon"),
    dict(name="cell-low", fn=go(2, 1.0, 40.0, 50.0, 150.0), bounds="altitude and ground range around the lowest node"),
    dict(name="cell-mid", fn=go(1, 4500.0, 5500.0, 2500.0, 3500.0), bounds="altitude and ground range around an inner node"),
    dict(name="cell-high", fn=go(2, 17000.0, 21000.0, 297000.0, 302000.0), bounds="altitude and ground range around the upper corner"),
    dict(name="cell-12km", fn=go(1, 11500.0, 13000.0, 19500.0, 21000.0), bounds="altitude and ground range where both steps change"),
    dict(name="nodes", fn=node, bounds="13 nodes, any contents"),
    dict(name="line-altitude", fn=line, bounds="any two altitudes of one cell"),
    dict(name="line-range", fn=line_range, bounds="any two ground ranges of one cell"),
    dict(name="history", fn=history, bounds="4 lookups with failures between"),
]
OUTSIDE = ("Altitude bands and ground range bands other than those listed (both arbitrary only within the four cells); record contents beyond three wavelengths.")
ASSUMPTIONS = ["the stored records are replaced at load_database_atmosphere_no_interp, which C19 checks"]
