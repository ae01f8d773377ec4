"""Slant-path geometry over a spherical Earth."""
import math

import numpy as np

from . import spec
from .c32 import purity

RE = 6378164.0
m = spec.m


def heights(h, ground=False):
    hs = h.real("h_s", 1.0, 6.0e5)
    ht = 0.0 if ground else h.real("h_t", 0.0, 2.0e4)
    if not ground:
        h.assume(ht, "<", hs)
    return ht, hs


def slant(h):
    """chord between target and sensor, law of cosines"""
    ht, hs = heights(h)
    g = h.real("g", 0.0, 5.0e5)
    r = h.pb.geo.curved_earth_slant_range(ht, hs, g)
    a, c = RE + hs, RE + ht
    # reference in the half-angle form; the check proves both forms equal
    s = m.sin(g / RE / 2)
    h.close(r * r, (hs - ht) * (hs - ht) + 4 * a * c * s * s, "slant range squared", rtol=1e-6, atol=1e-3)
    h.le(0.0, r, "slant range positive")


def slant_far(h):
    """far beyond the horizon the chord is still the chord"""
    ht, hs = heights(h)
    g = h.real("g", 5.0e5, 2.0e7)
    r = h.pb.geo.curved_earth_slant_range(ht, hs, g)
    a, c = RE + hs, RE + ht
    s = m.sin(g / RE / 2)
    h.close(r * r, (hs - ht) * (hs - ht) + 4 * a * c * s * s, "slant range squared", rtol=1e-6, atol=1e-3)
    h.le(0.0, r, "slant range positive")


def slant_zero(h):
    """nothing between sensor and target but altitude"""
    ht, hs = heights(h)
    r = h.pb.geo.curved_earth_slant_range(ht, hs, 0.0)
    h.close(r, hs - ht, "vertical slant range", rtol=1e-5, atol=1e-3)


def slant_symmetric(h):
    ht, hs = heights(h)
    g = h.real("g", 1.0, 5.0e5)
    f = h.pb.geo.curved_earth_slant_range
    h.close(f(ht, hs, g) ** 2, f(hs, ht, g) ** 2, "exchange of the ends", rtol=1e-6, atol=1e-3)


def cosnadir(hs, ht, R):
    a, c = RE + hs, RE + ht
    return (a * a + R * R - c * c) / (2 * a * R)


def path_geometry(h, ground=False):
    """a slant range that closes the triangle Earth centre - target - sensor, by construction"""
    ht, hs = heights(h, ground)
    R = h.real("R", 1.0, 1.0e6)
    a, c = RE + hs, RE + ht
    x = cosnadir(hs, ht, R)
    h.assume(x, "<=", 0.9999999)
    h.assume(x, ">=", -0.9999999)
    return ht, hs, R, x


def nadir(h):
    ht, hs, R, x = path_geometry(h)
    n = h.pb.geo.nadir_angle(ht, hs, R)
    h.close(n, m.acos(x), "nadir angle", rtol=1e-6, atol=1e-6)


def nadir_steep(h):
    """nearly straight down the angle is small and sensitive: compare its cosine"""
    ht, hs = heights(h)
    R = h.real("R", 1.0, 1.0e6)
    x = cosnadir(hs, ht, R)
    h.assume(x, "<=", 1.0)
    h.assume(x, ">=", 0.999999)
    n = h.pb.geo.nadir_angle(ht, hs, R)
    h.close(m.cos(n), x, "cosine of the nadir angle", rtol=0.0, atol=1e-9)


def nadir_vertical(h):
    ht, hs = heights(h)
    R = hs - ht
    h.assume(R, ">=", 1.0)
    n = h.pb.geo.nadir_angle(ht, hs, R)
    h.close(n, 0.0, "straight down", atol=2e-6)


def nadir_chain(h):
    """nadir angle of the library's own slant range: always a number in [0, pi]"""
    ht, hs = heights(h)
    h.assume(hs - ht, ">=", 1.0)
    R = h.pb.geo.curved_earth_slant_range(ht, hs, 0.0)
    n = h.pb.geo.nadir_angle(ht, hs, R)
    h.true(n == n, "defined", "nadir angle is not a number")
    h.close(n, 0.0, "straight down", atol=2e-6)
    z, p = h.pb.geo.altitude_along_slant_path(ht, hs, R)
    for k in marks(len(p)):
        h.true(p[k] == p[k], "path defined", "altitude is not a number")


def marks(n):
    return sorted({0, 1, n // 4, n // 2, (7 * n) // 8, n - 2, n - 1})


def path(ground):
    def case(h):
        ht, hs, R, x = path_geometry(h, ground)
        z, p = h.pb.geo.altitude_along_slant_path(ht, hs, R)
        n = len(z)
        h.true(len(p) == n, "lengths", "path of %d distances and %d altitudes" % (n, len(p)))
        a, c = RE + hs, RE + ht
        for k in marks(n):
            h.close(z[k], R * (k / (n - 1)), "distance[%s]" % k, rtol=1e-9, atol=1e-9)
            d = R * ((n - 1 - k) / (n - 1))        # distance from the sensor: the path starts at the target
            # radius squared, so that the comparison stays polynomial
            want = a * a + d * d - 2 * a * d * x
            h.close((p[k] + RE) * (p[k] + RE), want, "altitude[%s]" % k, rtol=1e-12, atol=1e-3 * 1e3)
        h.close((p[0] + RE) * (p[0] + RE), c * c, "starts at the target", rtol=1e-12, atol=1e3)
        h.close((p[n - 1] + RE) * (p[n - 1] + RE), a * a, "ends at the sensor", rtol=1e-12, atol=1e3)
    return case


def gsd(h):
    i, R = h.real("ifov", 1e-7, 1e-2), h.real("R", 1.0, 1e6)
    h.close(h.pb.geo.ground_sample_distance(i, R), i * R, "ground sample distance")


CASES = [
    dict(name="slant-range", fn=slant, bounds="target 0-20 km, sensor above it up to 600 km, ground range to 500 km"),
    dict(name="slant-far", fn=slant_far, bounds="as slant-range, ground range 500-20000 km, almost to the antipode"),
    dict(name="slant-vertical", fn=slant_zero, bounds="ground range 0"),
    dict(name="slant-exchange", fn=slant_symmetric, bounds="as slant-range"),
    dict(name="nadir-steep", fn=nadir_steep, bounds="within 1.4 mrad of the vertical"),
    dict(name="nadir", fn=nadir, bounds="slant range 1 m - 1000 km closing a triangle"),
    dict(name="nadir-vertical", fn=nadir_vertical, bounds="straight down"),
    dict(name="nadir-vertical-rounding", fn=nadir_chain, fp_slack=1e-9, bounds="straight down, comparisons may be decided either way within 1e-9"),
    dict(name="path-ground", fn=path(True), bounds="target on the ground; 9 of the 10000 path samples"),
    dict(name="path", fn=path(False), bounds="target above ground; 9 of the 10000 path samples"),
    dict(name="gsd", fn=gsd, bounds="any"),
]
CASES += purity("altitude_along_slant_path", "nadir_angle", "curved_earth_slant_range", "ground_sample_distance")
OUTSIDE = "slant ranges that do not close the triangle Earth centre, target, sensor"
