"""Photoelectron count as a function of target reflectance."""
import numpy as np

from . import sensors, spec, stale
from .c15 import want

m = spec.m
TAB = (0.4e-6, 0.55e-6, 0.9e-6)
FIX = dict(sensors.FIXED, w_x=1.1e-5, w_y=1.4e-5, int_time=0.07, n_tdi=3.0, dark=1.7e4, max_n=9e4, bit_depth=11.0, t_cf=0.83, s_x=0.0, s_y=0.0,
           da_x=0.0, da_y=0.0, pv=0.0, pv_wavelength=6e-7, p_x=1.5e-5, p_y=1.6e-5, read_noise=10.0, max_well_fill=0.6)
TO, QE = (0.9, 0.8, 0.7), (0.5, 0.6, 0.4)


def make(h, free, tab=TAB, qe_tab=None):
    s = sensors.sensor(h, tab, fixed={k: v for k, v in FIX.items() if k not in free})
    n = len(tab)
    s.optics_transmission, s.qe = h.arr(list(TO[:n])), h.arr(list(QE[:n]))
    if qe_tab is not None:
        s.qe_wavelengths, s.qe = h.arr(list(qe_tab)), h.arr([0.5, 0.6, 0.4, 0.7][:len(qe_tab)])
    return s


def table(h, lams, free=(), tag=""):
    """an atmosphere: the named columns arbitrary, the others fixed"""
    base = {1: 0.7, 2: 0.4e6, 3: 1.0, 4: 2.1e6, 5: 1.3e6}
    hi = {1: 1.0, 2: 1e7, 3: 1e7, 4: 1e8, 5: 1e8}
    rows = []
    for i, x in enumerate(lams):
        rows.append([x] + [h.real("c%d_%d%s" % (c, i, tag), 0.0, hi[c]) if c in free else base[c] * (1 + 0.1 * i) for c in range(1, 6)])
    return h.arr(rows)


def expect(s, atm, T, int_time):
    """(reflectances, electrons, wavelengths, normalised spectral weights)"""
    ow = list(s["opt_trans_wavelengths"])
    rows = [i for i in range(len(atm)) if atm[i, 0] >= ow[0] and atm[i, 0] <= ow[-1]]
    lams = [atm[i, 0] for i in rows]
    dark = sensors.chain(s, lams, [want(atm, i, 0.0, T) for i in rows])
    full = sensors.chain(s, lams, [want(atm, i, 1.0, T) for i in rows])
    a, b = [x["rate"] * int_time * s["n_tdi"] for x in (dark, full)]
    ref = [k / 99.0 for k in range(100)]
    top = m.max(a, b)
    k = s["max_n"] / top if top > s["max_n"] else 1.0
    pe = [k * (a + (b - a) * r) for r in ref]
    w = full["dN"]
    wm = w[0]
    for x in w[1:]:
        wm = m.max(wm, x)
    return ref, pe, lams, [x / wm for x in w]


PICK = (0, 1, 2, 17, 49, 50, 77, 98, 99)


def judge(h, r, e, s, pick=PICK):
    ref, pe, sw = r
    h.true(np.shape(ref) == np.shape(pe) == (100,), "length of the curve")
    h.true(np.shape(sw) == (2, len(e[2])), "shape of the spectral weights")
    for i in pick:
        h.close(ref[i], e[0][i], "reflectance[%d]" % i, atol=1e-12)
        h.close(pe[i], e[1][i], "electrons[%d]" % i, rtol=1e-8, atol=1e-6)
    for i in range(len(e[2])):
        h.close(sw[0, i], e[2][i], "wavelength[%d]" % i)
        h.close(sw[1, i], e[3][i], "spectral weight[%d]" % i, rtol=1e-8)


def curve(lams, free_cols, free=(), temp=None, tab=TAB, qe_tab=None):
    def case(h):
        s = make(h, free, tab, qe_tab)
        atm = table(h, lams, free_cols)
        t = h.real("exposure", 1e-7, 2.0)
        before, snap = sensors.snapshot(h, s), h.snap(atm)
        f = h.pb.rad.reflectance_to_photoelectrons
        r = f(atm, s, t) if temp is None else f(atm, s, t, temp)
        e = expect(vars(s), atm, 300.0 if temp is None else temp, t)
        judge(h, r, e, s)
        sensors.same_sensor(h, before, s, "sensor")
        h.unchanged(snap, (atm,), "atmosphere")
    return case


def any_temp(h):
    """thermal scene at any target temperature, mid-wave sensor"""
    tab = (3.4e-6, 4.6e-6)
    s = make(h, (), tab)
    atm = table(h, (3.5e-6, 4.5e-6))
    T = h.real("T", 200.0, 400.0)
    t = 1e-4
    r = h.pb.rad.reflectance_to_photoelectrons(atm, s, t, T)
    judge(h, r, expect(vars(s), atm, T, t), s)


def glowing(h):
    """a hot thermal scene: the darkest target fills the well first"""
    tab = (3.4e-6, 4.6e-6)
    s = make(h, ("max_n",), tab)
    atm = table(h, (3.5e-6, 4.5e-6))
    t = h.real("exposure", 1e-7, 2.0)
    for T in (700.0, 300.0):
        judge(h, h.pb.rad.reflectance_to_photoelectrons(atm, s, t, T), expect(vars(s), atm, T, t), s)


def monotone(h):
    """when the surface reflects more than it emits, more reflectance never means fewer electrons; nothing exceeds the well"""
    s = make(h, ("max_n",))
    atm = table(h, TAB[:2], (5,))
    t = h.real("exposure", 1e-7, 2.0)
    _, pe, _ = h.pb.rad.reflectance_to_photoelectrons(atm, s, t)
    for i in range(0, 99, 7):
        h.le(pe[i], pe[i + 1], "electrons rise at %d" % i, tol=1e-3)
    h.le(pe[99], s.max_n, "well capacity", tol=1e-2)
    h.le(0.0, pe[0], "no negative counts")


def again(h):
    """nothing is remembered between calls: same, other exposure, other temperature, same again"""
    s = make(h, ())
    atm = table(h, TAB[:2], (2,))
    f = h.pb.rad.reflectance_to_photoelectrons
    for k, (t, T) in enumerate(((0.01, 300.0), (1e-5, 300.0), (0.01, 500.0), (0.01, 300.0))):
        judge(h, f(atm, s, t, T), expect(vars(s), atm, T, t), s, pick=(0, 63, 99))


CASES = [
    dict(name="reflected", fn=curve(TAB[:2], (5,)), bounds="any reflected radiance and exposure, 2 wavelengths"),
    dict(name="path", fn=curve(TAB, (2, 4)), bounds="any path emission and scatter, 3 wavelengths"),
    dict(name="transmission", fn=curve(TAB[:2], (1,), temp=650.0), bounds="any transmission, hot target"),
    dict(name="trimmed", fn=curve((0.35e-6, 0.4e-6, 0.5e-6, 0.9e-6, 0.95e-6), (5,)), bounds="5 wavelengths, the outer two beyond the sensor"),
    dict(name="band-edges", fn=curve((TAB[0] - 3e-10, TAB[0], 0.5e-6, TAB[-1], TAB[-1] + 3e-10), (5,)), bounds="wavelengths 0.3 nm beyond the sensor at both ends"),
    dict(name="sensor", fn=curve(TAB[:2], (5,), free=("max_n", "n_tdi", "dark", "t_cf")), bounds="any capacity, stages, dark current, filter transmission"),
    dict(name="geometry", fn=curve(TAB[:2], (), free=("w_x", "w_y", "eta", "e_opt", "e_cf")), bounds="any pixel size, obscuration, emissivities"),
    dict(name="exposure", fn=curve(TAB[:2], (2, 4, 5), free=("int_time",)), bounds="the given exposure, not the sensor's"),
    dict(name="response-table", fn=curve((0.38e-6, 0.42e-6, 0.5e-6, 0.8e-6), (5,), qe_tab=(0.41e-6, 0.6e-6, 0.7e-6, 0.95e-6)), bounds="quantum efficiency on other wavelengths than the optics"),
    dict(name="response-narrower", fn=curve((0.41e-6, 0.5e-6, 0.6e-6, 0.8e-6, 0.88e-6), (5,), qe_tab=(0.45e-6, 0.55e-6, 0.7e-6)),
         bounds="no quantum efficiency near either end of the optics' band"),
    dict(name="response-wider", fn=curve((0.38e-6, 0.42e-6, 0.5e-6, 0.92e-6), (5,), qe_tab=(0.35e-6, 0.95e-6)), bounds="quantum efficiency tabulated beyond the optics"),
    dict(name="glowing", fn=glowing, bounds="mid-wave infrared, 700 K and 300 K targets, any exposure and capacity"),
    dict(name="any-temperature", fn=any_temp, bounds="mid-wave infrared, any target temperature 200-400 K"),
    dict(name="monotone", fn=monotone, bounds="any reflected radiance, exposure and capacity"),
    dict(name="again", fn=again, bounds="four calls, any path emission"),
]
CASES += stale.curve_cases()
OUTSIDE = "More than 5 wavelengths; the curve is compared at 9 of its 100 reflectances; spectra with no signal at all (weights are 0/0 there)."
