"""Construction of sensors and scenarios."""
import itertools

import numpy as np

OPT = dict(eta=(0.0, 0.0, 0.9), int_time=(1, 1e-9, 1e4), dark_current=(0, 0.0, 1e9), other_irradiance=(0.0, 0.0, 10.0), read_noise=(0, 0.0, 1e4),
           max_n=(1e8, 1.0, 1e12), max_well_fill=(1.0, 0.05, 1.0), bit_depth=(100.0, 1.0, 1000.0), n_tdi=(1.0, 1.0, 1e4),
           cold_shield_temperature=(70.0, 1.0, 400.0), optics_temperature=(270.0, 1.0, 400.0), optics_emissivity=(0.0, 0.0, 1.0),
           cold_filter_transmission=(1.0, 0.0, 1.0), cold_filter_temperature=(70.0, 1.0, 400.0), cold_filter_emissivity=(0.0, 0.0, 1.0),
           s_x=(0.0, 0.0, 1e-3), s_y=(0.0, 0.0, 1e-3), da_x=(0.0, -1.0, 1.0), da_y=(0.0, -1.0, 1.0), pv=(0.0, 0.0, 1e3), pv_wavelength=(6.33e-7, 1e-7, 1e-5))
ORDER = ["eta", "p_y", "w_x", "w_y", "int_time", "dark_current", "other_irradiance", "read_noise", "max_n", "max_well_fill", "bit_depth", "n_tdi",
         "cold_shield_temperature", "optics_temperature", "optics_emissivity", "cold_filter_transmission", "cold_filter_temperature",
         "cold_filter_emissivity", "s_x", "s_y", "da_x", "da_y", "pv", "pv_wavelength"]


def judge(h, s, D, f, p_x, lams, given, name):
    n = len(lams)
    h.true(s.name == name, "name")
    h.close(s.D, D, "D")
    h.close(s.f, f, "f")
    h.close(s.p_x, p_x, "p_x")
    p_y = given.get("p_y", p_x)
    w_x = given.get("w_x", p_x)
    h.close(s.p_y, p_y, "p_y")
    h.close(s.w_x, w_x, "w_x")
    h.close(s.w_y, given["w_y"] if "w_y" in given else w_x * p_y / p_x, "w_y")
    for k, (d, _, _) in OPT.items():
        h.close(getattr(s, k), given.get(k, d), k)
    for k in ("opt_trans_wavelengths", "qe_wavelengths"):
        h.true(np.shape(getattr(s, k)) == (n,), k + " shape")
        h.close(getattr(s, k), h.arr(lams), k, atol=1e-15)
    for k in ("optics_transmission", "qe"):
        h.true(np.shape(getattr(s, k)) == (n,), k + " shape")
        h.close(getattr(s, k), np.ones(n), k)
    h.close(s.L_x, D, "L_x")
    h.close(s.L_y, D, "L_y")
    h.close(s.other_noise, [0.0], "other noise", atol=1e-12)
    h.close(np.asarray(s.filter_kernel).reshape(-1), [1.0], "kernel")
    h.close(s.frame_stacks, 1.0, "frames")


def must(h):
    return h.real("D", 0.001, 10.0), h.real("f", 0.001, 100.0), h.real("p_x", 1e-7, 1e-2)


def geometry(h):
    """pitch and width given or omitted, in every combination"""
    D, f, p_x = must(h)
    vals = dict(p_y=h.real("p_y", 0.0, 1e-2), w_x=h.real("w_x", 0.0, 1e-2), w_y=h.real("w_y", 0.0, 1e-2))
    for r in range(4):
        for ks in itertools.combinations(sorted(vals), r):
            g = {k: vals[k] for k in ks}
            s = h.pb.Sensor("a", D, f, p_x, h.arr([4e-7, 9e-7]), **g)
            judge(h, s, D, f, p_x, [4e-7, 9e-7], g, "a")
            s = h.pb.Sensor("a", D, f, p_x, h.arr([4e-7, 9e-7]), 0.0, *[g.get(k) for k in ("p_y", "w_x", "w_y")])
            judge(h, s, D, f, p_x, [4e-7, 9e-7], g, "a")


def full(n):
    """everything given, by name and by position"""
    def case(h):
        D, f, p_x = must(h)
        g = {k: h.real(k, lo, hi) for k, (d, lo, hi) in OPT.items()}
        g.update(p_y=h.real("p_y", 0.0, 1e-2), w_x=h.real("w_x", 0.0, 1e-2), w_y=h.real("w_y", 0.0, 1e-2))
        lams = list(h.inc("l", n, 2e-7, 5e-6, 1e-9, 1e-6))
        a = h.arr(lams)
        snap = h.snap(a)
        judge(h, h.pb.Sensor("full", D, f, p_x, a, **g), D, f, p_x, lams, g, "full")
        h.unchanged(snap, (a,), "wavelengths")
        judge(h, h.pb.Sensor("full", D, f, p_x, a, *[g[k] for k in ORDER]), D, f, p_x, lams, g, "full")
        h.unchanged(snap, (a,), "wavelengths")
    return case


def single(h):
    """each optional parameter given alone, zero included"""
    D, f, p_x = must(h)
    for k, (d, lo, hi) in OPT.items():
        v = h.real(k, lo, hi)
        for x in (v, lo, hi):
            s = h.pb.Sensor("one", D, f, p_x, h.arr([4e-7, 5e-7, 9e-7]), **{k: x})
            judge(h, s, D, f, p_x, [4e-7, 5e-7, 9e-7], {k: x}, "one")


def apart(h):
    """changing one sensor, in place or by assignment, leaves others as they were"""
    D, f, p_x = must(h)
    v = h.real("v", 0.0, 1.0)
    mk = lambda n: h.pb.Sensor(n, D, f, p_x, h.arr([4e-7, 5e-7, 9e-7]))
    a, b = mk("a"), mk("b")
    for k in ("opt_trans_wavelengths", "qe_wavelengths", "optics_transmission", "qe", "other_noise", "filter_kernel"):
        x = getattr(a, k)
        x *= 0
        setattr(a, k, h.arr([v, v]))
    for k in OPT:
        setattr(a, k, v + 3.0)
    for k in ("D", "f", "p_x", "p_y", "w_x", "w_y", "L_x", "L_y"):
        setattr(a, k, v + 17.0)
    a.frame_stacks = 9
    judge(h, b, D, f, p_x, [4e-7, 5e-7, 9e-7], {}, "b")
    judge(h, mk("c"), D, f, p_x, [4e-7, 5e-7, 9e-7], {}, "c")


def within(h):
    """the tables of one sensor do not share storage with each other"""
    D, f, p_x = must(h)
    s = h.pb.Sensor("a", D, f, p_x, h.arr([4e-7, 5e-7, 9e-7]))
    s.qe *= h.real("v", 0.0, 1.0)
    h.close(s.optics_transmission, np.ones(3), "optics transmission after changing the quantum efficiency")
    h.close(s.qe_wavelengths, h.arr([4e-7, 5e-7, 9e-7]), "wavelengths after changing the quantum efficiency")


SC = dict(aircraft_speed=(0.0, 0.0, 400.0), target_reflectance=(0.15, 0.0, 1.0), target_temperature=(295.0, 200.0, 400.0), background_reflectance=(0.07, 0.0, 1.0),
          background_temperature=(293.0, 200.0, 400.0), ha_wind_speed=(21.0, 0.0, 100.0), cn2_at_1m=(1.7e-14, 0.0, 1e-12))


def order(h):
    """wavelength tables in the order given, whatever it is"""
    D, f, p_x = must(h)
    a = h.real("a", 2e-7, 5e-6)
    for lams in ([9e-7, 5e-7, 4e-7], [5e-7, a, 4e-7, 8e-7], [a, a]):
        arr = h.arr(lams)
        snap = h.snap(arr)
        judge(h, h.pb.Sensor("order", D, f, p_x, arr), D, f, p_x, lams, {}, "order")
        h.unchanged(snap, (arr,), "wavelengths")


def scenario(h):
    a, g = h.real("alt", 1.0, 1e7), h.real("range", 0.0, 1e6)

    def look(s, given):
        h.true(s.name == "sc" and s.ihaze == 2, "name and haze")
        h.close(s.altitude, a, "altitude")
        h.close(s.ground_range, g, "ground range")
        for k, (d, lo, hi) in SC.items():
            h.close(getattr(s, k), given.get(k, d), k)
    look(h.pb.Scenario("sc", 2, a, g), {})
    vals = {k: h.real(k, lo, hi) for k, (d, lo, hi) in SC.items()}
    look(h.pb.Scenario("sc", 2, a, g, **vals), vals)
    look(h.pb.Scenario("sc", 2, a, g, *[vals[k] for k in SC]), vals)
    for k, (d, lo, hi) in SC.items():
        for x in (vals[k], lo):
            look(h.pb.Scenario("sc", 2, a, g, **{k: x}), {k: x})
    p, q = h.pb.Scenario("sc", 2, a, g), h.pb.Scenario("sc", 2, a, g)
    for k in SC:
        setattr(p, k, 5.0)
    p.altitude, p.ground_range, p.ihaze, p.name = 3.0, 4.0, 1, "x"
    look(q, {})
    h.close(p.altitude, 3.0, "altitude set")
    h.close(p.ground_range, 4.0, "range set")
    h.true(p.ihaze == 1, "haze set")


CASES = [
    dict(name="geometry", fn=geometry, bounds="every combination of given and omitted pitch and width, arbitrary values"),
    dict(name="full-1", fn=full(1), bounds="every parameter given, one wavelength"),
    dict(name="full-4", fn=full(4), bounds="every parameter given, 4 arbitrary wavelengths"),
    dict(name="single", fn=single, bounds="each optional parameter alone, arbitrary and at both ends of its range"),
    dict(name="order", fn=order, bounds="wavelength tables in decreasing and in arbitrary order"),
    dict(name="apart", fn=apart, bounds="three sensors, one overwritten"),
    dict(name="within", fn=within, bounds="one sensor"),
    dict(name="scenario", fn=scenario, bounds="every scenario parameter, given or omitted"),
]
OUTSIDE = "Parameters outside the listed ranges; wavelength arrays shared by the caller between sensors."
