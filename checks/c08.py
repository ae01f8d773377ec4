"""The system OTF and its components."""
import numpy as np

from . import sensors, spec, stale

m = spec.m
FIX = dict(sensors.FIXED, w_x=1.1e-5, w_y=1.4e-5, int_time=0.002, n_tdi=3.0, dark=1.7e4, max_n=9e4, bit_depth=11.0, t_cf=0.83, s_x=2e-6, s_y=3.1e-6,
           da_x=1.1e-4, da_y=2.3e-4, pv=0.05, pv_wavelength=6e-7, p_x=1.5e-5, p_y=1.6e-5, read_noise=10.0, max_well_fill=0.6)
PARTS = ("ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF")
UV = ((2.0e4, -3.5e4), (0.0, 4.0e4), (6.1e4, 0.0), (0.0, 0.0), (-5.0e4, 1.0e4), (9.0e5, 2.0e5))
KER = [[0.05, -0.11, -0.2], [0.13, 1.4, -0.12], [0.02, -0.19, 0.02]]
ROW = [[-0.2, 1.3, -0.1]]


def sensor(h, free, L=True):
    s = sensors.sensor(h, (0.4e-6, 0.9e-6), full=False, fixed={k: v for k, v in FIX.items() if k not in free})
    s.L_x = h.real("L_x", 0.01, 1.0) if "L_x" in free else 0.021
    s.L_y = h.real("L_y", 0.01, 1.0) if "L_y" in free else 0.034
    return s


def scenario(h, free, cn2=0.0):
    def r(n, lo, hi, d):
        return h.real(n, lo, hi) if n in free else d
    return h.pb.Scenario("scene", 1, r("altitude", 2.0, 1e5, 4000.0), r("ground_range", 0.0, 5e5, 3000.0), aircraft_speed=r("speed", 0.0, 9000.0, 70.0),
                         ha_wind_speed=r("wind", 0.0, 100.0, 21.0), cn2_at_1m=r("cn2", 1e-20, 1e-12, cn2))


def freqs(h, n, free):
    if free:
        return h.arr([h.real("u", 1.0, 1e5)]), h.arr([h.real("v", -1e5, -1.0)])
    a = [UV[i] for i in n]
    u, v = h.arr([x[0] for x in a]), h.arr([x[1] for x in a])
    if len(n) == 6:
        u, v = u.reshape(2, 3), v.reshape(2, 3)
    return u, v


def mean(w, vals):
    tot = num = 0.0
    for a, b in zip(w, vals):
        tot, num = tot + a, num + a * b
    return num / tot


def go(free=(), uv=(0, 1, 2, 3, 4, 5), any_uv=False, lams=(5.2e-7,), cn2=0.0, kernel=None, skip_ap=False, weights=False, range_=5000.0, alt=None):
    def case(h):
        s, sc = sensor(h, free), scenario(h, free, cn2)
        if alt is not None:
            sc.altitude = alt
        if kernel is not None:
            s.filter_kernel = np.array(kernel)
        uu, vv = freqs(h, uv, any_uv)
        it = h.real("it", 1e-6, 1.0) if "it" in free else 0.004     # the exposure handed over, not the sensor's
        R = h.real("slant", 1.0, 1e5) if "slant" in free else range_
        wl = h.arr(list(lams))
        wt = h.vec("wt", len(lams), 1e-3, 10.0) if weights else h.arr([1.0 + i for i in range(len(lams))])
        before, sb, snap = sensors.snapshot(h, s), dict(vars(sc)), h.snap(uu, vv, wl, wt)
        o = h.pb.otf.common_OTFs(s, sc, uu, vv, wl, wt, R, it)
        p = before
        F = h.pb.otf
        n = uu.size
        shp = np.shape(uu)
        fu, fv = np.asarray(uu).reshape(-1), np.asarray(vv).reshape(-1)
        got = {}
        for k in PARTS + ("system_OTF",):
            a = getattr(o, k)
            h.true(np.shape(a) == shp, "shape of " + k, "%s for %s" % (np.shape(a), shp))
            got[k] = np.asarray(a).reshape(-1)
        D, f, pv, pl = s.D, s.f, s.pv, s.pv_wavelength
        ap = [np.asarray(F.circular_aperture_OTF(uu, vv, x, D, s.eta)).reshape(-1) for x in lams]
        if sc.cn2_at_1m > 0.0:
            tb, r0 = F.polychromatic_turbulence_OTF(uu, vv, wl, wt, sc.altitude, R, D, sc.ha_wind_speed, sc.cn2_at_1m, it * s.n_tdi, sc.aircraft_speed)
            tb = np.asarray(tb).reshape(-1)
            h.close(np.asarray(o.r0_band).reshape(-1)[0], np.asarray(r0).reshape(-1)[0], "coherence diameter")
        else:
            tb = [1.0] * n
            h.close(np.asarray(o.r0_band).reshape(-1)[0], 1e6, "coherence diameter without turbulence")
        if s.filter_kernel.size > 1:
            fl = np.asarray(F.filter_OTF(uu, vv, np.array(kernel), s.p_x / f)).reshape(-1)
        else:
            fl = [1.0] * n
        for i in range(n):
            x, y = fu[i], fv[i]
            want = dict(ap_OTF=mean(wt, [a[i] for a in ap]), turb_OTF=tb[i], det_OTF=spec.detector(x, y, s.w_x, s.w_y, f), jit_OTF=spec.jitter(x, y, s.s_x, s.s_y),
                        drft_OTF=spec.drift(x, y, s.da_x * it * s.n_tdi, s.da_y * it * s.n_tdi),
                        wav_OTF=mean(wt, [spec.wavefront(x, y, q, pv * (pl / q) ** 2, s.L_x, s.L_y) for q in lams]), filter_OTF=fl[i])
            prod = 1.0
            for k in PARTS:
                h.close(got[k][i], want[k], "%s[%d]" % (k, i), atol=1e-9)
                prod = prod * got[k][i]
            h.close(got["system_OTF"][i], prod, "product[%d]" % i, atol=1e-9)
        sensors.same_sensor(h, before, s, "sensor")
        for k, v in sb.items():
            h.unchanged([v], [vars(sc)[k]], "scenario." + k)
        h.unchanged(snap, (uu, vv, wl, wt), "inputs")
    return case


def origin(h):
    """at zero frequency nothing is lost, whatever the parameters"""
    s, sc = sensor(h, ("s_x", "s_y", "da_x", "da_y", "pv", "w_x", "w_y", "int_time", "n_tdi")), scenario(h, ("cn2", "wind", "speed"))
    u = h.arr([0.0, 3.0e4])
    v = h.arr([0.0, 0.0])
    o = h.pb.otf.common_OTFs(s, sc, u, v, h.arr([5e-7, 6e-7]), h.vec("wt", 2, 1e-3, 10.0), 5000.0, h.real("it", 1e-6, 1.0))
    for k in PARTS + ("system_OTF",):
        h.close(getattr(o, k)[0], 1.0, k + " at zero frequency", rtol=1e-7)


CASES = [
    dict(name="detector", fn=go(("w_x", "w_y", "f")), bounds="any active area and focal length, 6 frequencies"),
    dict(name="detector-uv", fn=go(("w_x", "w_y"), any_uv=True, lams=(5.2e-7,)), bounds="any active area and frequency"),
    dict(name="jitter", fn=go(("s_x", "s_y")), bounds="any jitter"),
    dict(name="drift", fn=go(("da_x", "da_y", "it", "n_tdi"), uv=(0, 1, 2, 5)), bounds="any drift rate, exposure, number of stages"),
    dict(name="wavefront", fn=go(("pv", "pv_wavelength", "L_x", "L_y"), lams=(5e-7, 8e-7, 6e-7), weights=True), bounds="any wavefront error, correlation lengths and weights, 3 wavelengths"),
    dict(name="aperture", fn=go(("D",), uv=(0, 2, 3), lams=(5e-7, 8e-7), weights=True), bounds="any aperture diameter, 2 wavelengths"),
    dict(name="obscured", fn=go(("eta",), uv=(0, 5)), bounds="any obscuration"),
    dict(name="turbulence", fn=go(("cn2", "wind", "speed"), uv=(0, 2, 3), lams=(5e-7, 8e-7), weights=True), bounds="any turbulence, wind and aircraft speed"),
    dict(name="turbulence-time", fn=go(("it", "n_tdi", "speed"), uv=(0, 1), cn2=1.7e-14), bounds="any exposure, stages and aircraft speed"),
    dict(name="turbulence-path", fn=go(("D", "speed"), uv=(0,), cn2=1.7e-14, range_=4300.0), bounds="any aperture and aircraft speed, fixed path"),
    dict(name="turbulence-low", fn=go(("cn2",), uv=(0, 1), range_=600.0, alt=20.0), bounds="any turbulence, sensor 20 m above the ground"),
    dict(name="turbulence-high", fn=go(("cn2", "speed"), uv=(0, 1), range_=9e4, alt=7.5e4), bounds="any turbulence and aircraft speed, sensor 75 km above the ground"),
    dict(name="ground-range", fn=go(("ground_range", "int_time", "p_y"), uv=(0, 1), cn2=1.7e-14), bounds="the slant range and exposure handed over are used, not the scenario's and sensor's"),
    dict(name="kernel", fn=go(("w_x", "s_y", "p_y", "da_x"), kernel=KER), bounds="3x3 filter without symmetry"),
    dict(name="row-kernel", fn=go(("w_x", "p_y"), kernel=ROW), bounds="single-row filter"),
    dict(name="column-kernel", fn=go(("w_x", "p_y"), kernel=[[x] for x in ROW[0]]), bounds="single-column filter"),
    dict(name="one-weight-kernel", fn=go(("w_x", "p_y"), kernel=[[0.0, 0.0, 0.0], [0.0, 0.5, 0.0], [0.0, 0.0, 0.0]]), bounds="a filter that only scales"),
    dict(name="mean-kernel", fn=go(("w_x", "p_y"), kernel=[[0.25, 0.25], [0.25, 0.25]]), bounds="2x2 mean"),
    dict(name="unit-kernel", fn=go(("w_x", "s_x"), kernel=[[1.0]]), bounds="1x1 filter"),
    dict(name="everything", fn=go(("w_x", "w_y", "f", "s_x", "s_y", "da_x", "da_y", "it", "n_tdi", "pv", "pv_wavelength", "L_x", "L_y", "cn2", "wind", "speed"),
                                  uv=(0,), lams=(5e-7, 8e-7), weights=True), bounds="one frequency, two wavelengths, all but the aperture arbitrary"),
    dict(name="origin", fn=origin, bounds="zero frequency, any parameters"),
]
CASES += stale.otf_cases()
OUTSIDE = ("Filter kernels with arbitrary values (C06); the aperture and turbulence components are compared with the package's own component functions called with the "
           "documented arguments, whose closed forms are C02 and C05.")
