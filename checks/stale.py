"""Nothing remembered from an earlier call may show up in a later one.

The same sensor, scenario and picture are used again and again; before each call exactly one thing about them has
changed since the call before.  What comes out has to be what a newly imported copy of the package computes for new
objects with those values."""
import math

import numpy as np

from . import sensors

FIX = dict(sensors.FIXED, w_x=1.1e-5, w_y=1.4e-5, int_time=0.002, n_tdi=3.0, dark=1.7e4, max_n=9e5, bit_depth=11.0, t_cf=0.83, s_x=2e-7, s_y=3.1e-7,
           da_x=1.1e-5, da_y=2.3e-5, pv=0.05, pv_wavelength=6e-7, p_x=1.5e-5, p_y=1.6e-5, read_noise=10.0, max_well_fill=0.6)
KER = [[0.0, -0.1, 0.0], [-0.15, 1.48, -0.15], [0.0, -0.1, 0.02]]
VIS, IR = (0.42e-6, 0.55e-6, 0.7e-6), (3.5e-6, 4.1e-6, 4.7e-6)
NUMBERS = ("D f p_x p_y eta w_x w_y int_time dark_current read_noise max_n max_well_fill bit_depth n_tdi cold_shield_temperature optics_temperature "
           "optics_emissivity cold_filter_transmission cold_filter_temperature cold_filter_emissivity s_x s_y da_x da_y pv pv_wavelength L_x L_y").split()
ARRAYS = "opt_trans_wavelengths optics_transmission qe_wavelengths qe other_noise filter_kernel".split()
SCENE = "altitude ground_range ihaze aircraft_speed ha_wind_speed cn2_at_1m target_reflectance background_reflectance target_temperature background_temperature".split()


NEAR = 1.0 + 1e-6      # a change too small for a rounded key to notice


def code(*xs):
    """one number that changes with any concrete number in xs"""
    t = 0.0
    for i, x in enumerate(xs):
        for j, y in enumerate(np.asarray(x, dtype=object).reshape(-1)):
            if isinstance(y, (int, float, np.number)):
                t += (i + 1.3) * (1.0 + 0.1 * (j % 17)) * math.log(abs(float(y)) + 1e-18)
    return 0.5 + 0.4 * math.sin(t)


def sensor_numbers(s):
    return [vars(s)[k] for k in sorted(vars(s)) if k != "read_noise" and (k in NUMBERS or k in ARRAYS)]     # the free one


def scene_numbers(s):
    return [getattr(s, k) for k in SCENE[:6]]


class Build:
    """one set of objects, on one copy of the package"""

    def __init__(self, h, pb, tab=VIS, free=(), interp=False):
        self.h, self.pb = h, pb
        keep, h.pb = h.pb, pb
        try:
            s = sensors.sensor(h, tab, full=False, fixed={k: v for k, v in FIX.items() if k not in free})
        finally:
            h.pb = keep
        s.opt_trans_wavelengths, s.qe_wavelengths = np.array(tab), np.array(tab)
        s.optics_transmission, s.qe = np.array([0.9, 0.8, 0.7]), np.array([0.5, 0.6, 0.4])
        s.other_noise, s.filter_kernel = np.array([2.0, 3.0]), np.array(KER)
        s.L_x, s.L_y, s.frame_stacks = 0.2, 0.3, 4
        self.s = s
        self.sc = pb.Scenario("scene", 2, 4000.0, 3000.0, aircraft_speed=70.0, target_temperature=291.0, background_temperature=287.0, target_reflectance=0.31,
                              background_reflectance=0.21, ha_wind_speed=21.0, cn2_at_1m=1.7e-14)
        self.x = {}
        self.tab = tab

    def table(self, altitude, ground_range, ihaze):
        k = 1.0 + 1e-5 * altitude + 3e-6 * ground_range + 0.05 * ihaze
        return np.array([[x, 0.5 + 0.1 / k, 0.4e6 * k, 1.0 * k, 2.1e6 * k, 1.3e6 * k] for x in (self.tab[0] * 0.9,) + tuple(self.tab) + (self.tab[-1] * 1.1,)])


def changes(b, scene=True):
    """(label, do, undo) for everything there is to change"""
    out = []

    def attribute(owner, k, new):
        def do(b):
            setattr(owner(b), k, new(getattr(owner(b), k)))
        return do
    S, C = (lambda b: b.s), (lambda b: b.sc)
    for k in NUMBERS:
        out.append(("sensor." + k, attribute(S, k, lambda v: v * 1.07), S, k))
        out.append(("sensor.%s, slightly" % k, attribute(S, k, lambda v: v * NEAR), S, k))
    out.append(("sensor.frame_stacks", attribute(S, "frame_stacks", lambda v: v + 5), S, "frame_stacks"))
    for k in ARRAYS:
        if np.size(vars(b.s)[k]) == 1:
            continue

        def inplace(b, k=k):
            a = vars(b.s)[k]
            if k.endswith("wavelengths"):
                a[1] *= 1.03
            else:
                a[(0,) * a.ndim] += 0.06
                if k == "filter_kernel":
                    a[(-1,) * a.ndim] -= 0.06
        out.append(("contents of sensor." + k, inplace, S, k))
    out.append(("sensor.filter_kernel of another shape", attribute(S, "filter_kernel", lambda v: np.array([[-0.2, 1.4, -0.2]])), S, "filter_kernel"))
    for q in ((1, 9), (9, 1)):
        if np.size(b.s.filter_kernel) == 9:
            out.append(("sensor.filter_kernel laid out %dx%d" % q, attribute(S, "filter_kernel", lambda v, q=q: v.reshape(q).copy()), S, "filter_kernel"))
    if scene:
        for k in SCENE:
            def put(b, k=k):
                v = getattr(b.sc, k)
                setattr(b.sc, k, v + 1 if k == "ihaze" else v * 1.1)
            out.append(("scenario." + k, put, C, k))
            if k != "ihaze":
                out.append(("scenario.%s, slightly" % k, attribute(C, k, lambda v: v * NEAR), C, k))
    return out


def run(build, call, prepare=None, scene=True, only=None, extra=()):
    """call(b) gives the named results for the objects of b"""
    def case(h):
        def copy():
            holder = {}

            def prep(ns):
                holder["b"] = build(h, ns)
                if prepare:
                    prepare(h, ns, holder["b"])
            h.fresh(prep)
            return holder["b"]
        b = build(h, h.pb)
        if prepare:
            prepare(h, h.pb, b)
        first = call(h, copy())
        for label, do, owner, k in changes(b, scene) + list(extra):
            if only and not only(label):
                continue
            same(h, call(h, b), first, "before " + label)
            o = owner(b)
            old = getattr(o, k)
            old = (old, old.copy()) if isinstance(old, np.ndarray) else (old, None)
            do(b)
            n = copy()
            do(n)
            same(h, call(h, b), call(h, n), label + " changed")
            if old[1] is not None:
                old[0][...] = old[1]
            setattr(o, k, old[0])
    return case


def same(h, a, b, label):
    h.true(set(a) == set(b), label + ": results", "different results")
    for k in a:
        x, y = np.asarray(a[k], dtype=object).reshape(-1), np.asarray(b[k], dtype=object).reshape(-1)
        h.true(np.shape(a[k]) == np.shape(b[k]), "%s: shape of %s" % (label, k), "%s against %s" % (np.shape(a[k]), np.shape(b[k])))
        for i in range(len(x)):
            if isinstance(x[i], (complex, np.complexfloating)):
                h.close(x[i].real, y[i].real, "%s: %s[%d]" % (label, k, i), rtol=1e-9, atol=1e-12)
            else:
                h.close(x[i], y[i], "%s: %s[%d]" % (label, k, i), rtol=1e-9, atol=1e-12)


# the pipelines ------------------------------------------------------------------

PARTS = ("ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF", "system_OTF")


def sharp_build(h, pb):
    b = otf_build(h, pb)
    b.s.filter_kernel = np.array(KER)
    return b


def otf_build(h, pb):
    b = Build(h, pb)
    b.s.filter_kernel = np.array([1.0])
    c = h.real("wt", 0.1, 10.0)
    b.x = dict(uu=np.array([2.0e4, 0.0, 6.1e4]), vv=np.array([-3.5e4, 4.0e4, 0.0]), wl=np.array([5e-7, 6.5e-7]), wt=h.arr([c, 1.0]))
    b.R, b.it = 5000.0, 0.004
    return b


def otf_call(h, b):
    x = b.x
    o = b.pb.otf.common_OTFs(b.s, b.sc, x["uu"], x["vv"], x["wl"], x["wt"], b.R, b.it)
    return {k: getattr(o, k) for k in PARTS}


def entry(k, i=0, d=1.1):
    def do(b):
        b.x[k][i] = b.x[k][i] * d
    return ("contents of " + k, do, lambda b: Ref(b.x), k)


class Ref:
    def __init__(self, d):
        object.__setattr__(self, "d", d)

    def __getattr__(self, k):
        return self.d[k]

    def __setattr__(self, k, v):
        self.d[k] = v


def number(k, d=1.1):
    def do(b):
        setattr(b, k, getattr(b, k) * d)
    return (k, do, lambda b: b, k)


def snr_build(h, pb):
    b = Build(h, pb, free=("read_noise",))
    b.x = dict(lam=np.array(VIS), Lt=np.array([2e7, 3e7, 4e7]), Lb=np.array([1e7, 5e6, 6e6]))
    return b


SNR = ("opt_trans", "qe", "other_irradiance", "tgt_n_rate", "bkg_n_rate", "tgt_FPA_irradiance", "bkg_FPA_irradiance", "weights", "tgt_n", "bkg_n", "int_time",
       "well_fraction", "contrast_signal", "signal_noise", "dark_current_noise", "quantization_noise", "self_emission_noise", "total_noise", "snr")


def snr_call(h, b):
    r = b.pb.rad.photon_detector_SNR(b.s, b.x["lam"], b.x["Lt"], b.x["Lb"])
    return {k: getattr(r, k) for k in SNR}


def curve_build(h, pb):
    b = Build(h, pb)
    b.s.max_n = h.real("max_n", 1e3, 2e3)
    b.x = dict(atm=b.table(4000.0, 3000.0, 2))
    b.it, b.T = 0.003, 310.0
    return b


def curve_call(h, b):
    r = b.pb.rad.reflectance_to_photoelectrons(b.x["atm"], b.s, b.it, b.T)
    return dict(ref=r[0][::9], pe=r[1][::9], sw=r[2])


def stub(h, ns, b):
    def load(altitude, ground_range, ihaze):
        return b.table(altitude, ground_range, ihaze)
    h.patch_everywhere(ns.utils.load_database_atmosphere, load)
    h.patch_everywhere(ns.utils.load_database_atmosphere_no_interp, lambda a, r, k: load(a, r * 1.01, k))
    g = np.linspace(-1, 1, 101)

    def common(sensor, scenario, uu, vv, mtf_wavelengths, mtf_weights, slant_range, int_time):
        c = code(*(sensor_numbers(sensor) + scene_numbers(scenario) + [uu[0, 0], vv[0, 0], mtf_wavelengths, slant_range, int_time]))
        o = ns.OTF()
        o.system_OTF = np.exp(-2.0 * c * np.abs(g[None, :] - 0.001) ** 1.5 - 1.4 * np.abs(g[:, None]) ** 1.2) * (1 + 0.05 * g[None, :])
        return o
    h.patch_everywhere(ns.otf.common_OTFs, common)


def niirs_build(tab):
    return lambda h, pb: Build(h, pb, tab=tab, free=("read_noise",))


def niirs_call(fn, keys):
    def call(h, b):
        r = getattr(b.pb.met, fn)(b.s, b.sc)
        out = {k: getattr(r, k) for k in keys}
        out["tgt_n"], out["path_noise"] = r.snr.tgt_n, r.snr.path_noise
        out["u"], out["otf"] = r.uu[:2, :2], r.otf.system_OTF[50, 48:53]
        return out
    return call


def sim_build(h, pb):
    b = Build(h, pb, free=("read_noise",))
    b.x = dict(img=np.array([[10.0, 250.0], [100.0, 60.0]]), pix=np.array([20.0, 200.0]), refl=np.array([0.05, 0.85]))
    b.gsd = 0.05
    return b


def sim_stub(h, ns, b):
    stub(h, ns, b)

    def common(sensor, scenario, uu, vv, mtf_wavelengths, mtf_weights, slant_range, int_time):
        o = ns.OTF()
        o.system_OTF = np.full((3, 3), code(*(sensor_numbers(sensor) + scene_numbers(scenario) + [uu[0, 0], vv[0, 0], mtf_wavelengths, mtf_weights, slant_range, int_time])))
        return o
    h.patch_everywhere(ns.otf.common_OTFs, common)
    h.patch_everywhere(ns.otf.apply_otf_to_image, lambda ref_img, ref_gsd, ref_range, otf, df, ifov:
                       (ref_img * (1.0 + code(otf, ref_gsd, ref_range, df, ifov)), np.full((2, 2), ifov)))


def sim_call(h, b):
    keep = np.random.poisson, np.random.normal
    np.random.poisson = lambda lam=1.0, size=None: lam * 3.0 + 5.0
    np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc - 7.0 * scale
    try:
        x = b.x
        r = b.pb.sim.simulate_image(b.pb.RefImage(x["img"], b.gsd, x["pix"], x["refl"]), b.s, b.sc)
    finally:
        np.random.poisson, np.random.normal = keep
    return dict(true=r[0], blur=r[1], noisy=r[2])


def case(name, fn, what):
    return [dict(name=name, fn=fn, bounds="one of %s changed between two calls with the same objects; the rest fixed" % what)]


def otf_cases():
    return case("one-thing-changed", run(otf_build, otf_call, extra=[entry("uu"), entry("vv"), entry("wl"), entry("wt", 1), number("R"), number("it")]),
                "every sensor and scenario attribute, frequencies, wavelengths, weights, range and exposure") + \
        case("one-thing-changed-filter", run(sharp_build, otf_call, scene=False, only=lambda k: "filter" in k or k in ("sensor.p_x", "sensor.f", "contents of uu"), extra=[entry("uu"), entry("vv")]),
             "the filter, pixel pitch, focal length and frequencies")


def snr_cases():
    return case("one-thing-changed", run(snr_build, snr_call, scene=False, extra=[entry("lam", 1, 1.02), entry("Lt"), entry("Lb", 0, 5.0)]), "every sensor attribute and the radiances")


def curve_cases():
    return case("one-thing-changed", run(curve_build, curve_call, scene=False, extra=[entry("atm", (2, 4)), number("it"), number("T")]),
                "every sensor attribute, the atmosphere, exposure and temperature")


def niirs_cases(fn, keys):
    return (case("one-thing-changed", run(niirs_build(VIS), niirs_call(fn, keys), stub), "every sensor and scenario attribute")
            + case("one-thing-changed-infrared", run(niirs_build(IR), niirs_call(fn, keys), stub), "every sensor and scenario attribute"))


def sim_cases():
    return case("one-thing-changed", run(sim_build, sim_call, sim_stub, extra=[entry("img", (0, 1)), entry("pix"), entry("refl"), number("gsd")]),
                "every sensor and scenario attribute, the picture and its calibration")
