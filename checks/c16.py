"""Signal-to-noise of a photon detector: every reported term, and the well-fill limit."""
import numpy as np

from . import sensors, spec, stale

m = spec.m
TAB = (0.4e-6, 0.55e-6, 0.9e-6)


def world(h, tab, lams, fixed=None, qe_tab=None):
    s = sensors.sensor(h, tab, fixed=sensors.FIXED if fixed is None else fixed)
    if qe_tab is not None:
        s.qe_wavelengths, s.qe = h.arr(list(qe_tab)), h.vec("qe_", len(qe_tab), 0.0, 1.0)
    n = len(lams)
    lam = h.arr(list(lams))
    return s, lam, h.vec("Lt", n, 0.0, 1e9), h.vec("Lb", n, 0.0, 1e9)


def fields(only, fixed=None):
    def case(tab, lams, qe_tab=None):
        def run(h):
            s, lam, Lt, Lb = world(h, tab, lams, fixed, qe_tab)
            before = sensors.snapshot(h, s)
            snap = h.snap(lam, Lt, Lb)
            r = h.pb.rad.photon_detector_SNR(s, lam, Lt, Lb)
            w = sensors.snr(vars(s), list(lams), list(Lt), list(Lb))
            for k in only:
                a = getattr(r, k)
                if isinstance(w[k], list):
                    h.true(np.shape(a) == (len(lams),), "shape of " + k)
                    for i in range(len(lams)):
                        h.close(a[i], w[k][i], "%s[%d]" % (k, i), rtol=1e-8)
                else:
                    h.close(a, w[k], k, rtol=1e-8, atol=1e-6 if k == "contrast_signal" else 0.0)
            sensors.same_sensor(h, before, s, "sensor")
            h.unchanged(snap, (lam, Lt, Lb), "inputs")
        return run
    return case


SPECTRA = ("opt_trans", "qe", "other_irradiance", "tgt_FPA_irradiance", "bkg_FPA_irradiance", "weights", "tgt_n_rate", "bkg_n_rate")
COUNTS = ("tgt_n", "bkg_n", "int_time", "well_fraction", "contrast_signal")
NOISE = ("signal_noise", "dark_current_noise", "quantization_noise", "self_emission_noise", "total_noise", "snr")


def temps(h):
    fx = {k: v for k, v in sensors.FIXED.items() if not k.startswith("T_")}
    fx.update(int_time=1e-8, dark=1e3, max_n=1e8, max_well_fill=0.9, n_tdi=1.0, w_x=1.5e-5, w_y=1.25e-5, bit_depth=11.0)
    s = sensors.sensor(h, TAB[:2], fixed=fx)
    s.optics_transmission, s.qe = h.arr([0.81, 0.77]), h.arr([0.55, 0.65])
    lam, Lt, Lb = h.arr(list(TAB[:2])), h.arr([2e7, 3e7]), h.arr([1e7, 5e6])
    r = h.pb.rad.photon_detector_SNR(s, lam, Lt, Lb)
    w = sensors.snr(vars(s), list(TAB[:2]), list(Lt), list(Lb))
    for k in SPECTRA + COUNTS + NOISE:
        for a, b in zip(np.atleast_1d(getattr(r, k)), w[k] if isinstance(w[k], list) else [w[k]]):
            h.close(a, b, k, rtol=1e-8, atol=1e-6 if k == "contrast_signal" else 0.0)


def limit(h):
    """the fullest well never exceeds the allowed fill, and exposure is only ever shortened"""
    s, lam, Lt, Lb = world(h, TAB, TAB[:2])
    r = h.pb.rad.photon_detector_SNR(s, lam, Lt, Lb)
    h.le(r.well_fraction, s.max_well_fill, "well fill limit", tol=1e-9)
    h.le(r.int_time, s.int_time, "exposure not lengthened", tol=1e-12)
    h.le(r.tgt_n, s.max_well_fill * s.max_n, "target electrons", tol=1e-3)
    h.le(r.bkg_n, s.max_well_fill * s.max_n, "background electrons", tol=1e-3)


def same_scene(h):
    """no contrast, no signal"""
    s, lam, Lt, Lb = world(h, TAB, TAB[:2])
    r = h.pb.rad.photon_detector_SNR(s, lam, Lt, Lt)
    h.close(r.snr, 0.0, "signal to noise of equal radiances", atol=1e-9)


def many(n):
    """any number of further noise terms"""
    def case(h):
        s = sensors.sensor(h, TAB[:2], fixed=dict(sensors.FIXED, int_time=1e-8, dark=1e3, max_n=1e8, max_well_fill=0.9, n_tdi=1.0, w_x=1.5e-5, w_y=1.25e-5, bit_depth=11.0, read_noise=4.0))
        s.optics_transmission, s.qe = h.arr([0.81, 0.77]), h.arr([0.55, 0.65])
        s.other_noise = h.vec("o", n, 0.0, 1e4) if n > 1 else h.arr([h.real("o0", 0.0, 1e4)])
        lam, Lt, Lb = h.arr(list(TAB[:2])), h.arr([2e7, 3e7]), h.arr([1e7, 5e6])
        r = h.pb.rad.photon_detector_SNR(s, lam, Lt, Lb)
        w = sensors.snr(vars(s), list(TAB[:2]), list(Lt), list(Lb))
        for k in ("total_noise", "snr"):
            h.close(getattr(r, k), w[k], k, rtol=1e-8)
    return case


def wellfill(h):
    n, c = h.real("n", 0.0, 1e12), h.real("cap", 1.0, 1e9)
    k = h.pb.rad.check_well_fill(n, c)
    h.close(k, c / n if n > c else 1.0, "scale factor")
    h.le(k * n, c, "fill", tol=1e-3)


CASES = [dict(name="%s-%s" % (nm, k), fn=fields(f)(tab, lams), bounds="%d table and %d scene wavelengths" % (len(tab), len(lams)))
         for nm, f in (("spectra", SPECTRA), ("counts", COUNTS), ("noise", NOISE))
         for k, tab, lams in (("same", TAB, TAB), ("inside", TAB, (0.45e-6, 0.5e-6)), ("beyond", TAB[:2], (0.35e-6, 0.4e-6, 0.5e-6, 0.6e-6)))]
CASES += [dict(name="%s-response" % nm, fn=fields(f)(TAB, (0.35e-6, 0.45e-6, 0.8e-6), (0.42e-6, 0.7e-6)), bounds="quantum efficiency on other wavelengths than the optics")
          for nm, f in (("spectra", SPECTRA), ("counts", COUNTS), ("noise", NOISE))]
TEMPS = {k: v for k, v in sensors.FIXED.items() if k.startswith("T_")}
OPTICS = {k: v for k, v in sensors.FIXED.items() if not k.startswith("T_")}
CASES += [dict(name="all-optics", fn=fields(SPECTRA + COUNTS + NOISE, TEMPS)(TAB[:2], TAB[:2]), bounds="2 wavelengths, symbolic optics, fixed temperatures"),
          dict(name="all-temps", fn=temps, bounds="2 wavelengths, symbolic temperatures, fixed optics, radiances and exposure below saturation")]
CASES += [dict(name="other-%d" % n, fn=many(n), bounds="%d further noise terms" % n) for n in (1, 3, 12)]
CASES += [dict(name="well-limit", fn=limit, bounds="2 wavelengths"), dict(name="no-contrast", fn=same_scene, bounds="2 wavelengths"),
          dict(name="check-well-fill", fn=wellfill, bounds="any count to 1e12")]
CASES += stale.snr_cases()
OUTSIDE = "more wavelengths than listed; temperatures below 20 K"
