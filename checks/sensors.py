"""Symbolic sensors, and a reference signal-to-noise model."""
import numpy as np

from . import spec

m = spec.m


FIXED = dict(T_cs=92.5, T_opt=271.0, T_cf=143.0, eta=0.37, D=0.26, f=3.1, e_opt=0.07, e_cf=0.93)


class _Some:
    """h.real, with the named parameters at fixed distinct values"""

    def __init__(self, h, fixed):
        self.h, self.fixed = h, fixed
        self.vec, self.arr, self.pb = h.vec, h.arr, h.pb

    def real(self, n, lo, hi, **k):
        return self.fixed[n] if n in self.fixed else self.h.real(n, lo, hi, **k)


def sensor(h, lams, full=True, name="S", fixed=()):
    """a Sensor with arbitrary parameters on a fixed wavelength table; those in fixed are constants"""
    n = len(lams)
    h = _Some(h, {k: v for k, v in (fixed if isinstance(fixed, dict) else {k: FIXED[k] for k in fixed}).items()})
    kw = dict(eta=h.real("eta", 0.0, 0.9), p_y=h.real("p_y", 1e-6, 1e-4), w_x=h.real("w_x", 1e-6, 1e-4), w_y=h.real("w_y", 1e-6, 1e-4),
              int_time=h.real("int_time", 1e-6, 100.0), dark_current=h.real("dark", 0.0, 1e9), read_noise=h.real("read_noise", 0.0, 1e4),
              max_n=h.real("max_n", 1e3, 1e9), max_well_fill=h.real("max_well_fill", 0.05, 1.0), bit_depth=h.real("bit_depth", 1.0, 24.0),
              n_tdi=h.real("n_tdi", 1.0, 128.0), cold_shield_temperature=h.real("T_cs", 20.0, 400.0), optics_temperature=h.real("T_opt", 20.0, 400.0),
              optics_emissivity=h.real("e_opt", 0.0, 1.0), cold_filter_transmission=h.real("t_cf", 0.0, 1.0),
              cold_filter_temperature=h.real("T_cf", 20.0, 400.0), cold_filter_emissivity=h.real("e_cf", 0.0, 1.0),
              s_x=h.real("s_x", 0.0, 1e-4), s_y=h.real("s_y", 0.0, 1e-4), da_x=h.real("da_x", 0.0, 1e-2), da_y=h.real("da_y", 0.0, 1e-2),
              pv=h.real("pv", 0.0, 10.0), pv_wavelength=h.real("pv_wavelength", 4e-7, 2e-6))
    s = h.pb.Sensor(name, h.real("D", 0.01, 2.0), h.real("f", 0.1, 10.0), h.real("p_x", 1e-6, 1e-4), h.arr(list(lams)), **kw)
    if full:
        s.optics_transmission = h.vec("t_o", n, 0.0, 1.0)
        s.qe = h.vec("qe", n, 0.0, 1.0)
        s.other_noise = h.arr([h.real("on0", 0.0, 1e3), h.real("on1", 0.0, 1e3)])
    return s


def snapshot(h, s):
    return {k: h.snap1(v) for k, v in vars(s).items()}


def same_sensor(h, before, s, label):
    now = vars(s)
    h.true(set(before) == set(now), label, "attributes changed: %s" % (set(before) ^ set(now)))
    for k in sorted(before):
        h.unchanged([before[k]], [now[k]], "%s.%s" % (label, k))


def stray(s, x):
    """self emission reaching the focal plane at wavelength x"""
    fac = spec.fnum_fac(s["D"], s["f"])
    return ((m.pi - fac) * spec.planck(x, s["cold_shield_temperature"])
            + s["cold_filter_transmission"] * s["optics_emissivity"] * spec.planck(x, s["optics_temperature"]) * fac
            + s["cold_filter_emissivity"] * spec.planck(x, s["cold_filter_temperature"]) * fac)


def chain(s, lams, L):
    """optical transmission, qe, irradiance, spectral rate and total rate for radiance L on lams"""
    fac = spec.fnum_fac(s["D"], s["f"])
    ow, ot, qw, q = (list(s[k]) for k in ("opt_trans_wavelengths", "optics_transmission", "qe_wavelengths", "qe"))
    tr = [s["cold_filter_transmission"] * (1 - s["eta"] * s["eta"]) * spec.interp0(ow, ot, x) for x in lams]
    qe = [spec.interp0(qw, q, x) for x in lams]
    oth = [stray(s, x) for x in lams]
    E = [a * b * fac + c for a, b, c in zip(tr, L, oth)]
    dN = [x / (spec.HC * spec.CC) * b * s["w_x"] * s["w_y"] * e for x, b, e in zip(lams, qe, E)]
    return dict(tr=tr, qe=qe, oth=oth, E=E, dN=dN, rate=spec.trapz(dN, lams) + s["dark_current"])


def quant(s):
    return s["max_n"] / (m.sqrt(12.0) * (m.pow(2.0, s["bit_depth"]) - 1))


def snr(s, lams, Lt, Lb):
    t, b = chain(s, lams, Lt), chain(s, lams, Lb)
    tn, bn = t["rate"] * s["int_time"] * s["n_tdi"], b["rate"] * s["int_time"] * s["n_tdi"]
    top = m.max(tn, bn)
    cap = s["max_well_fill"] * s["max_n"]
    k = cap / top if top > cap else 1.0
    o = dict(opt_trans=t["tr"], qe=t["qe"], other_irradiance=t["oth"], tgt_n_rate=t["rate"], bkg_n_rate=b["rate"], tgt_FPA_irradiance=t["E"],
             bkg_FPA_irradiance=b["E"], weights=t["dN"], int_time=k * s["int_time"])
    o["tgt_n"], o["bkg_n"] = k * tn, k * bn
    best = m.max(o["tgt_n"], o["bkg_n"])
    o["well_fraction"] = best / s["max_n"]
    o["contrast_signal"] = o["tgt_n"] - o["bkg_n"]
    o["signal_noise"] = m.sqrt(best)
    o["dark_current_noise"] = m.sqrt(s["n_tdi"] * s["dark_current"] * o["int_time"])
    o["quantization_noise"] = quant(s)
    stray_rate = spec.trapz([x / (spec.HC * spec.CC) * q * s["w_x"] * s["w_y"] * e for x, q, e in zip(lams, t["qe"], t["oth"])], lams)
    o["self_emission_noise"] = m.sqrt(stray_rate * o["int_time"] * s["n_tdi"])
    other = sum((x * x for x in s["other_noise"]), 0.0)
    o["total_noise"] = m.sqrt(best + quant(s) ** 2 + s["read_noise"] ** 2 + other)
    o["snr"] = o["contrast_signal"] / o["total_noise"]
    return o
