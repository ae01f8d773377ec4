"""Shared by C24 and C25: worlds in which the image quality pipelines run, and what they have to compute.

The atmosphere files are not in the tree, so the database loaders are replaced by ones that hand out a table (and
record the key they were asked for).  Where a case says so, the OTF computation or the edge terms are replaced in the
same way; everything else is the package's own code."""
import math

import numpy as np

from . import sensors, spec
from .c15 import want
from .c22 import v3, v4, v5
from .c23 import rer, overshoot

m = spec.m
VIS, IR = (0.42e-6, 0.55e-6, 0.7e-6), (3.5e-6, 4.1e-6, 4.7e-6)
FIX = dict(sensors.FIXED, w_x=1.1e-5, w_y=1.4e-5, int_time=0.002, n_tdi=3.0, dark=1.7e4, max_n=9e4, bit_depth=11.0, t_cf=0.83, s_x=2e-7, s_y=3.1e-7,
           da_x=1.1e-5, da_y=2.3e-5, pv=0.05, pv_wavelength=6e-7, p_x=1.5e-5, p_y=1.6e-5, read_noise=10.0, max_well_fill=0.6)
KER = [[0.0, -0.1, 0.0], [-0.15, 1.5, -0.15], [0.0, -0.1, 0.0]]


class World:
    def __init__(self, h, free=(), ir=False, cols=(), interp=False, kernel=KER, scene=(), qe=(0.5, 0.6, 0.4), extra=True, cn2=0.0, fix=None, tab=None, qe_tab=None, lams=None, dim=1.0):
        self.h = h
        tab = (IR if ir else VIS) if tab is None else tab
        fx = dict(FIX, **(fix or {}))
        if ir:
            fx.setdefault("int_time", 1e-4)
        s = sensors.sensor(h, tab, fixed={k: v for k, v in fx.items() if k not in free})
        s.optics_transmission, s.qe = h.arr([0.9, 0.8, 0.7]), h.arr(list(qe))
        if qe_tab is not None:
            s.qe_wavelengths = h.arr(list(qe_tab))
        s.other_noise = h.arr([2.0, h.real("on1", 0.0, 1e3) if "on1" in free else 1.0])
        s.L_x, s.L_y = (h.real("L_x", 0.05, 1.0), h.real("L_y", 0.05, 1.0)) if "L" in free else (0.2, 0.3)
        s.filter_kernel = np.array(kernel)
        s.frame_stacks = h.real("frames", 1.0, 64.0) if "frames" in free else 4
        self.s = s

        def r(n, lo, hi, d):
            return h.real(n, lo, hi) if n in scene else d
        self.sc = h.pb.Scenario("scene", 2, r("altitude", 500.0, 2e4, 4000.0), r("ground_range", 0.0, 3e4, 3000.0),
                                aircraft_speed=r("speed", 0.0, 9000.0, 70.0), target_temperature=291.0, background_temperature=287.0,
                                target_reflectance=0.31, background_reflectance=0.21, ha_wind_speed=r("wind", 0.0, 100.0, 21.0), cn2_at_1m=cn2)
        if lams is None:
            lams = ([tab[0] * 0.9] if extra else []) + list(tab) + ([tab[-1] * 1.1] if extra else [])
        base = {1: 0.7, 2: 0.4e6, 3: 1.0, 4: 2.1e6 * dim, 5: 1.3e6 * dim}
        rows = []
        for i, x in enumerate(lams):
            rows.append([x] + [h.real("c%d_%d" % (c, i), 1.0 if c == 5 else 0.0 if dim == 1.0 else 0.2, {1: 1.0}.get(c, 1e7)) if c in cols else base[c] * (1 + 0.1 * i)
                               for c in range(1, 6)])
        self.atm = h.arr(rows)
        self.rows = [i for i, x in enumerate(lams) if tab[0] <= x <= tab[-1]]
        self.keys = []
        self.interp = interp
        U = h.pb.utils

        def loader(tag):
            def load(altitude, ground_range, ihaze):
                self.keys.append((tag, altitude, ground_range, ihaze))
                return self.atm.copy()
            return load
        h.patch_everywhere(U.load_database_atmosphere, loader(True))
        h.patch_everywhere(U.load_database_atmosphere_no_interp, loader(False))
        self.otf_calls, self.edge_calls = [], []
        self.stub_otf = self.stub_edge = False
        self.ir = ir

    # substitutions --------------------------------------------------------
    def system(self, kind):
        """a 101x101 OTF without symmetry; kind 1 is what the first call gets, 2 the next"""
        g = np.linspace(-1, 1, 101)
        b = np.exp(-2.0 * kind * np.abs(g[None, :] - 0.001) ** 1.5 - 1.4 * np.abs(g[:, None]) ** 1.2) * (1 + 0.05 * g[None, :]) * (1 - 0.07 * g[:, None])
        b[50, 50] = 1.0
        return b

    def cut_otf(self):
        h = self.h
        self.stub_otf = True

        def common(sensor, scenario, uu, vv, mtf_wavelengths, mtf_weights, slant_range, int_time):
            self.otf_calls.append(dict(sensor=sensor, kernel=sensor.filter_kernel, vars=dict(vars(sensor)), scenario=scenario, uu=uu, vv=vv, wl=mtf_wavelengths,
                                       wt=mtf_weights, R=slant_range, it=int_time))
            o = h.pb.OTF()
            o.system_OTF = h.arr((self.system(1) * (-1.0 if self.flip else 1.0)).tolist())
            return o
        self.flip = False
        h.patch_everywhere(h.pb.otf.common_OTFs, common)

    def cut_edges(self, name):
        """replace giqe_edge_terms / giqe5_RER by arbitrary results"""
        h = self.h
        self.stub_edge = True
        x, y = h.real("edge_a", 0.05, 1.2), h.real("edge_b", 0.05, 1.5)
        self.edge_out = (x, y)

        def terms(mtf, df, ifov_x, ifov_y):
            self.edge_calls.append((mtf, df, ifov_x, ifov_y))
            return x, y
        h.patch_everywhere(getattr(h.pb.met, name), terms)

    # what has to come out ----------------------------------------------------
    def check_common(self, nm, sensor0):
        """everything up to and including the OTF; returns the expected signal-to-noise model"""
        h, s = self.h, sensor0
        sc = self.sc
        h.true(bool(self.keys), "the atmosphere is looked up")
        for k in self.keys:
            h.true(k[0] == self.interp, "interpolated or stored atmosphere", "got %s" % k[0])
            h.close(k[1], sc.altitude, "atmosphere altitude")
            h.close(k[2], sc.ground_range, "atmosphere ground range")
            h.true(k[3] == 2, "haze")
        R = h.pb.geo.curved_earth_slant_range(0.0, sc.altitude, sc.ground_range)
        h.close(nm.slant_range, R, "slant range")
        lams = [self.atm[i, 0] for i in self.rows]
        h.true(np.shape(nm.atm) == (len(lams), 6), "in-band rows", str(np.shape(nm.atm)))
        for i, k in enumerate(self.rows):
            for c in range(6):
                h.close(nm.atm[i, c], self.atm[k, c], "in-band atmosphere")
        rt, rb = (0.0, 0.0) if self.ir else (0.15, 0.07)
        T, B = [want(self.atm, k, rt, 282.0) for k in self.rows], [want(self.atm, k, rb, 280.0) for k in self.rows]
        h.close(nm.tgt_radiance, T, "target radiance")
        h.close(nm.bkg_radiance, B, "background radiance")
        h.close(nm.radiance_wavelengths, lams, "wavelengths")
        e = sensors.snr(s, lams, T, B)
        q = nm.snr
        for k in ("tgt_n", "bkg_n", "int_time", "well_fraction", "total_noise"):
            h.close(getattr(q, k), e[k], "snr." + k, rtol=1e-8)
        h.close(q.contrast_signal, e["contrast_signal"], "snr.contrast_signal", rtol=1e-8, atol=1e-6)
        h.close(q.snr * e["total_noise"], e["contrast_signal"], "snr.snr", rtol=1e-8, atol=1e-6)
        # noise budget of the scene and of the scattered path radiance
        fac = spec.fnum_fac(s["D"], s["f"])

        def electrons(L):
            dn = [x / (spec.HC * spec.CC) * b * s["w_x"] * s["w_y"] * t * v * fac for x, b, t, v in zip(lams, e["qe"], e["opt_trans"], L)]
            return spec.trapz(dn, lams) * e["int_time"] * s["n_tdi"]
        path = electrons([self.atm[k, 2] + self.atm[k, 4] for k in self.rows])
        h.close(q.path_noise * q.path_noise, path, "path noise squared", rtol=1e-7, atol=1e-9)
        both = m.max(electrons(T), electrons(B))
        h.close(q.scene_noise * q.scene_noise, both - path, "scene noise squared", rtol=1e-6, atol=1e-6)
        keep = [i for i in range(len(lams)) if e["qe"][i] > 0]
        h.close(nm.mtf_wavelengths, [lams[i] for i in keep], "OTF wavelengths")
        h.close(nm.mtf_weights, [e["weights"][i] for i in keep], "OTF weights", rtol=1e-8)
        fc = s["D"] / min(lams[i] for i in keep)
        h.close(nm.cutoff_frequency, fc, "cutoff frequency")
        h.true(np.shape(nm.uu) == np.shape(nm.vv) == (101, 101), "frequency grid size")
        for i, j in ((0, 0), (0, 100), (100, 0), (50, 50), (50, 51), (49, 50), (37, 81)):
            h.close(nm.uu[i, j], fc * (j - 50) / 50.0, "u grid", atol=1e-6)
            h.close(nm.vv[i, j], fc * (50 - i) / 50.0, "v grid", atol=1e-6)
        h.close(nm.df, fc / 50.0, "frequency step")
        ix, iy = s["p_x"] / s["f"], s["p_y"] / s["f"]
        h.close(nm.ifov_x, ix, "ifov x")
        h.close(nm.ifov_y, iy, "ifov y")
        h.close(nm.gsd_x, ix * R, "ground sample distance x")
        for c in self.otf_calls:
            h.close(c["R"], R, "range given to the OTF")
            h.close(c["it"], e["int_time"], "exposure given to the OTF", rtol=1e-8)
            h.close(c["wl"], [lams[i] for i in keep], "wavelengths given to the OTF")
            h.close(c["wt"], [e["weights"][i] for i in keep], "weights given to the OTF", rtol=1e-8)
            h.true(np.shape(c["uu"]) == np.shape(c["vv"]) == (101, 101), "grid given to the OTF")
            for i, j in ((0, 0), (50, 51), (49, 50), (37, 81)):
                h.close(c["uu"][i, j], fc * (j - 50) / 50.0, "u grid given to the OTF", atol=1e-6)
                h.close(c["vv"][i, j], fc * (50 - i) / 50.0, "v grid given to the OTF", atol=1e-6)
            for k, v in s.items():
                if k != "filter_kernel":
                    h.unchanged([h.snap1(v)], [c["vars"][k]], "sensor.%s given to the OTF" % k)
        return e, R, fc / 50.0, ix, iy

    def slices(self, a):
        return [abs(a[50, 50 + k]) for k in range(50)], [abs(a[50 - k, 50]) for k in range(50)]

    def elevation(self, R):
        return math.pi / 2 - self.h.pb.geo.nadir_angle(0.0, self.sc.altitude, R)


def before(h, w):
    return sensors.snapshot(h, w.s), dict(vars(w.s)), dict(vars(w.sc))


def untouched(h, w, b, label=""):
    sensors.same_sensor(h, b[0], w.s, "sensor" + label)
    now = vars(w.sc)
    book = dict(target_reflectance=0.0, background_reflectance=0.0, target_temperature=282.0, background_temperature=280.0) if w.ir else \
        dict(target_reflectance=0.15, background_reflectance=0.07)
    for k, v in b[2].items():
        if k == "_atm":
            continue
        if k in book:
            h.close(now[k], book[k], "bookkeeping of " + k)
        else:
            h.unchanged([v], [now[k]], "scenario." + k)


class Stop(Exception):
    pass


STAGES = [("rad", "giqe_radiance"), ("rad", "photon_detector_SNR"), ("rad", "signal_rate"), ("rad", "photon_detection_rate"), ("otf", "common_OTFs"),
          ("otf", "circular_aperture_OTF"), ("otf", "detector_OTF"), ("otf", "jitter_OTF"), ("otf", "drift_OTF"), ("otf", "wavefront_OTF"), ("otf", "weighted_by_wavelength"),
          ("otf", "slice_otf"), ("met", "giqe_edge_terms"), ("met", "giqe5_RER"), ("met", "relative_edge_response"), ("met", "edge_response"), ("met", "giqe3"), ("met", "giqe4"),
          ("met", "giqe5"), ("noise", "noise_gain"), ("geo", "nadir_angle"), ("geo", "curved_earth_slant_range")]


def interrupted(name):
    """any stage may fail: the sensor comes out of it as it went in, and the next evaluation is that of a fresh start"""
    def case(h):
        w = World(h, free=("read_noise", "frames"), qe=(0.0, 0.6, 0.0), fix=dict(max_n=1e8, max_well_fill=0.9))
        f = getattr(h.pb.met, name)
        plan = [None, 0]

        def watch(mod, fn):
            old = getattr(getattr(h.pb, mod), fn)

            def stage(*a, **k):
                if plan[0] == fn:
                    if plan[1] == 0:
                        raise Stop(fn)
                    plan[1] -= 1
                return old(*a, **k)
            h.patch_everywhere(old, stage)
        for mod, fn in STAGES:
            watch(mod, fn)
        want = f(w.s, w.sc)
        keys = [k for k in ("niirs", "niirs_4", "rer", "rer_0", "rer_90", "rer_gm", "eho_gm", "ng", "gsd_x", "gsd_w", "elev_angle") if hasattr(want, k)]
        b = sensors.snapshot(h, w.s)
        kern = w.s.filter_kernel
        for _, fn in STAGES:
            for n in (0, 1):
                plan[:] = [fn, n]
                try:
                    f(w.s, w.sc)
                    failed = False
                except Stop:
                    failed = True
                plan[0] = None
                if not failed:
                    break
                sensors.same_sensor(h, b, w.s, "sensor after a failure of " + fn)
                h.true(w.s.filter_kernel is kern, "the caller's kernel", "the sensor's kernel was replaced when %s failed" % fn)
            if failed:
                got = f(w.s, w.sc)
                for k in keys:
                    h.close(getattr(got, k), getattr(want, k), "%s after a failure of %s" % (k, fn), rtol=1e-9, atol=1e-9)
    return case
