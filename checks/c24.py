"""The GIQE 3 and 4 pipeline."""
import numpy as np

from . import giqe, spec, stale
from .giqe import World, before, untouched, rer, overshoot, v3, v4

m = spec.m


def finish(h, w, nm, b, e, R, df, ix, iy, s):
    h.close(nm.gsd_y, iy * R, "ground sample distance y")
    h.close(nm.gsd_gm * nm.gsd_gm, ix * R * iy * R, "mean ground sample distance squared")
    h.le(0.0, nm.gsd_gm, "sign of the ground sample distance")
    ng = sum(float(x) ** 2 for r in np.atleast_2d(s["filter_kernel"]) for x in r) ** 0.5
    h.close(nm.ng, ng, "noise gain")
    snr = m.sqrt(s["frame_stacks"]) * e["snr"]
    E = w.elevation(R)
    h.close(nm.elev_angle, E, "elevation")
    if w.stub_edge:
        if not w.edge_calls:
            return
        for mtf, d, x, y in w.edge_calls:
            h.close(d, df, "frequency step given to the edge terms")
            h.close(x, ix, "ifov x given to the edge terms")
            h.close(y, iy, "ifov y given to the edge terms")
            for i, j in ((50, 50), (50, 53), (44, 50), (60, 20)):
                h.close(mtf[i, j], abs(nm.otf.system_OTF[i, j]), "MTF given to the edge terms")
        r, o = w.edge_out
        h.close(nm.rer_gm, r, "relative edge response")
        h.close(nm.eho_gm, o, "overshoot")
    else:
        row, col = w.slices(nm.otf.system_OTF)
        h.close(nm.rer_gm * nm.rer_gm, rer(row, df, ix) * rer(col, df, iy), "relative edge response squared", rtol=1e-7)
        o1, o2 = overshoot(row, df, ix), overshoot(col, df, iy)
        if o1 is not None and o2 is not None:
            h.close(nm.eho_gm * nm.eho_gm, o1 * o2, "overshoot squared", rtol=1e-7)
        r, o = nm.rer_gm, nm.eho_gm
    h.close(nm.niirs, v3(r, nm.gsd_gm, o, ng, snr), "version 3", rtol=1e-7, atol=1e-7)
    want, gp = v4(r, nm.gsd_gm, o, ng, snr, E)
    h.close(nm.gsd_gp, gp, "ground plane distance")
    h.close(nm.niirs_4, want, "version 4", rtol=1e-7, atol=1e-7)
    untouched(h, w, b)


def go(otf=True, edges=False, times=1, flip=False, **k):
    def case(h):
        w = World(h, **k)
        if otf:
            w.cut_otf()
            w.flip = flip
        if edges:
            w.cut_edges("giqe_edge_terms")
        b = before(h, w)
        for t in range(times):
            nm = h.pb.met.niirs(w.s, w.sc, w.interp) if w.interp else h.pb.met.niirs(w.s, w.sc)
            e, R, df, ix, iy = w.check_common(nm, b[1])
            if otf:
                if not w.otf_calls:
                    return
                for c in w.otf_calls:
                    h.close(h.arr(np.ravel(c["kernel"]).tolist()), h.arr(np.ravel(k.get("kernel", giqe.KER)).tolist()), "kernel given to the OTF")
            elif t == 0:
                o = h.pb.otf.common_OTFs(w.s, w.sc, nm.uu, nm.vv, nm.mtf_wavelengths, nm.mtf_weights, R, nm.snr.int_time)
                for i, j in ((50, 50), (50, 51), (50, 60), (45, 50), (20, 70)):
                    h.close(nm.otf.system_OTF[i, j], o.system_OTF[i, j], "system OTF", rtol=1e-7, atol=1e-12)
            finish(h, w, nm, b, e, R, df, ix, iy, b[1])
            # the scenario the caller asked about is the one reported
            h.true(nm.sensor is w.s and nm.scenario is w.sc, "sensor and scenario in the report")
            w.keys, w.otf_calls, w.edge_calls = [], [], []
    return case


CASES = [
    dict(name="scene", fn=go(cols=(5,)), bounds="any reflected radiance at 5 wavelengths (3 in band)", max_paths=200),
    dict(name="path", fn=go(cols=(2, 4)), bounds="any path emission and scatter", max_paths=200),
    dict(name="infrared", fn=go(ir=True, cols=(1,), fix=dict(int_time=1e-4)), bounds="mid-wave, any transmission"),
    dict(name="infrared-path", fn=go(ir=True, cols=(2, 4), fix=dict(int_time=1e-4)), bounds="mid-wave, any path terms"),
    dict(name="straddling", fn=go(tab=(2.5e-6, 3.3e-6, 4.1e-6), cols=(1,), fix=dict(int_time=1e-4)), bounds="a band across 2.9 um: reflective"),
    dict(name="short", fn=go(tab=(2.89e-6, 2.95e-6, 2.99e-6), cols=(5,), fix=dict(int_time=1e-4)), bounds="a band from 2.89 um: reflective"),
    dict(name="threshold", fn=go(tab=(2.9e-6, 3.3e-6, 4.1e-6), ir=True, cols=(1,), fix=dict(int_time=1e-4)), bounds="a band from 2.9 um: emissive"),
    dict(name="long-wave", fn=go(tab=(8e-6, 9.5e-6, 12e-6), ir=True, cols=(1,), fix=dict(int_time=1e-6)), bounds="long-wave, any transmission"),
    dict(name="detector", fn=go(free=("read_noise", "max_n", "dark", "n_tdi", "frames", "on1")), bounds="any read noise, capacity, dark current, stages, frames"),
    dict(name="exposure", fn=go(free=("int_time", "max_well_fill", "t_cf", "frames")), bounds="any exposure and well limit, saturated or not"),
    dict(name="geometry", fn=go(scene=("altitude", "ground_range")), bounds="any altitude and ground range"),
    dict(name="pixels", fn=go(edges=True, free=("p_x", "p_y", "frames"), scene=("ground_range",)), bounds="any pixel pitch, edge terms and ground range"),
    dict(name="optics", fn=go(edges=True, free=("D",)), bounds="any aperture and edge terms"),
    dict(name="focal", fn=go(edges=True, free=("f", "p_x")), bounds="any focal length, pitch and edge terms"),
    dict(name="blind-wavelength", fn=go(cols=(5,), qe=(0.0, 0.6, 0.4)), bounds="one wavelength without response"),
    dict(name="response-table", fn=go(cols=(5,), qe_tab=(0.45e-6, 0.61e-6, 0.69e-6)), bounds="quantum efficiency tabulated on other wavelengths than the optics"),
    dict(name="response-wider", fn=go(cols=(5,), qe_tab=(0.3e-6, 0.5e-6, 0.8e-6)), bounds="quantum efficiency tabulated beyond the optics on both sides"),
    dict(name="response-visible", fn=go(tab=(3.2e-6, 4.1e-6, 4.7e-6), qe_tab=(2.5e-6, 4.2e-6, 5e-6), ir=True, cols=(1,), fix=dict(int_time=1e-4)),
         bounds="optics from 3.2 um, quantum efficiency from 2.5 um: emissive"),
    dict(name="response-infrared", fn=go(tab=(2.5e-6, 3.1e-6, 4.7e-6), qe_tab=(3e-6, 4.2e-6, 5e-6), cols=(1,), fix=dict(int_time=1e-4)),
         bounds="optics from 2.5 um, quantum efficiency from 3 um: reflective"),
    dict(name="late-atmosphere", fn=go(tab=(2.8e-6, 3.3e-6, 4.1e-6), lams=(2.7e-6, 2.95e-6, 3.4e-6, 4.0e-6, 4.2e-6), cols=(1,), fix=dict(int_time=1e-4)),
         bounds="a band from 2.8 um whose first atmosphere row lies at 2.95 um: reflective"),
    dict(name="dark-target", fn=go(tab=(2.8e-6, 8e-6, 1.1e-5), cols=(1,), dim=1e-9, fix=dict(int_time=1e-6)),
         bounds="a reflective band in which emission makes the background the brighter, any transmission"),
    dict(name="negative-otf", fn=go(cols=(5,), flip=True), bounds="an OTF of negative sign: magnitudes are used"),
    dict(name="narrow", fn=go(tab=(5.3e-7, 5.5e-7, 5.7e-7), cols=(5,)), bounds="a band 40 nm wide, 5 wavelengths"),
    dict(name="band-edges", fn=go(lams=(giqe.VIS[0] - 3e-10, giqe.VIS[0], giqe.VIS[1], giqe.VIS[2], giqe.VIS[2] + 3e-10), cols=(5,)),
         bounds="atmosphere rows 0.3 nm outside the band at both ends"),
    dict(name="mean-kernel", fn=go(cols=(5,), kernel=[[0.0625, 0.125, 0.0625], [0.125, 0.25, 0.125], [0.0625, 0.125, 0.0625]]), bounds="a smoothing filter"),
    dict(name="interpolated", fn=go(interp=True, scene=("altitude", "ground_range")), bounds="interpolated atmosphere"),
    dict(name="unit-kernel", fn=go(kernel=[1.0], cols=(5,)), bounds="no filter"),
    dict(name="twice", fn=go(times=2, cols=(5,)), bounds="the same objects evaluated twice"),
    dict(name="twice-infrared", fn=go(times=2, ir=True, cols=(1,), fix=dict(int_time=1e-4)), bounds="the same objects evaluated twice"),
    dict(name="interrupted", fn=giqe.interrupted("niirs"), bounds="a failure in any of 22 stages, first or second use; any read noise and frames"),
    dict(name="whole", fn=go(otf=False, free=("read_noise", "frames"), qe=(0.0, 0.6, 0.0), fix=dict(max_n=1e8, max_well_fill=0.9)), bounds="nothing replaced but the atmosphere; any read noise and frames"),
    dict(name="whole-turbulent", fn=go(otf=False, free=("read_noise",), cn2=1.7e-14, qe=(0.5, 0.6, 0.7), kernel=[1.0], fix=dict(max_n=1e8, max_well_fill=0.9)),
         bounds="nothing replaced but the atmosphere, turbulence, 3 wavelengths; any read noise"),
]
CASES += stale.niirs_cases("niirs", ("niirs", "niirs_4", "rer_gm", "eho_gm", "ng", "gsd_x", "gsd_y", "gsd_gm", "gsd_gp", "elev_angle", "slant_range", "cutoff_frequency", "df"))
OUTSIDE = "More than 5 atmosphere wavelengths; OTFs other than the substituted 101x101 one except in the whole-* cases."
