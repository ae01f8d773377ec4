"""The sensor and scenario estimated for a reference image."""
import numpy as np

from . import spec

m = spec.m


def judge(h, ri, sensor, sc, gsd, alt, name):
    h.true(isinstance(sensor, h.pb.Sensor) and isinstance(sc, h.pb.Scenario), "sensor and scenario")
    h.true(sensor.name == name and sc.name == name, "names")
    for x in (sensor.p_x, sensor.p_y, sensor.w_x, sensor.w_y):
        h.close(x, 2e-5, "detector pitch")
    h.close(sensor.f * gsd, alt * 2e-5, "focal length times sample distance")
    h.close(sc.altitude, alt, "altitude")
    h.close(sc.ground_range, 0.0, "nadir view", atol=1e-12)
    h.true(sc.ihaze == 1, "haze")
    for k in ("aircraft_speed", "ha_wind_speed", "cn2_at_1m"):
        h.close(getattr(sc, k), 0.0, k, atol=1e-30)
    lam = sensor.opt_trans_wavelengths
    h.close(lam, [3.8e-7, 7e-7], "band", atol=1e-15)
    ifov = 2.0 * m.atan(2e-5 / 2.0 / sensor.f)
    h.close(sensor.D * ifov, 4.0 * 5.4e-7, "aperture")
    h.close(sensor.eta, 0.0, "obscuration", atol=1e-12)
    for k, d in (("int_time", 1.0), ("dark_current", 0.0), ("read_noise", 0.0), ("n_tdi", 1.0), ("s_x", 0.0), ("s_y", 0.0), ("da_x", 0.0), ("da_y", 0.0), ("pv", 0.0)):
        h.close(getattr(sensor, k), d, k, atol=1e-12)
    h.close(sensor.L_x, sensor.D, "L_x")
    # the ground footprint of one pixel
    h.close(h.pb.geo.ground_sample_distance(sensor.p_x / sensor.f, alt), gsd, "sample distance of the sensor")


def args(h):
    return h.real("gsd", 1e-3, 100.0), h.real("alt", 1.0, 4e7)


def estimate(shape):
    def case(h):
        gsd, alt = args(h)
        img = h.mat("p", shape[0], shape[1], 0.0, 255.0)
        ri = h.pb.RefImage(img, gsd, h.arr([10.0, 200.0]), h.arr([0.1, 0.8]), "scene")
        snap = h.snap(img, ri.pix_values, ri.refl_values)
        sensor, sc = ri.estimate_capture_parameters(alt)
        judge(h, ri, sensor, sc, gsd, alt, "scene")
        h.unchanged(snap, (img, ri.pix_values, ri.refl_values), "image and calibration")
        h.true(ri.img is img and ri.name == "scene", "reference image kept")
        h.close(ri.gsd, gsd, "sample distance kept")
    return case


def default(h):
    gsd = h.real("gsd", 1e-3, 100.0)
    ri = h.pb.RefImage(h.arr([[0.0, 10.0], [20.0, 40.0]]), gsd)
    sensor, sc = ri.estimate_capture_parameters()
    judge(h, ri, sensor, sc, gsd, 2e6, "ref_image")


def twice(h):
    """two images, and two altitudes for one image, never share anything"""
    g1, a1 = args(h)
    g2, a2 = h.real("gsd2", 1e-3, 100.0), h.real("alt2", 1.0, 4e7)
    im = h.arr([[0.0, 10.0], [20.0, 40.0]])
    x, y = h.pb.RefImage(im, g1, name="x"), h.pb.RefImage(im, g2, name="y")
    r = [(x, x.estimate_capture_parameters(a1), g1, a1, "x"), (y, y.estimate_capture_parameters(a1), g2, a1, "y"),
         (x, x.estimate_capture_parameters(a2), g1, a2, "x"), (x, x.estimate_capture_parameters(a1), g1, a1, "x")]
    for ri, (s, c), g, a, n in r:
        judge(h, ri, s, c, g, a, n)
    # overwrite the first pair: the others stay
    s, c = r[0][1]
    s.opt_trans_wavelengths *= 2.0
    s.qe *= 0.0
    s.p_x, s.f, s.D = 1.0, 1.0, 1.0
    c.altitude, c.ground_range = 7.0, 8.0
    for ri, (s, c), g, a, n in r[1:]:
        judge(h, ri, s, c, g, a, n)
    x.gsd = g2
    s, c = x.estimate_capture_parameters(a2)
    judge(h, x, s, c, g2, a2, "x")


def integers(h):
    """integer altitudes and sample distances mean the numbers they are"""
    im = np.array([[0, 10], [20, 40]], dtype=np.uint8)
    g = h.real("gsd", 1e-3, 100.0)
    for alt in (1, 1000, np.int64(35786000), np.float32(1000.0)):
        ri = h.pb.RefImage(im, g)
        s, c = ri.estimate_capture_parameters(alt)
        judge(h, ri, s, c, g, float(alt), "ref_image")
    a = h.real("alt", 1.0, 4e7)
    for gi in (1, 7):
        ri = h.pb.RefImage(im, gi)
        s, c = ri.estimate_capture_parameters(a)
        judge(h, ri, s, c, float(gi), a, "ref_image")
    h.true(im.dtype == np.uint8 and im.tolist() == [[0, 10], [20, 40]], "image left alone")


CASES = [dict(name="estimate-%dx%d" % s, fn=estimate(s), bounds="%dx%d image, every sample distance and altitude" % s) for s in ((1, 1), (2, 3))] + [
    dict(name="default", fn=default, bounds="default altitude, every sample distance"),
    dict(name="twice", fn=twice, bounds="two images, two altitudes, four estimates"),
    dict(name="integers", fn=integers, bounds="four integer altitudes, two integer sample distances"),
]
OUTSIDE = "Sample distances outside 1 mm to 100 m, altitudes outside 1 m to 4e7 m."
