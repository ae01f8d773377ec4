"""The simulated image chain.

The atmosphere lookup, the reflectance curve, the system OTF and the blur are replaced by ones that record what they are
given and hand out arbitrary results; the random generators by deterministic functions of their arguments.  What each
part does on its own is decided in C06-C10, C17 and C21."""
import numpy as np

from . import sensors, spec, stale
from .c27 import line
from .c32 import purity

m = spec.m


class World:
    def __init__(self, h, free=(), ref=(0.0, 0.4, 1.0), pe=None, wl=(4e-7, 5.5e-7, 9e-7), wt=(0.2, 0.5, 0.3), cut=True, flat=None, draw=7.0):
        self.h = h
        self.calls = dict(curve=[], otf=[], blur=[], poisson=[], normal=[], atm=[])
        fx = dict(sensors.FIXED, w_x=1.1e-5, w_y=1.4e-5, int_time=0.002, n_tdi=3.0, dark=1.7e4, max_n=9e4, bit_depth=11.0, t_cf=0.83, s_x=2e-7, s_y=3.1e-7,
                  da_x=1.1e-5, da_y=2.3e-5, pv=0.05, pv_wavelength=6e-7, p_x=1.5e-5, p_y=1.9e-5, read_noise=10.0, max_well_fill=0.6)
        s = sensors.sensor(h, (4e-7, 5.5e-7, 9e-7), full=False, fixed={k: v for k, v in fx.items() if k not in free})
        s.filter_kernel = np.array([[0.0, -0.1, 0.0], [-0.15, 1.5, -0.15], [0.0, -0.1, 0.0]])
        s.other_noise = np.array([3.0, 4.0])
        self.s = s
        r = lambda n, lo, hi, d: h.real(n, lo, hi) if n in free else d
        self.sc = h.pb.Scenario("scene", 2, r("altitude", 500.0, 2e4, 4000.0), r("ground_range", 0.0, 3e4, 3000.0), aircraft_speed=70.0,
                                target_reflectance=0.31, background_reflectance=0.21, cn2_at_1m=1e-15)
        self.atm = h.arr([[x, 0.7, 1e5, 1.0, 2e6, 1.5e6] for x in wl])
        self.wl, self.wt = list(wl), list(wt)
        self.ref = h.arr(list(ref))
        self.pe = h.arr(list(pe)) if pe is not None else h.vec("pe", len(ref), 0.0, 1e6)
        k = self.calls

        def load(altitude, ground_range, ihaze):
            k["atm"].append((altitude, ground_range, ihaze))
            return self.atm.copy()
        h.patch_everywhere(h.pb.utils.load_database_atmosphere_no_interp, load)

        def curve(atm, sensor, int_time, target_temp=300):
            k["curve"].append(dict(atm=atm, sensor=sensor, vars=dict(vars(sensor)), it=int_time, T=target_temp))
            return self.ref.copy(), self.pe.copy(), h.arr([self.wl, self.wt])
        h.patch_everywhere(h.pb.rad.reflectance_to_photoelectrons, curve)
        self.token = np.array([[0.3, 0.7], [0.2, 1.0], [0.9, 0.4]])

        def common(sensor, scenario, uu, vv, mtf_wavelengths, mtf_weights, slant_range, int_time):
            k["otf"].append(dict(sensor=sensor, vars=dict(vars(sensor)), sc=scenario, scvars=dict(vars(scenario)), uu=uu, vv=vv, wl=mtf_wavelengths,
                                 wt=mtf_weights, R=slant_range, it=int_time))
            o = h.pb.OTF()
            o.system_OTF = self.token.copy()
            return o
        h.patch_everywhere(h.pb.otf.common_OTFs, common)

        def blur(ref_img, ref_gsd, ref_range, otf, df, ifov):
            k["blur"].append(dict(img=ref_img, gsd=ref_gsd, R=ref_range, otf=otf, df=df, ifov=ifov))
            if flat is not None:
                return h.arr([[flat]]), np.ones((1, 1))
            return ref_img[::-1, :1] * 2.0 + 1.0, np.ones((3, 3))
        h.patch_everywhere(h.pb.otf.apply_otf_to_image, blur)

        def poisson(lam=1.0, size=None):
            k["poisson"].append(lam)
            return lam * 3.0 + 5.0

        def normal(loc=0.0, scale=1.0, size=None):
            k["normal"].append((loc, scale))
            return loc + w7 * scale
        w7 = self.w7 = draw
        h.patch(np.random, "poisson", poisson)
        h.patch(np.random, "normal", normal)

    def run(self, img, pix, refl, gsd=0.05):
        h = self.h
        ri = h.pb.RefImage(img, gsd, pix, refl)
        self.gsd = gsd
        before = sensors.snapshot(h, self.s)
        sb = {k: v for k, v in vars(self.sc).items() if k != "_atm"}
        snap = h.snap(img, pix, refl)
        out = h.pb.sim.simulate_image(ri, self.s, self.sc)
        sensors.same_sensor(h, before, self.s, "sensor")
        h.unchanged(snap, (img, pix, refl), "image and calibration")
        h.true(ri.img is img and ri.pix_values is pix and ri.refl_values is refl, "reference image kept")
        for k, v in sb.items():
            h.true(vars(self.sc)[k] is v or vars(self.sc)[k] == v, "scenario." + k)
        h.true(isinstance(out, tuple) and len(out) == 3, "three images")
        return out

    def parts(self):
        """what the parts were given"""
        h, k, s = self.h, self.calls, self.s
        for c in k["atm"]:
            h.close(c[0], self.sc.altitude, "atmosphere altitude")
            h.close(c[1], self.sc.ground_range, "atmosphere range", atol=1e-12)
            h.true(c[2] == 2, "atmosphere haze")
        for c in k["curve"]:
            h.close(c["atm"], self.atm, "atmosphere of the curve", atol=1e-15)
            h.true(c["sensor"] is s or same_vars(vars(s), c["vars"]), "sensor of the curve")
            h.close(c["it"], s.int_time, "integration time of the curve")
            h.close(c["T"], 300.0, "target temperature of the curve")
        R2 = self.sc.altitude * self.sc.altitude + self.sc.ground_range * self.sc.ground_range
        live = [(x, w) for x, w in zip(self.wl, self.wt) if w > 0.0]
        lmin = live[0][0]
        for x, w in live[1:]:
            if x < lmin:
                lmin = x
        cut = s.D / lmin
        for c in k["otf"]:
            h.true(c["sensor"] is s or same_vars(vars(s), c["vars"]), "sensor of the OTF")
            h.true(c["sc"] is self.sc, "scenario of the OTF")
            h.close(c["it"], s.int_time, "integration time of the OTF")
            h.close(c["R"] * c["R"], R2, "range of the OTF")
            h.true(np.shape(c["wl"]) == (len(live),) and np.shape(c["wt"]) == (len(live),), "wavelengths with positive weight", "%s of %d" % (np.shape(c["wl"]), len(live)))
            h.close(c["wl"], h.arr([x for x, w in live]), "wavelengths of the OTF", atol=1e-15)
            h.close(c["wt"], h.arr([w for x, w in live]), "weights of the OTF", atol=1e-12)
            uu, vv = c["uu"], c["vv"]
            n, q = uu.shape
            h.true(np.shape(vv) == (n, q) and n == q and n % 2 == 1 and n > 100, "frequency grid shape", str((n, q)))
            for i, j in ((0, 0), (0, q - 1), (n - 1, 0), (n - 1, q - 1), (n // 2, q // 2), (3, 700 % q), (n // 3, q - 5), (n - 2, q // 4)):
                h.close(uu[i, j], cut * (2.0 * j / (q - 1) - 1.0), "u at %d,%d" % (i, j), atol=1e-6)
                h.close(vv[i, j], cut * (1.0 - 2.0 * i / (n - 1)), "v at %d,%d" % (i, j), atol=1e-6)
            for b in k["blur"]:
                h.close(b["df"], 2.0 * cut / (n - 1), "frequency spacing")
        for b in k["blur"]:
            h.close(b["gsd"], self.gsd, "sample distance of the reference image")
            h.close(b["R"] * b["R"], R2, "range of the blur")
            h.close(b["ifov"], (s.p_x + s.p_y) / (2.0 * s.f), "field of view of a pixel")
            if k["otf"]:
                h.true(np.shape(b["otf"]) == self.token.shape, "the system OTF goes into the blur")
                h.close(b["otf"], self.token, "the system OTF goes into the blur")

    def noise(self, blur, noisy):
        """the noisy image, as far as it came from the replaced generators"""
        h, s, k = self.h, self.s, self.calls
        if not k["poisson"] or not k["normal"]:
            return
        h.true(len(k["poisson"]) == 1 and len(k["normal"]) == 1, "one draw of each noise")
        q = s.max_n / (m.sqrt(12.0) * (m.pow(2.0, s.bit_depth) - 1.0))
        g = m.sqrt(q * q + s.read_noise * s.read_noise)
        h.true(np.shape(noisy) == np.shape(blur), "shape of the noisy image")
        for b, x in zip(np.asarray(blur, dtype=object).reshape(-1), np.asarray(noisy, dtype=object).reshape(-1)):
            h.close(x, b * 3.0 + 5.0 + self.w7 * g, "noisy image", atol=1e-9)


def same_vars(a, b):
    for k in a:
        x, y = a[k], b.get(k)
        if x is not y and not (np.shape(x) == np.shape(y) and all(p is q or p == q for p, q in zip(np.asarray(x, dtype=object).reshape(-1), np.asarray(y, dtype=object).reshape(-1)))):
            return False
    return True


def curve(h, w, x):
    """the handed out reflectance curve at x"""
    ref, pe = list(w.ref), list(w.pe)
    k = 0
    while k < len(ref) - 2 and x > ref[k + 1]:
        k += 1
    return pe[k] + (x - ref[k]) * (pe[k + 1] - pe[k]) / (ref[k + 1] - ref[k])


def chain(shape, ref, fixedpix=True):
    """pixels to reflectance to electrons to blur to noise"""
    def case(h):
        w = World(h, ref=ref)
        r, c = shape
        img = h.mat("p", r, c, -20.0, 300.0)
        pts = [(20.0, 0.05), (200.0, 0.85)]
        if not fixedpix:
            a = h.real("a", 0.0, 100.0)
            pts = [(a, 0.1), (a + 90.0, 0.7)]
        true, blur, noisy = w.run(img, h.arr([pts[1][0], pts[0][0]]), h.arr([pts[1][1], pts[0][1]]))
        w.parts()
        h.true(np.shape(true) == (r, c), "shape of the true image")
        for i in range(r):
            for j in range(c):
                h.close(true[i, j], curve(h, w, line(img[i, j], pts)), "true image", rtol=1e-8, atol=1e-8)
        if w.calls["blur"]:
            h.true(len(w.calls["blur"]) == 1, "one blur")
            h.true(np.shape(blur) == (r, 1), "shape of the blurred image")
            for i in range(r):
                h.close(blur[i, 0], true[r - 1 - i, 0] * 2.0 + 1.0, "blurred image", atol=1e-8)
            w.noise(blur, noisy)
    return case


def params(free, wl=(4e-7, 5.5e-7, 9e-7), wt=(0.2, 0.5, 0.3), gsd=False, **kw):
    """arbitrary parameters, fixed picture"""
    def case(h):
        w = World(h, free=free, pe=(10.0, 500.0, 2000.0), wl=wl, wt=wt if wt else h.vec("wt", len(wl), 0.0, 1.0), **kw)
        if wt is None:
            s = sum(list(h.arr(w.wt)))
            h.assume(s, ">=", 0.1)
        img = np.array([[10.0, 250.0], [100.0, 60.0]])
        g = h.real("gsd", 1e-3, 10.0) if gsd else 0.05
        true, blur, noisy = w.run(img, np.array([20.0, 200.0]), np.array([0.05, 0.85]), g)
        w.parts()
        for i in range(2):
            for j in range(2):
                h.close(true[i, j], curve(h, w, line(float(img[i, j]), [(20.0, 0.05), (200.0, 0.85)])), "true image")
        if w.calls["blur"]:
            for i in range(2):
                h.close(blur[i, 0], true[1 - i, 0] * 2.0 + 1.0, "blurred image")
            w.noise(blur, noisy)
    return case


def dim(h):
    """a negative Gaussian draw is not cut off"""
    b = h.real("blur", 0.0, 1e6)
    w = World(h, free=("read_noise",), pe=(10.0, 500.0, 2000.0), flat=b, draw=h.real("draw", -1e7, 1e7))
    true, blur, noisy = w.run(np.array([[10.0]]), np.array([20.0, 200.0]), np.array([0.05, 0.85]))
    w.parts()
    if w.calls["blur"]:
        w.noise(blur, noisy)


def noise(h):
    """photon noise comes before the Gaussian noise, whose spread is read and quantisation noise in quadrature"""
    b = h.real("blur", 0.0, 1e6)
    w = World(h, free=("read_noise", "max_n", "bit_depth"), pe=(10.0, 500.0, 2000.0), flat=b)
    true, blur, noisy = w.run(np.array([[10.0]]), np.array([20.0, 200.0]), np.array([0.05, 0.85]))
    w.parts()
    if w.calls["blur"]:
        h.close(blur[0, 0], b, "blurred image")
        w.noise(blur, noisy)


def integers(h):
    """an integer picture"""
    for dt in (np.uint8, np.uint16):
        w = World(h)
        img = np.array([[10, 250], [100, 60]], dtype=dt)
        true, blur, noisy = w.run(img, np.array([20, 200], dtype=dt), h.arr([0.05, 0.85]))
        w.parts()
        for i in range(2):
            for j in range(2):
                h.close(true[i, j], curve(h, w, line(float(img[i, j]), [(20.0, 0.05), (200.0, 0.85)])), "true image", atol=1e-9)
        h.restore()


def again(h):
    """a second run after changes to sensor and scenario uses the changed values"""
    w = World(h, free=("altitude", "D"), pe=(10.0, 500.0, 2000.0))
    img, pix, refl = np.array([[10.0, 250.0]]), np.array([20.0, 200.0]), np.array([0.05, 0.85])
    w.run(img, pix, refl)
    w.parts()
    for k in w.calls.values():
        k.clear()
    w.sc.altitude = h.real("altitude2", 500.0, 2e4)
    w.s.D = h.real("D2", 0.01, 2.0)
    w.s.int_time, w.s.p_x, w.s.read_noise = 0.01, 3e-5, 40.0
    w.pe = h.arr([3.0, 7.0, 90.0])
    true, blur, noisy = w.run(img, pix, refl, 0.2)
    w.parts()
    h.true(bool(w.calls["atm"]), "the atmosphere is looked up again")
    for j in range(2):
        h.close(true[0, j], curve(h, w, line(float(img[0, j]), [(20.0, 0.05), (200.0, 0.85)])), "true image")
    if w.calls["blur"]:
        w.noise(blur, noisy)


def small(h):
    """field of view and Wiener filter"""
    ww, f = h.real("w", 1e-7, 1e-2), h.real("f", 1e-3, 100.0)
    h.close(h.pb.sim.instantaneous_FOV(ww, f) * f, ww, "field of view")
    a, n = h.vec("o", 3, -1.0, 1.0), h.real("n", 1e-3, 10.0)
    snap = h.snap(a)
    r = h.pb.sim.wiener_filter(a, n)
    h.unchanged(snap, (a,), "OTF")
    for i in range(3):
        h.close(r[i] * (a[i] * a[i] + n), a[i], "Wiener filter %d" % i, atol=1e-12)


def restore(h):
    """the Wiener filter of a complex OTF undoes its phase"""
    re, im, n = h.vec("re", 4, -1.0, 1.0), h.vec("im", 4, -1.0, 1.0), h.real("n", 1e-3, 10.0)
    a = (h.arr(list(re)) + 1j * h.arr(list(im))).reshape(2, 2)
    spectrum = h.vec("ns", 4, 1e-3, 10.0)
    for ns, at in ((n, [n] * 4), (spectrum.reshape(2, 2), list(spectrum))):
        r = h.pb.sim.wiener_filter(a, ns)
        h.true(np.shape(r) == (2, 2), "shape")
        r = r.reshape(4)
        for i in range(4):
            d = re[i] * re[i] + im[i] * im[i] + at[i]
            h.close(r[i].real * d, re[i], "real part %d" % i, atol=1e-12)
            h.close(r[i].imag * d, -im[i], "imaginary part %d" % i, atol=1e-12)


ALL = "p_x p_y f read_noise max_n bit_depth int_time"
CASES = [
    dict(name="chain-1x1", fn=chain((1, 1), (0.0, 1.0)), bounds="1x1 image, 2-point curve, every pixel and curve value", max_paths=900),
    dict(name="chain-3pt", fn=chain((1, 1), (0.0, 0.37, 1.0)), bounds="1x1 image, 3-point curve", max_paths=900),
    dict(name="chain-2x2", fn=chain((2, 2), (0.0, 1.0)), bounds="2x2 image, every pixel", max_paths=900),
    dict(name="chain-calibration", fn=chain((1, 1), (0.0, 1.0), False), bounds="1x1 image, arbitrary calibration", max_paths=900),
    dict(name="sensor", fn=params(("p_x", "p_y", "f", "int_time", "n_tdi", "w_x", "w_y")), bounds="arbitrary pitch, focal length and exposure"),
    dict(name="aperture", fn=params(("D", "eta")), bounds="arbitrary aperture"),
    dict(name="range", fn=params(("altitude", "ground_range"), gsd=True), bounds="arbitrary altitude, ground range and sample distance"),
    dict(name="weights", fn=params(("D",), wt=None), bounds="3 wavelengths, arbitrary weights, some of them zero", max_paths=900),
    dict(name="weights-4", fn=params(("D",), wl=(9e-7, 4e-7, 7e-7, 5e-7), wt=(0.3, 0.0, 0.2, 0.5)), bounds="4 unordered wavelengths, the shortest without weight"),
    dict(name="noise", fn=noise, bounds="arbitrary blurred pixel, read noise, well and bit depth"),
    dict(name="draw", fn=dim, bounds="arbitrary Gaussian draw of either sign, blurred pixel and read noise"),
    dict(name="integers", fn=integers, bounds="2x2 integer images, arbitrary curve"),
    dict(name="again", fn=again, bounds="two runs, arbitrary altitude and aperture"),
    dict(name="wiener-complex", fn=restore, bounds="arbitrary complex 2x2 OTF and noise ratio, one number or one per frequency"),
    dict(name="small", fn=small, bounds="arbitrary pixel, focal length, real OTF values, noise ratio"),
]
CASES += purity("instantaneous_FOV", "wiener_filter")
CASES += stale.sim_cases()
OUTSIDE = "The distribution of the random numbers; images above 2x2 with every pixel arbitrary."
