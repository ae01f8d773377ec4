"""What the plots show: MTF curves, noise bars, reference image."""
import math

import numpy as np

from . import spec

m = spec.m

PARTS = [("aperture", "ap_OTF"), ("turbulence", "turb_OTF"), ("detector", "det_OTF"), ("jitter", "jit_OTF"), ("drift", "drft_OTF"),
         ("wavefront", "wav_OTF"), ("image processing", "filter_OTF"), ("system", "system_OTF")]
TERMS = [("total", "total_noise"), ("scene", "scene_noise"), ("path", "path_noise"), ("emission / stray", "self_emission_noise"),
         ("dark current", "dark_current_noise"), ("quantization", "quantization_noise"), ("readout", None)]


class Rec:
    """stands for pyplot, a figure, an axis or an artist during symbolic execution: keeps what is asked of it"""

    def __init__(self, calls):
        self.__dict__["calls"] = calls

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("ax", "fig", "transAxes", "xaxis", "yaxis", "figure") and name != "figure":
            return self
        calls = self.calls

        def f(*a, **k):
            calls.append((name, a, k))
            if name == "subplots":
                return Rec(calls), Rec(calls)
            if name in ("plot",):
                return [Rec(calls)] * 20
            return Rec(calls)
        return f

    def __call__(self, *a, **k):
        return Rec(self.calls)

    def __iter__(self):
        return iter([Rec(self.calls)])


def flat_plot(a, k):
    """curves of one plot call"""
    out, i = [], 0
    while i < len(a):
        if i + 1 < len(a) and not isinstance(a[i + 1], str):
            x, y, i = a[i], a[i + 1], i + 2
        else:
            x, y, i = None, a[i], i + 1
        if i < len(a) and isinstance(a[i], str):
            i += 1
        out.append((k.get("label"), x, y))
    return out


def seen(calls):
    """what the recorded calls draw"""
    d = dict(curves=[], axis=[None] * 4, xlabel=None, ylabel=None, title=None, arrow=None, bars=[], ticks=None, images=[])
    names, own = None, True
    for n, a, k in calls:
        if n == "plot":
            d["curves"] += flat_plot(a, k)
        elif n == "legend":
            own = not a and "labels" not in k
            names = list(a[-1] if a else k.get("labels", []))
        elif n == "axis" and (a or "xmin" in k):
            d["axis"] = list(a[0]) if a else [k.get(q) for q in ("xmin", "xmax", "ymin", "ymax")]
        elif n in ("xlim", "set_xlim", "ylim", "set_ylim") and (a or k):
            o = 0 if "x" in n else 2
            lo, hi = (a[0] if len(a) == 1 and np.ndim(a[0]) else (list(a) + [k.get("left", k.get("bottom")), k.get("right", k.get("top"))])[:2]) if a else (
                k.get("left", k.get("bottom")), k.get("right", k.get("top")))
            d["axis"][o:o + 2] = [lo if lo is not None else d["axis"][o], hi if hi is not None else d["axis"][o + 1]]
        elif n in ("xlabel", "set_xlabel"):
            d["xlabel"] = a[0] if a else k["xlabel"]
        elif n in ("ylabel", "set_ylabel"):
            d["ylabel"] = a[0] if a else k["ylabel"]
        elif n in ("title", "set_title"):
            d["title"] = a[0] if a else k["label"]
        elif n == "annotate":
            d["arrow"] = k["xy"] if "xy" in k else a[1]
        elif n == "bar":
            x, y = (list(a) + [k.get("height")])[:2] if a else (k["x"], k["height"])
            d["bars"] += list(zip(list(x), list(y)))
        elif n == "imshow":
            d["images"].append((a[0] if a else k["X"], k.get("extent")))
        elif n in ("set_xticklabels", "xticks"):
            d["ticks"] = list(a[-1]) if a else list(k["labels"])
        elif n == "set_xticks" and (len(a) > 1 or "labels" in k):
            d["ticks"] = list(a[1] if len(a) > 1 else k["labels"])
    if names and not own:
        d["curves"] = [(names[i] if i < len(names) else None, x, y) for i, (_, x, y) in enumerate(d["curves"])]
    if d["ticks"] is not None:
        d["ticks"] = [t for t in d["ticks"] if t.strip()]
    return d


def drawn(plt):
    """the same, read from a real figure"""
    if not plt.get_fignums():
        return dict(curves=[], axis=[None] * 4, xlabel=None, ylabel=None, title=None, arrow=None, bars=[], ticks=[], images=[])
    ax = plt.gcf().axes[0]
    leg = ax.get_legend()
    names = [t.get_text() for t in leg.get_texts()] if leg else []
    cs = []
    for i, l in enumerate(ax.lines):
        nm = l.get_label()
        cs.append((names[i] if nm.startswith("_") and i < len(names) else nm, l.get_xdata(), l.get_ydata()))
    arrow = [t.xy for t in ax.texts if hasattr(t, "xy")]
    ax.figure.canvas.draw()
    bars = [(p.get_x() + p.get_width() / 2, p.get_height()) for p in ax.patches if hasattr(p, "get_height")]
    # tick labels at the bars
    ticks = [t.get_text() for x, _ in bars for t in ax.get_xticklabels() if abs(t.get_position()[0] - x) < 1e-9]
    return dict(curves=cs, axis=list(ax.get_xlim()) + list(ax.get_ylim()), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), title=ax.get_title(),
                arrow=arrow[0] if arrow else None, bars=bars, ticks=ticks, images=[(im.get_array(), im.get_extent()) for im in ax.images])


def watch(h, mod, call):
    """run one plotting function, return what it drew (symbolically: what it asked to be drawn) and what it returned"""
    if h.sym:
        calls = []
        keep = mod.plt
        h.patch(mod, "plt", Rec(calls))
        r = call()
        h.patch(mod, "plt", keep)
        return seen(calls), r
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    import warnings
    plt.close("all")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = call()
            return drawn(plt), r
    finally:
        plt.close("all")


def word(s):
    return " ".join(str(s).lower().split())


class NS:
    pass


def metrics(h, n, tag="", free=("ap_OTF", "system_OTF"), lo=0.01):
    q, f, ifov = h.real("cut" + tag, 1e3, 1e6), h.real("f" + tag, 0.01, 20.0), h.real("ifov" + tag, 1e-7, 1e-2)
    mt = NS()
    r = np.linspace(-1.0, 1.0, n)
    mt.uu = h.arr([[float(x) * q for x in r] for _ in r])
    mt.vv = h.arr([[-float(y) * q for _ in r] for y in r])
    mt.sensor, mt.otf = NS(), NS()
    mt.sensor.f, mt.ifov_x, mt.ifov_y = f, ifov, ifov * 2.0
    for k, (_, a) in enumerate(PARTS):
        g = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                base = math.exp(-(0.3 + 0.1 * k) * abs(i - n // 2) - (0.2 + 0.07 * k) * abs(j - n // 2) - 0.03 * (i - n // 2) * (j - n // 2))
                g[i, j] = -base if lo < 0.0 and a != "filter_OTF" and (i + 2 * j) % 3 == 1 and (i, j) != (n // 2, n // 2) else base
                if a in free and (i, j) != (n // 2, n // 2):
                    g[i, j] = h.real("%s%s_%d_%d" % (a, tag, i, j), lo, 0.99)
        setattr(mt.otf, a, h.arr(g.tolist()))
    return mt, q, f, ifov


def curves(h, mt, ang, q, f, ifov, d, ret, n, label=""):
    S = h.pb.otf.slice_otf
    h.true(ret == 0, "return" + label)
    got = {}
    for nm, x, y in d["curves"]:
        h.true(nm is not None and word(nm) not in got, "curve names" + label, "%s" % nm)
        got[word(nm)] = (x, y)
    h.true(sorted(got) == sorted(w for w, _ in PARTS), "curves" + label, "%s" % sorted(got))
    rad = np.empty((n, n), dtype=object)
    r = np.linspace(-1.0, 1.0, n)
    for i in range(n):
        for j in range(n):
            rad[i, j] = math.hypot(float(r[i]), float(r[j])) * q
    xs = S(h.arr(rad.tolist()), ang)
    for w, a in PARTS:
        x, y = got[w]
        e = S(getattr(mt.otf, a), ang)
        h.true(len(x) == len(xs) and len(y) == len(e), "length" + label)
        for k in range(len(e)):
            h.close(x[k] * f * 1000.0, xs[k], "frequency of %s%s" % (w, label), rtol=1e-9, atol=1e-6)
            if ang == 0.0:
                h.close(x[k] * f, 0.001 * q * 2.0 * k / (n - 1), "frequency scale of %s%s" % (w, label), rtol=1e-9, atol=1e-9)
            h.close(y[k], m.abs(e[k]), "MTF %s[%d]%s" % (w, k, label), rtol=1e-9, atol=1e-9)
    h.true(d["arrow"] is not None, "Nyquist arrow" + label)
    h.close(d["arrow"][0] * f * ifov, 0.0005, "Nyquist frequency" + label)
    h.close(d["arrow"][1], 0.0, "Nyquist arrow on the axis" + label, atol=1e-12)
    h.close(d["axis"][0], 0.0, "axis from 0" + label, atol=1e-12)
    h.close(d["axis"][1] * f * 1000.0, xs[-1], "axis to the last frequency" + label, rtol=1e-9)
    h.close(d["axis"][2], 0.0, "MTF axis from 0" + label, atol=1e-12)
    h.close(d["axis"][3], 1.0, "MTF axis to the image processing maximum" + label)
    h.true("cycles/mm" in word(d["xlabel"]) and "mtf" in word(d["ylabel"]), "axis labels" + label)


def mtf(n, degrees, free=("ap_OTF", "system_OTF"), default=False, lo=0.01):
    def case(h):
        mt, q, f, ifov = metrics(h, n, free=free, lo=lo)
        arrays = [mt.uu, mt.vv] + [getattr(mt.otf, a) for _, a in PARTS]
        snap = h.snap(*arrays)
        for dg in degrees:
            ang = math.radians(dg)
            d, ret = watch(h, h.pb.met, lambda: h.pb.met.plot_common_MTFs(mt) if default else h.pb.met.plot_common_MTFs(mt, ang))
            curves(h, mt, ang, q, f, ifov, d, ret, n, " at %d degrees" % dg)
        h.unchanged(snap, tuple(arrays), "metrics")
    return case


def phase(h):
    """complex components: the curves are magnitudes"""
    n = 5
    mt, q, f, ifov = metrics(h, n, free=())
    vals = {}
    for k, (_, a) in enumerate(PARTS):
        g = np.array(getattr(mt.otf, a), dtype=object).reshape(n, n)
        re, im = h.real("re%d" % k, 0.05, 0.9), h.real("im%d" % k, -0.9, -0.05)
        vals[a] = (re, im)
        R, I = [[x for x in row] for row in g.tolist()], [[0.0] * n for _ in range(n)]
        R[n // 2][n // 2 + 1], I[n // 2][n // 2 + 1] = re, im
        if a == "filter_OTF":
            h.assume(re * re + im * im, "<", 0.99)
        setattr(mt.otf, a, h.arr(R) + 1j * h.arr(I))
    d, ret = watch(h, h.pb.met, lambda: h.pb.met.plot_common_MTFs(mt, 0.0))
    got = {word(nm): y for nm, x, y in d["curves"]}
    for w, a in PARTS:
        re, im = vals[a]
        y = got[w][1]
        h.le(0.0, y, "magnitude of %s" % w)
        h.close(y * y, re * re + im * im, "MTF of complex %s" % w)


def two(h):
    """a second plot shows the second metrics"""
    n = 5
    a, b = metrics(h, n, "_a", free=("det_OTF",)), metrics(h, n, "_b", free=("wav_OTF",))
    for x, ang in ((a, 0.0), (b, 0.0), (b, math.pi / 2), (a, 0.0)):
        d, ret = watch(h, h.pb.met, lambda: h.pb.met.plot_common_MTFs(x[0], ang))
        curves(h, x[0], ang, x[1], x[2], x[3], d, ret, n)


def noise(limit, tn=1234.6, bn=234.2, wf=0.478):
    def case(h):
        mt = NS()
        mt.snr, mt.sensor = NS(), NS()
        v = []
        for k, (_, a) in enumerate(TERMS):
            x = h.real("n%d" % k, 0.0, 1e5)
            v.append(x)
            setattr(*((mt.snr, a) if a else (mt.sensor, "read_noise")), x)
        # quantities that are not plotted
        mt.snr.signal_noise = h.real("signal", 0.0, 1e5)
        mt.snr.tgt_n, mt.snr.bkg_n, mt.snr.well_fraction = tn, bn, wf
        f = h.pb.met.plot_noise_terms
        d, ret = watch(h, h.pb.met, lambda: f(mt) if limit is None else f(mt, limit))
        h.true(ret == 0, "return")
        h.true(len(d["bars"]) == 7 and len(d["ticks"] or []) == 7, "seven labelled bars", "%s %s" % (len(d["bars"]), d["ticks"]))
        got = dict(zip([word(t) for t in d["ticks"]], [b[1] for b in sorted(d["bars"], key=lambda b: b[0])]))
        for k, (w, _) in enumerate(TERMS):
            h.true(w in got, "bar " + w)
            h.close(got[w], v[k], "height of " + w, atol=1e-9)
        if limit:
            h.close(d["axis"][3], limit, "axis limit")
        h.true("photoelectrons" in word(d["ylabel"]), "unit")
        t = word(d["title"])
        for s in ("total photoelectrons per pixel: %d " % int(tn), "contrast photoelectrons per pixel: %d " % int(tn - bn), "well fill: %d%%" % int(wf * 100)):
            h.true(s in t, "title", t)
    return case


def show(r, c, integer=False, colour=False):
    def case(h):
        g = h.real("gsd", 1e-3, 100.0)
        img = np.arange(r * c, dtype=np.uint8).reshape(r, c) if integer else h.mat("p", r, c, 0.0, 255.0)
        if colour:
            img = h.arr([[[img[i, j] / 255.0, img[i, j] / 510.0, 0.125 * k] for j in range(c)] for k, i in enumerate(range(r))])
        ri = h.pb.RefImage(img, g, h.arr([10.0, 200.0]), h.arr([0.1, 0.8]))
        snap = h.snap(img) if not integer else img.copy()
        import sys
        mod = sys.modules[h.pb.RefImage.__module__]
        d, ret = watch(h, mod, ri.show)
        h.true(len(d["images"]) == 1, "one image")
        A, e = d["images"][0]
        h.true(np.shape(A) == np.shape(img), "shape of the image")
        for i in range(r):
            for j in range(c):
                for a, b in zip(np.ravel(A[i, j]), np.ravel(img[i, j])):
                    h.close(a, b, "pixel", atol=1e-9)
        for x, y, w in zip(e, (-c / 2, c / 2, -r / 2, r / 2), ("left", "right", "bottom", "top")):
            h.close(x, y * g, w + " edge")
        h.true("(m)" in word(d["xlabel"]) and "(m)" in word(d["ylabel"]), "unit")
        if integer:
            h.true((img == snap).all(), "image left alone")
        else:
            h.unchanged(snap, (img,), "image")
        h.true(ri.img is img, "image kept")
    return case


CASES = [
    dict(name="mtf-5-0", fn=mtf(5, [0], default=True), bounds="5x5 grids, default angle, every aperture and system OTF"),
    dict(name="mtf-5-90", fn=mtf(5, [90, 0, 90], ("turb_OTF", "drft_OTF")), bounds="5x5 grids, 90, 0 and 90 degrees, every turbulence and drift OTF"),
    dict(name="mtf-7", fn=mtf(7, [0, 180, 270], ("jit_OTF", "filter_OTF")), bounds="7x7 grids, three directions, every jitter and filter OTF"),
    dict(name="mtf-5-30", fn=mtf(5, [30, 135], ("det_OTF", "wav_OTF")), bounds="5x5 grids, 30 and 135 degrees, every detector and wavefront OTF"),
    dict(name="mtf-5-back", fn=mtf(5, [-40, 210, -90, 400], ("turb_OTF", "wav_OTF")), bounds="5x5 grids, -40, 210, -90 and 400 degrees, every turbulence and wavefront OTF"),
    dict(name="mtf-5-down", fn=mtf(5, [-65, 250], ("drft_OTF", "jit_OTF")), bounds="5x5 grids, -65 and 250 degrees, every drift and jitter OTF"),
    dict(name="mtf-signed", fn=mtf(5, [0], ("det_OTF", "system_OTF"), lo=-0.99), bounds="5x5 grids, every detector and system OTF of either sign"),
    dict(name="mtf-signed-oblique", fn=mtf(5, [30, 135, 60], ("det_OTF",), lo=-0.99), bounds="5x5 grids, three oblique directions, every detector OTF of either sign", max_paths=600),
    dict(name="mtf-complex", fn=phase, bounds="5x5 grids, one complex entry in every component"),
    dict(name="mtf-two", fn=two, bounds="two metrics, four plots"),
    dict(name="noise", fn=noise(None), bounds="every value of the seven terms"),
    dict(name="noise-limit", fn=noise(700), bounds="every value of the seven terms, axis limit 700"),
    dict(name="noise-equal", fn=noise(0, 20.0, 20.0, 1.0), bounds="equal signals, no axis limit"),
    dict(name="noise-dim", fn=noise(5, 20.0, 50.9, 0.009), bounds="target darker than the background"),
    dict(name="show-3x5", fn=show(3, 5), bounds="3x5 image, every sample distance"),
    dict(name="show-4x1", fn=show(4, 1), bounds="4x1 image, every sample distance"),
    dict(name="show-colour", fn=show(3, 2, colour=True), bounds="3x2 colour image, every sample distance"),
    dict(name="show-bytes", fn=show(6, 2, True), bounds="6x2 byte image, every sample distance"),
]
OUTSIDE = "Colours, line styles, fonts and the arrow's shape; grids other than 5x5 and 7x7; slice directions other than those listed."
