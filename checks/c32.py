"""Purity: no hidden state, no changed arguments, no dependence on number types."""
import numpy as np

from . import sensors, spec  # noqa: F401

U1, V1 = [300, -2000, 0, 70], [-40, 500, 0, 9000]
U2, V2 = [1000, 20, 400, -7], [0, 60, -800, 30]


FIXED = []


def K(values):
    """an array that is the same in every call"""
    FIXED.append(np.array(values))
    return FIXED[-1]


def table():
    """name -> (module, function, builder); q(name, lo, hi) is a free scalar, A(first, second) an array whose contents differ between the two calls"""
    t = {}

    def add(mod, fn, build, name=None, integer=True, tol=1e-9):
        t[name or fn] = (mod, fn, build, integer, tol)

    def uv(A):
        return [A(U1, U2), A(V1, V2)]
    f, D, lam = ("f", 0.1, 10.0), ("D", 0.02, 2.0), ("lam", 4e-7, 1.2e-5)
    o = "otf"
    add(o, "circular_aperture_OTF", lambda q, A: uv(A) + [q(*lam), q(*D), 0.0], "aperture-clear")
    add(o, "circular_aperture_OTF", lambda q, A: uv(A) + [4e-6, 0.2, 0.4], "aperture-annular")
    add(o, "circular_aperture_OTF_with_defocus", lambda q, A: uv(A) + [4e-6, 0.2, 1.0, 1e-5])
    add(o, "cte_OTF", lambda q, A: uv(A) + [q("px", 1e-6, 1e-4), q("py", 1e-6, 1e-4), 100.0, 200.0, 4.0, 0.9999, q(*f)])
    add(o, "defocus_OTF", lambda q, A: uv(A) + [q(*D), q("wx", 1e-6, 1e-4), q("wy", 1e-6, 1e-4)])
    add(o, "detector_OTF", lambda q, A: uv(A) + [q("wx", 1e-6, 1e-4), q("wy", 1e-6, 1e-4), q(*f)])
    add(o, "detector_OTF_with_aggregation", lambda q, A: uv(A) + [q("wx", 1e-6, 1e-4), 2e-5, q("px", 1e-6, 1e-4), 2e-5, 1.5, 3])
    add(o, "diffusion_OTF", lambda q, A: uv(A) + [q("al", 1e4, 1e5), 1e-5, 2e-5, q(*f)])
    add(o, "drift_OTF", lambda q, A: uv(A) + [q("ax", 1e-6, 1e-4), q("ay", 1e-6, 1e-4)])
    add(o, "filter_OTF", lambda q, A: uv(A) + [A([[0, -1, 0], [-1, 5, -1], [0, -1, 0]], [[0, 0, 0], [1, 2, 1], [0, 0, 0]]), 3e-5], tol=1e-7)
    add(o, "gaussian_OTF", lambda q, A: uv(A) + [q("bx", 1e-6, 1e-4), q("by", 1e-6, 1e-4)])
    add(o, "jitter_OTF", lambda q, A: uv(A) + [q("sx", 1e-6, 1e-4), q("sy", 1e-6, 1e-4)])
    add(o, "polychromatic_turbulence_OTF", lambda q, A: uv(A) + [K([4e-6, 4.6e-6]), A([1, 3], [2, 2]), 3000.0, 5000.0, 0.4, 20.0, 1.7e-14, 0.01, q("speed", 0.0, 100.0)])
    add(o, "tdi_OTF", lambda q, A: uv(A)[:1] + [q("w", 1e-6, 1e-4), 3, 4, q("beta", 0.5, 2.0), q(*f)])
    add(o, "turbulence_OTF", lambda q, A: uv(A) + [4e-6, 0.2, q("r0", 0.01, 10.0), q("alpha", 0.0, 1.0)])
    add(o, "wavefront_OTF", lambda q, A: uv(A) + [q(*lam), q("pv", 0.0, 1.0), q("Lx", 0.01, 1.0), q("Ly", 0.01, 1.0)])
    add(o, "wavefront_OTF_2", lambda q, A: uv(A) + [q("cut", 1e5, 1e6), q("w", 0.0, 0.25)])
    add(o, "wind_speed_turbulence_OTF", lambda q, A: uv(A) + [4e-6, 0.2, q("r0", 0.01, 10.0), q("td", 0.0, 0.1), q("vel", 0.0, 50.0)])
    add(o, "otf_to_psf", lambda q, A: [A(np.full((5, 5), 2), np.full((5, 5), 3) + np.eye(5)), q("df", 10.0, 20.0), 0.01])
    add(o, "weighted_by_wavelength", lambda q, A: [K([1.0, 2.0, 4.0]), A([1, 0, 3], [2, 5, 1]), lambda x, k=q("k", 0.1, 5.0): np.array([x * k, k, x])])
    add(o, "coherence_diameter", lambda q, A: [q(*lam), A([0, 10, 35, 90], [0, 5, 20, 30]), A([1, 3, 2, 5], [2, 1, 1, 1])])
    add(o, "hufnagel_valley_turbulence_profile", lambda q, A: [A([1, 50, 4000], [3, 700, 12000]), q("v", 0.0, 100.0), q("c", 1e-17, 1e-12)])
    add(o, "object_domain_defocus_radii", lambda q, A: [q(*D), q("R", 100.0, 1e4), q("R0", 100.0, 1e4)])
    add(o, "dark_current_from_density", lambda q, A: [q("jd", 0.0, 10.0), q("wx", 1e-6, 1e-4), q("wy", 1e-6, 1e-4)])
    add(o, "image_domain_defocus_radii", lambda q, A: [q(*D), q("dz", 0.0, 1e-3), q(*f)])
    add(o, "slice_otf", lambda q, A: [A(np.arange(25).reshape(5, 5), np.arange(25)[::-1].reshape(5, 5) * 2), 0.7])
    add(o, "resample_2D", lambda q, A: [A(np.arange(30).reshape(5, 6), np.arange(30)[::-1].reshape(5, 6)), q("dx", 0.5, 0.55), 1.0], integer=False)
    r = "rad"
    wl = [4e-6, 4.5e-6, 5e-6]
    add(r, "at_focal_plane_irradiance", lambda q, A: [q(*D), q(*f), A([1, 2, 3], [5, 0, 1])])
    add(r, "blackbody_radiance", lambda q, A: [K(wl), q("T", 200.0, 400.0)])
    add(r, "check_well_fill", lambda q, A: [q("n", 0.0, 1e6), q("m", 1.0, 1e6)])
    add(r, "cold_shield_self_emission", lambda q, A: [K(wl), 250.0, q(*D), q(*f)])
    add(r, "cold_stop_self_emission", lambda q, A: [K(wl), 250.0, q("e", 0.0, 1.0), q(*D), q(*f)])
    add(r, "focal_plane_integrated_irradiance", lambda q, A: [A([1, 2, 3], [5, 0, 1]), A([1, 1, 2], [0, 3, 1]), q("t", 0.0, 1.0), q("e", 0.0, 1.0), K(wl), 1e-8, 280.0, q(*D), q(*f)])
    add(r, "optics_self_emission", lambda q, A: [K(wl), 270.0, q("e", 0.0, 1.0), q("t", 0.0, 1.0), q(*D), q(*f)])
    add(r, "photon_detection_rate", lambda q, A: [A([1, 2, 3], [5, 0, 1]), q("wx", 1e-6, 1e-4), q("wy", 1e-6, 1e-4), K(wl), A([1, 0, 1], [0, 0, 1])])
    add(r, "signal_rate", lambda q, A: [K(wl), A([1, 2, 3], [5, 0, 1]), A([1, 1, 0], [1, 1, 1]), q(*D), q(*f), 1e-5, 2e-5, A([1, 0, 1], [0, 1, 1]), A([0, 0, 2], [1, 2, 2]), q("dark", 0.0, 1e6)])
    add(r, "total_radiance", lambda q, A: [_atm(A, wl), q("refl", 0.0, 1.0), 300.0])
    add(r, "giqe_radiance", lambda q, A: [_atm(A, wl), 1], "giqe_radiance-thermal")
    add(r, "giqe_radiance", lambda q, A: [_atm(A, wl), 0], "giqe_radiance-reflective")
    add(r, "resample_by_wavelength", lambda q, A: [A([1, 2, 5, 9], [0, 3, 4, 8]), A([3, 1, 4, 1], [5, 9, 2, 6]), A([0, 2, 3, 9], [1, 3, 5, 10])])
    n = "noise"
    add(n, "noise_gain", lambda q, A: [A([[0, -1, 0], [-1, 5, -1], [0, -1, 0]], [[0, 0, 1]])], "noise_gain")
    add(n, "quantization_noise", lambda q, A: [q("pe", 1.0, 1e6), q("bits", 1.0, 16.0)])
    g = "geo"
    add(g, "altitude_along_slant_path", lambda q, A: [10.0, 2000.0, q("R", 3000.0, 9000.0)])
    add(g, "nadir_angle", lambda q, A: [0.0, 5000.0, q("R", 6000.0, 9000.0)])
    add(g, "curved_earth_slant_range", lambda q, A: [10.0, 5000.0, q("R", 0.0, 9000.0)])
    add(g, "ground_sample_distance", lambda q, A: [q("ifov", 1e-7, 1e-3), q("R", 0.0, 9000.0)])
    mt = "met"
    mtf = ([10, 8, 6, 3, 1, 0], [9, 8, 7, 1, 0, 0])
    add(mt, "giqe3", lambda q, A: [0.9, q("gsd", 0.1, 10.0), q("eho", 1.0, 1.4), q("ng", 1.0, 5.0), q("snr", 5.0, 100.0)])
    add(mt, "giqe4", lambda q, A: [0.95, q("gsd", 0.1, 10.0), q("eho", 1.0, 1.4), q("ng", 1.0, 5.0), q("snr", 5.0, 100.0), 60.0])
    add(mt, "giqe5", lambda q, A: [0.5, 0.4, q("gsd", 0.1, 10.0), q("snr", 5.0, 100.0), 60.0])
    add(mt, "giqe5_RER", lambda q, A: [A(np.full((5, 5), 2), np.full((5, 5), 3) + np.eye(5, dtype=int)), q("df", 500.0, 900.0), 3e-5, 4e-5])
    add(mt, "giqe_edge_terms", lambda q, A: [A(np.full((5, 5), 2), np.full((5, 5), 3) + np.eye(5, dtype=int)), 700.0, 3e-5, 4e-5])
    add(mt, "ground_resolved_distance", lambda q, A: [A(*mtf), 3000.0, 2.0, 3e-5, q("R", 100.0, 1e5)])
    add(mt, "relative_edge_response", lambda q, A: [A(*mtf), q("df", 500.0, 900.0), 3e-5])
    add(mt, "edge_height_overshoot", lambda q, A: [A(*mtf), 700.0, 3e-5])
    add(mt, "edge_response", lambda q, A: [q("x", -1.0, 1.0), A(*mtf), 700.0, 3e-5])
    s = "sim"
    add(s, "instantaneous_FOV", lambda q, A: [q("w", 1e-6, 1e-4), q(*f)])
    add(s, "wiener_filter", lambda q, A: [A([[3, 1], [0, 2]], [[1, 1], [1, 1]]), q("ns", 0.01, 10.0)])
    add(s, "img_to_reflectance", lambda q, A: [A([[0, 100], [200, 50]], [[255, 9], [7, 128]]), A([0, 100, 255], [0, 60, 255]), K([0.0, 0.6, 1.0])])
    add(s, "stretch_contrast_convert_8bit", lambda q, A: [A([[0, 100, 31], [200, 50, 77]], [[255, 9, 1], [7, 128, 3]])])
    return t


def _atm(A, wl):
    rest = A([[1, 2, 3, 4, 5], [0, 5, 4, 1, 2], [1, 1, 7, 2, 9]], [[0, 1, 1, 2, 2], [1, 7, 0, 3, 1], [1, 2, 2, 1, 1]])
    return np.hstack([np.array(wl).reshape(3, 1), rest])


def _mod(h, k):
    return getattr(h.pb, k)


def _mod_of(pb, k):
    return getattr(pb, k)


def flat(r):
    out = []
    for x in r if isinstance(r, tuple) else (r,):
        out.append(np.shape(x))
        out += list(np.asarray(x, dtype=object).reshape(-1))
    return out


def agree(h, a, b, label, tol):
    a, b = flat(a), flat(b)
    h.true(len(a) == len(b) and all(x == y for x, y in zip(a, b) if isinstance(x, tuple)), label + ": shape", "shapes differ")
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, tuple):
            continue
        if _complex(x) or _complex(y):
            h.close(x.real, y.real, "%s, real part of value %d" % (label, i), rtol=tol, atol=tol)
            h.close(x.imag, y.imag, "%s, imaginary part of value %d" % (label, i), rtol=tol, atol=tol)
        elif _finite(x) and _finite(y):
            h.close(x, y, "%s, value %d" % (label, i), rtol=tol, atol=1e-300)
        else:
            h.true(str(x) == str(y), "%s, value %d" % (label, i), "%s against %s" % (x, y))


def _complex(x):
    return isinstance(x, (complex, np.complexfloating)) or type(x).__name__ == "SC"


def _finite(x):
    return hasattr(x, "p") or bool(np.isfinite(x))


def spoil(r):
    """a caller scribbling over what it was given"""
    for x in r if isinstance(r, tuple) else (r,):
        if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
            x[...] = 7 if x.dtype != bool else True


def singles(build, q, other, free, first, second):
    """the first call with one free value, one array or one fixed argument changed"""
    for n in list(free):
        yield n, lambda n=n: build(lambda m, lo, hi: (other if m == n else q)(m, lo, hi), first)
        yield n + ", slightly", lambda n=n: build(lambda m, lo, hi: q(m, lo, hi) * 1.000001 if m == n else q(m, lo, hi), first)
    count = [0]

    def counting(a, b):
        count[0] += 1
        return first(a, b)
    del FIXED[:]
    base = build(q, counting)
    fixed = list(FIXED)
    for k in range(count[0]):
        def args(k=k):
            seen = [-1]

            def pick(a, b):
                seen[0] += 1
                return (second if seen[0] == k and np.shape(a) == np.shape(b) else first)(a, b)
            return build(q, pick)
        yield "array %d" % k, args
    for i, x in enumerate(base):
        if isinstance(x, bool) or not isinstance(x, (int, float)) and not any(x is y for y in fixed):
            continue
        if isinstance(x, (int, float)) and x == 0.0 and not isinstance(x, int):
            continue

        for by in (1.01, 1.000001):
            if isinstance(x, int) and by != 1.01:
                continue

            def nudged(i=i, x=x, by=by):
                a = build(q, first)
                a[i] = (1 - x if x in (0, 1) else x + 1) if isinstance(x, int) else x * by
                return a
            yield "argument %d%s" % (i, "" if by == 1.01 else ", slightly"), nudged


def purity(*names):
    """cases for other checks"""
    return [dict(name="repeatable-" + k, fn=pure(k, e), bounds="calls interleaved with others, one argument changed at a time") for k, e in table().items() if e[1] in names or k in names]


def pure(name, e):
    mod, fn, build, integer, tol = e

    def case(h):
        f = getattr(_mod(h, mod), fn)
        free = {}

        def q(n, lo, hi):
            if n not in free:
                free[n] = h.real(n, lo, hi)
            return free[n]

        def other(n, lo, hi):
            return lo + 0.37 * (hi - lo)

        def first(a, b):
            return h.arr(np.asarray(a, dtype=float).tolist())

        def second(a, b):
            return h.arr(np.asarray(b, dtype=float).tolist())
        a1 = build(q, first)
        arrays = [x for x in a1 if isinstance(x, np.ndarray)]
        snap = h.snap(*arrays)
        err, rng = np.geterr(), np.random.get_state()[1].tobytes()
        r1 = f(*a1)
        keep = flat(r1)
        h.unchanged(snap, tuple(arrays), "arguments")
        h.true(np.geterr() == err, "numpy error state", "the call left numpy's error state changed")
        h.true(np.random.get_state()[1].tobytes() == rng, "random state", "the call drew from the global random generator")
        alone = f(*build(other, second))
        want = flat(getattr(_mod_of(h.fresh(), mod), fn)(*build(other, second)))   # in a process that has done nothing else
        agree(h, alone, rebuilt(want), "after other calls", tol)
        spoil(r1)
        spoil(alone)
        agree(h, tuple_of(f(*build(q, first))), rebuilt(keep), "again after another call", tol)
        # the same array objects with new contents
        for x, y in zip(a1, build(q, second)):
            if isinstance(x, np.ndarray) and x.shape == y.shape:
                x[...] = y
        stale = all(x.shape == y.shape for x, y in zip(a1, build(q, second)) if isinstance(x, np.ndarray))
        if stale:
            agree(h, f(*a1), f(*build(q, second)), "same arrays, new contents", tol)
        agree(h, tuple_of(f(*build(other, second))), rebuilt(want), "the other call again", tol)
        # one argument at a time: whatever is remembered must be keyed on all of them
        for label, args in singles(build, q, other, free, first, second):
            r, w = f(*args()), getattr(_mod_of(h.fresh(), mod), fn)(*args())
            agree(h, r, w, "only %s changed" % label, tol)
        # the same numbers in other memory layouts
        for how in (lambda a: a.copy(order="F"), lambda a: a.repeat(2, axis=0).repeat(3, axis=-1)[::2, ..., ::3] if a.ndim > 1 else a.repeat(2)[::2],
                    lambda a: a[::-1].copy()[::-1]):
            agree(h, f(*build(q, lambda a, b: how(first(a, b)))), rebuilt(keep), "another memory layout", tol)
        if integer:
            def ints(a, b):
                return np.asarray(a).astype(int) if np.all(np.asarray(a) == np.asarray(a).astype(int)) else np.asarray(a)
            agree(h, f(*build(q, ints)), rebuilt(keep), "integer arrays", tol)
    case.__doc__ = "%s.%s" % (mod, fn)
    return case


def tuple_of(r):
    return r


def rebuilt(flatted):
    return _Flat(flatted)


class _Flat(list):
    pass


_flat = flat


def flat(r):  # noqa: F811
    return r if isinstance(r, _Flat) else _flat(r)


CASES = [dict(name=k, fn=pure(k, e), bounds="every value of the free parameters, the listed array contents; two argument sets interleaved, results overwritten, arrays reused") for k, e in table().items()]
OUTSIDE = "Array contents other than the listed ones; integer images in resample_2D and apply_otf_to_image, which OpenCV filters in their own type. Sensors, scenarios and metrics as arguments are covered in C08, C16, C17, C21 and C28."
