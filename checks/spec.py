"""Reference formulas (pyBSM technical documentation / IBSM report), written
independently of the implementation; polymorphic in symbolic and float scalars."""
from symx.harness import Math as m

pi = m.pi


def _acos(x):
    return m.acos(m.min(m.max(x, -1.0), 1.0))


def _root1(x):
    """sqrt(1 - x^2), 0 outside"""
    return m.sqrt(m.max(1 - x * x, 0.0))


def aperture(u, v, lam, D, eta):
    """annular aperture, IBSM 3-20 (O'Neill)"""
    rho = m.sqrt(u * u + v * v)
    x = rho * lam / D
    A = 2 / pi * (m.acos(x) - x * m.sqrt(1 - x * x)) if x < 1 else 0.0
    if not (eta > 0):
        return A
    y = x / eta
    B = 2 * eta * eta / pi * (m.acos(y) - y * m.sqrt(1 - y * y)) if y < 1 else 0.0
    if x < (1 - eta) / 2:
        C = -2 * eta * eta
    elif x < (1 + eta) / 2:
        z = (1 + eta * eta - 4 * x * x) / (2 * eta)
        phi = _acos(z)
        C = 2 * eta / pi * m.sin(phi) + (1 + eta * eta) / pi * phi - 2 * eta * eta
        C = C - 2 * (1 - eta * eta) / pi * m.atan((1 + eta) / (1 - eta) * m.tan(phi / 2))
    else:
        C = 0.0
    return (A + B + C) / (1 - eta * eta)


def gauss(arg):
    return m.exp(arg)


def cte(u, v, px, py, nx, ny, ph, eff, f):
    return m.exp(-ph * nx * (1 - eff) * (1 - m.cos(2 * pi * u * px / f))) * m.exp(-ph * ny * (1 - eff) * (1 - m.cos(2 * pi * v * py / f)))


def defocus(u, v, D, wx, wy):
    return m.exp(-(pi * pi / 4) * ((wx * u) ** 2 + (wy * v) ** 2))


def detector(u, v, wx, wy, f):
    return m.sinc(wx * u / f) * m.sinc(wy * v / f)


def detector_agg(u, v, wx, wy, px, py, f, n):
    su = sv = 0.0
    for i in range(n):
        su = su + m.cos(2 * pi * px * u / f * (i - (n - 1) / 2))
        sv = sv + m.cos(2 * pi * py * v / f * (i - (n - 1) / 2))
    return su * sv / (n * n) * detector(u, v, wx, wy, f)


def diffusion(u, v, alpha, ald, al0, f):
    k = 2 * pi * m.sqrt(u * u + v * v) / f
    al = 1 / m.sqrt(1 / (al0 * al0) + k * k)

    def par(a):
        return 1 - m.exp(-alpha * ald) / (1 + alpha * a)
    return par(al) / par(al0)


def drift(u, v, ax, ay):
    return m.sinc(ax * u) * m.sinc(ay * v)


def gaussian(u, v, bx, by):
    return m.exp(-pi * ((u * bx) ** 2 + (v * by) ** 2))


def jitter(u, v, sx, sy):
    return m.exp(-2 * (pi * sx * u) ** 2 - 2 * (pi * sy * v) ** 2)


def turb(u, v, lam, D, r0, alpha):
    rho = m.sqrt(u * u + v * v)
    x = lam * rho
    return m.exp(-3.44 * m.pow(x / r0, 5.0 / 3.0) * (1 - alpha * m.pow(x / D, 1.0 / 3.0)))


def wind_turb(u, v, lam, D, r0, td, vel):
    w = m.exp(-vel * td / r0)
    return w * turb(u, v, lam, D, r0, 0.5) + (1 - w) * turb(u, v, lam, D, r0, 0.0)


def wavefront(u, v, lam, pv, Lx, Ly):
    ac = m.exp(-lam * lam * ((u / Lx) ** 2 + (v / Ly) ** 2))
    return m.exp(-pv * (1 - ac))


def wavefront2(u, v, cutoff, w):
    x = m.sqrt(u * u + v * v) / cutoff
    return 1 - (w / 0.18) ** 2 * (1 - 4 * (x - 0.5) ** 2)


def tdi(u, w, n_tdi, phases, beta, f):
    """sinc(xx) * mean over the sub-steps of exp(-2 pi i xx (beta-1) k)"""
    xx = w * u / (f * beta)
    re = im = 0.0
    N = int(n_tdi * phases)
    for k in range(N):
        ph = 2 * pi * xx * (beta - 1) * k
        re = re + m.cos(ph)
        im = im - m.sin(ph)
    s = m.sinc(xx)
    return s * re / N, s * im / N


def hv(h, wind, a):
    return 5.94e-53 * (wind / 27) ** 2 * h ** 10 * m.exp(-h / 1000) + 2.7e-16 * m.exp(-h / 1500) + a * m.exp(-h / 100)


def trapz(y, x):
    s = 0.0
    for i in range(len(x) - 1):
        s = s + (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2
    return s


def fried(lam, z, cn2):
    """spherical-wave Fried diameter; z runs from the target to the sensor"""
    zm = z[-1]
    s = trapz([c * m.pow(q / zm, 5.0 / 3.0) for c, q in zip(cn2, z)], z)
    return m.pow(0.423 * (2 * pi / lam) ** 2 * s, -3.0 / 5.0)


HC, CC, KB, QE = 6.62607004e-34, 299792458.0, 1.38064852e-23, 1.60217662e-19


def planck(lam, T):
    return 2 * HC * CC ** 2 / lam ** 5 / (m.exp(HC * CC / (lam * KB * T)) - 1)


def fnum_fac(D, f):
    """solid-angle factor pi/(1+4 F^2)"""
    return pi / (1 + 4 * (f / D) ** 2)


def interp0(xs, ys, x):
    """linear interpolation, 0 outside the table"""
    n = len(xs)
    if x < xs[0] or x > xs[n - 1]:
        return 0.0
    for i in range(n - 1):
        if x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[n - 1]


def in_focus(u, v, lam, D):
    x = m.sqrt(u * u + v * v) * lam / D
    if x >= 1:
        return 0.0
    b = m.acos(x)
    return (2 * b - m.sin(2 * b)) / pi


def hopkins(u, v, lam, D, f, dz):
    """Hopkins 1955: defocused circular pupil, first eight Bessel orders"""
    rho = m.sqrt(u * u + v * v)
    x = rho * lam / D
    if x > 1:
        return 0.0
    if rho == 0:
        return 1.0
    s = 2 * x
    w20 = dz / (2 * (1 + 4 * (f / D) ** 2))
    a = 4 * pi / lam * w20 * s
    b = m.acos(x)
    J = [m.jn(k, a) for k in range(9)]
    c = b * J[1] + m.sin(2 * b) / 2 * (J[1] - J[3]) - m.sin(4 * b) / 4 * (J[3] - J[5]) + m.sin(6 * b) / 6 * (J[5] - J[7])
    d = m.sin(b) * (J[0] - J[2]) - m.sin(3 * b) / 3 * (J[2] - J[4]) + m.sin(5 * b) / 5 * (J[4] - J[6]) - m.sin(7 * b) / 7 * (J[6] - J[8])
    return 4 / (pi * a) * (m.cos(a * s / 2) * c - m.sin(a * s / 2) * d)
