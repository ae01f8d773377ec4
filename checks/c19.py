"""The atmosphere database lookup.

The record files are not part of this tree (git-lfs pointers), so reading one is replaced: the read records which file
was asked for and hands out that record's contents, most of them a fixed function of file, wavelength and column,
one value per column arbitrary."""
import os
import re

import numpy as np

from . import atmdb, spec

m = spec.m
NW = 1371
FREE = {0: 0, 1: 77, 2: 1370, 3: 500, 4: 700}    # column -> wavelength index with an arbitrary value


def base(n, k, c):
    return np.float32((0.5 + 0.25 * np.sin(0.37 * n + 0.011 * k + c)) * (1.0 if c == 0 else 1e-4 / (1 + c)))


def record(h, n, var):
    out = np.empty(5 * NW, dtype=object)
    ks = np.arange(NW)
    for c in range(5):
        out[c * NW:(c + 1) * NW] = base(n, ks, c).astype(float)
        out[c * NW + FREE[c]] = var[c] * (1.0 if n % 2 else 0.5)
    if h.sym:
        return h.arr(list(out))
    return np.array([float(x) for x in out], dtype=np.float32)


class Store:
    def __init__(self, h):
        self.h, self.asked = h, []
        self.var = [h.real("r%d" % c, -0.5 if c == 0 else -1e-4, 2.0 if c == 0 else 1e-3) for c in range(5)]

        def fromfile(path, dtype=float, count=-1, sep="", offset=0, **k):
            n = int(re.match(r"(\d+)\.bin$", os.path.basename(str(path))).group(1))
            self.asked.append(n)
            if np.dtype(dtype) != np.float32 or count not in (-1, 5 * NW) or offset:
                raise ValueError("records are 5 x 1371 little-endian 32-bit floats")
            return record(h, n, self.var)
        h.patch(np, "fromfile", fromfile)

    def get(self, *key):
        """the table, or None when there is no such record"""
        try:
            return self.h.pb.utils.load_database_atmosphere_no_interp(*key)
        except IndexError:
            return None

    def judge(self, a, n, label, fast=False):
        h = self.h
        h.true(a is not None, label, "record %d is in the database but was not found" % n)
        h.true(np.shape(a) == (NW, 6), label + " shape", str(np.shape(a)))
        for k in ((0, 700, 1370) if fast else (0, 1, 77, 500, 700, 1369, 1370)):
            h.close(a[k, 0], (0.3 + 0.01 * k) * 1e-6, label + " wavelength[%d]" % k, rtol=1e-9)
            for c in range(5):
                w = self.var[c] * (1.0 if n % 2 else 0.5) if k == FREE[c] else float(base(n, k, c))
                h.close(a[k, c + 1], w / (1.0 if c == 0 else 1e-10), label + " column %d[%d]" % (c + 1, k), rtol=1e-6)


def which(x, nodes):
    """the node x is equal to, by comparison, or None"""
    for q in nodes:
        if x == q:
            return q
    return None


def altitudes(haze, lo, hi):
    def case(h):
        S = Store(h)
        g = 3000.0
        alt = h.real("alt", lo, hi)
        a = S.get(alt, g, haze)
        q = which(alt, [x for x in atmdb.ALTS + [24500.0, 550000.0] if lo <= x <= hi])
        n = atmdb.INDEX.get((q, g, haze))
        if n is None:
            h.true(a is None, "no such altitude", "a table was returned for a key the database does not have")
            h.true(not S.asked, "no record is read")
        else:
            S.judge(a, n, "record", fast=True)
    return case


def ranges(alt, haze, lo, hi):
    def case(h):
        S = Store(h)
        g = h.real("range", lo, hi)
        a = S.get(alt, g, haze)
        n = atmdb.INDEX.get((alt, which(g, [x for x in atmdb.RANGES if lo <= x <= hi]), haze))
        if n is None:
            h.true(a is None, "no such ground range", "a table was returned for a key the database does not have")
        else:
            S.judge(a, n, "record", fast=True)
    return case


def listed(keys):
    def case(h):
        S = Store(h)
        for k in keys:
            S.judge(S.get(*k), atmdb.INDEX[tuple(float(x) for x in k[:2]) + (k[2],)], "record %s" % (k,))
    return case


def missing(h):
    S = Store(h)
    for k in ((1000.0, 3000.0, 3), (1000.0, 3000.0, 0), (2.0, 6000.0, 1), (20000.0, 301000.0, 2), (550000.0, 100.0, 1), (-2.0, 0.0, 1), (1000.0, -100.0, 1),
              (1500.0, 1000.0, 2), (1000.0, 22001.0, 1)):
        h.true(S.get(*k) is None, "key %s is not in the database" % (k,))


def history(h):
    """the same key gives the same table after other lookups, failures, and changes to a table handed out"""
    S = Store(h)
    ks = [(1000.0, 3000.0, 1), (1000.0, 3000.0, 2), (4000.0, 500.0, 1), (1000.0, 3000.0, 1)]
    for i, k in enumerate(ks + ks):
        a = S.get(*k)
        S.judge(a, atmdb.INDEX[k], "lookup %d" % i)
        a[:, :] = -1.0
        S.get(999.0, 3000.0, 1)


CASES = [
    dict(name="altitudes-%d-%s" % (z, t), fn=altitudes(z, lo, hi), bounds="any altitude %g to %g m, haze %d, 3 km ground range" % (lo, hi, z), max_paths=200)
    for z in (1, 2) for t, lo, hi in (("low", 0.0, 3500.0), ("mid", 3500.0, 13000.0), ("high", 13000.0, 6e5))
] + [
    dict(name="ranges-%d-%s" % (a, t), fn=ranges(a, z, lo, hi), bounds="any ground range %g to %g m, haze %d, altitude %g m" % (lo, hi, z, a), max_paths=300)
    for a, z, t, lo, hi in ((32.5, 2, "near", 0.0, 2.6e4), (11000.0, 1, "near", 0.0, 8.5e3), (2000.0, 2, "mid", 5.1e4, 7.3e4), (20000.0, 1, "far", 2.6e5, 4e5), (2000.0, 1, "horizon", 1.39e5, 1.8e5))
] + [
    dict(name="listed", fn=listed([(2, 0, 1), (2, 5000, 2), (32.5, 0, 1), (75, 100, 2), (150.0, 500.0, 1), (225, 52000, 1), (500, 78000, 2), (24500.0, 300000.0, 1), (550000.0, 0.0, 2), (7000, 295000, 1)]),
         bounds="10 keys, any record contents"),
    dict(name="missing", fn=missing, bounds="9 keys that are not in the database"),
    dict(name="history", fn=history, bounds="8 lookups of 3 keys with failures between"),
]
OUTSIDE = ("The record files themselves; keys where both altitude and ground range are arbitrary at once (one is fixed per case); ground ranges outside the five bands.")
ASSUMPTIONS = ["np.fromfile is replaced by a stand-in that returns synthetic records (the real ones are git-lfs pointers in this tree)"]
