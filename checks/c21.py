"""The atmosphere a scenario serves, over every history of changes and reads of bounded length.

The database loaders are replaced by ones that return a table naming the key (and kind of lookup) it was asked for.
Each step of a history is an arbitrary choice, the values set are arbitrary; the histories are explored as paths."""
import numpy as np

from . import spec

m = spec.m


class World:
    def __init__(self, h, n=1, interp=(False,)):
        self.h = h
        self.bad = []
        U = h.pb.utils

        def loader(tag):
            def load(altitude, ground_range, ihaze):
                if ihaze == 7:
                    raise IndexError("no such haze")
                return h.arr([[altitude, ground_range, float(ihaze), tag], [altitude, ground_range, float(ihaze), tag]])
            return load
        h.patch_everywhere(U.load_database_atmosphere, loader(1.0))
        h.patch_everywhere(U.load_database_atmosphere_no_interp, loader(0.0))
        self.s, self.state = [], []
        for i in range(n):
            a, g = h.real("alt%d" % i, 1.0, 1e6), h.real("gr%d" % i, 0.0, 1e7)
            kw = {} if interp[i] is None else dict(interp=interp[i])
            self.s.append(h.pb.Scenario("s%d" % i, 1, a, g, **kw))
            self.state.append(dict(altitude=a, ground_range=g, ihaze=1, mode=1.0 if interp[i] else 0.0))

    def read(self, i, label):
        h, st = self.h, self.state[i]
        try:
            t = self.s[i].atm
        except IndexError:
            h.true(st["ihaze"] == 7, label, "the lookup failed for a key it has")
            return
        h.true(st["ihaze"] != 7, label, "a table was served although the lookup of the current parameters fails")
        h.true(np.shape(t) == (2, 4), label + " shape")
        for r in range(2):
            h.close(t[r, 0], st["altitude"], label + ": altitude of the atmosphere served")
            h.close(t[r, 1], st["ground_range"], label + ": ground range of the atmosphere served")
            h.close(t[r, 2], float(st["ihaze"]), label + ": haze of the atmosphere served")
            h.close(t[r, 3], st["mode"], label + ": kind of lookup")

    def put(self, i, k, v):
        setattr(self.s[i], k, v)
        self.state[i][k] = v

    def params(self, label):
        h = self.h
        for s, st in zip(self.s, self.state):
            h.close(s.altitude, st["altitude"], label + " altitude")
            h.close(s.ground_range, st["ground_range"], label + " ground range")
            h.true(s.ihaze == st["ihaze"], label + " haze")


def pick(x, n):
    """which of n equal parts of [0, n] the arbitrary number x falls into"""
    for k in range(1, n):
        if x < k:
            return k - 1
    return n - 1


def step(w, i, op, k):
    h = w.h
    if op == 0:
        w.read(i, "read %d" % k)
    elif op == 1:
        w.put(i, "altitude", h.real("alt_%d" % k, 1.0, 1e6))
    elif op == 2:
        w.put(i, "ground_range", h.real("gr_%d" % k, 0.0, 1e7))
    elif op == 3:
        w.put(i, "ihaze", 3 - w.state[i]["ihaze"] if w.state[i]["ihaze"] != 7 else 1)
    else:
        w.put(i, "ihaze", 7)


def histories(n, interp=False, fail=False):
    def case(h):
        w = World(h, 1, (interp,))
        nop = 5 if fail else 4
        for k in range(n):
            step(w, 0, pick(h.real("op%d" % k, 0.0, float(nop)), nop), k)
        w.read(0, "final read")
        w.params("final")
        w.read(0, "final read again")
    return case


def two(n):
    def case(h):
        w = World(h, 2, (False, True))
        for k in range(n):
            c = pick(h.real("op%d" % k, 0.0, 8.0), 8)
            step(w, c % 2, c // 2, k)
        w.read(0, "final read of the first")
        w.read(1, "final read of the second")
        w.params("final")
    return case


def back(h):
    """returning to an earlier value is a change too; so is setting the value it has"""
    w = World(h)
    a, b = w.state[0]["altitude"], h.real("other", 1.0, 1e6)
    w.read(0, "first")
    for k, v in enumerate((b, a, a, b)):
        w.put(0, "altitude", v)
        if k != 1:
            w.read(0, "after %d" % k)
    w.put(0, "ground_range", w.state[0]["ground_range"])
    w.read(0, "same ground range")
    w.put(0, "ihaze", 2)
    w.put(0, "ihaze", 1)
    w.read(0, "haze there and back")


def same_table(h):
    """reads without a change in between agree"""
    w = World(h, 1, (None,))
    x, y = w.s[0].atm, w.s[0].atm
    for i in range(2):
        h.close(y[i], x[i], "second read")
    w.read(0, "default mode")


CASES = [
    dict(name="histories-3", fn=histories(3), bounds="every history of 3 changes or reads, then two reads", max_paths=2000),
    dict(name="histories-4", fn=histories(4), bounds="every history of 4", max_paths=2000, weight=5),
    dict(name="histories-interp-3", fn=histories(3, True), bounds="every history of 3, interpolating scenario", max_paths=2000),
    dict(name="histories-fail-3", fn=histories(3, False, True), bounds="every history of 3 including changes to a key the database lacks", max_paths=2000),
    dict(name="two-2", fn=two(2), bounds="every history of 2 over two scenarios", max_paths=2000),
    dict(name="two-3", fn=two(3), bounds="every history of 3 over two scenarios", max_paths=2000, weight=5),
    dict(name="histories-5", fn=histories(5), bounds="every history of 5", max_paths=5000, tier="thorough"),
    dict(name="two-4", fn=two(4), bounds="every history of 4 over two scenarios", max_paths=9000, tier="thorough"),
    dict(name="back", fn=back, bounds="fixed history with repeated values"),
    dict(name="same-table", fn=same_table, bounds="two reads"),
]
OUTSIDE = "Histories longer than 4 (5 in the thorough tier); writing to private attributes; writing into the table served."
ASSUMPTIONS = ["the database loaders are replaced by stand-ins that name their key; C19 and C20 check the loaders"]
