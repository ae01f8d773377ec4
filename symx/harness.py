"""Run a harness case symbolically over all paths, discharge its obligations with
the solver, replay every candidate on the unpatched code, validate witnesses."""
from __future__ import annotations

import contextlib
import importlib
import importlib.machinery
import io
import json
import logging
import math
import os
import random
import sys
import time
import traceback
import types
import warnings

import numpy as np

from . import ctx as C
from . import npmodel as N
from . import terms as t
from . import values as V
from .ctx import PathAbort, Engine, solve
from .values import SF, SC, SymArray, NeedConcrete, is_sym
from .terms import Unsupported

REPO = os.environ.get("PYBSM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
MODS = ["pybsm", "pybsm.geospatial", "pybsm.noise", "pybsm.utils", "pybsm.otf", "pybsm.otf.functional", "pybsm.otf.otf",
        "pybsm.radiance", "pybsm.radiance.functional", "pybsm.radiance.snr_metrics", "pybsm.metrics", "pybsm.metrics.functional",
        "pybsm.metrics.metrics", "pybsm.simulation", "pybsm.simulation.functional", "pybsm.simulation.ref_image",
        "pybsm.simulation.scenario", "pybsm.simulation.sensor"]

_CODE = {}
_orig_get_code = importlib.machinery.SourceFileLoader.get_code


def _get_code(self, fullname):
    if fullname.startswith("pybsm"):
        c = _CODE.get(fullname)
        if c is None:
            path = self.get_filename(fullname)
            with open(path, "rb") as fh:
                c = compile(fh.read(), path, "exec", dont_inherit=True)
            _CODE[fullname] = c
        return c
    return _orig_get_code(self, fullname)


importlib.machinery.SourceFileLoader.get_code = _get_code
if SRC not in sys.path:
    sys.path.insert(0, SRC)
sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in getattr(f, "__module__", "") and "editable" not in repr(f).lower()]

SEEN_LINES = {}
_mon = False


def start_monitor():
    global _mon
    if _mon:
        return
    _mon = True
    m = sys.monitoring
    m.use_tool_id(3, "symx")

    def on_line(code, line):
        fn = code.co_filename
        if fn.startswith(SRC):
            SEEN_LINES.setdefault((os.path.relpath(fn, SRC), code.co_qualname, code.co_firstlineno), set()).add(line)
        return m.DISABLE
    m.register_callback(3, m.events.LINE, on_line)
    m.set_events(3, m.events.LINE)


class AssertFail(Exception):
    def __init__(self, label, msg):
        msg = msg if len(msg) < 400 else msg[:400] + "..."
        super().__init__("%s: %s" % (label, msg))
        self.label = label
        self.msg = msg


class NS(types.SimpleNamespace):
    pass


def _stack(context=1):
    import inspect
    f = sys._getframe(1)
    out = []
    while f is not None:
        out.append(inspect.FrameInfo(f, f.f_code.co_filename, f.f_lineno, f.f_code.co_name, None, None))
        f = f.f_back
    return out


def fresh_modules():
    for k in [k for k in sys.modules if k == "pybsm" or k.startswith("pybsm.")]:
        del sys.modules[k]
    import inspect
    keep = inspect.stack
    inspect.stack = _stack      # modules call inspect.stack() at import; the real one is slow
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for m in MODS:
                importlib.import_module(m)
    finally:
        inspect.stack = keep
    # anything else the package ships now
    g = sys.modules
    f = g["pybsm"].__file__
    if not f.startswith(SRC):
        raise RuntimeError("pybsm imported from %s" % f)
    return NS(geo=g["pybsm.geospatial"], noise=g["pybsm.noise"], utils=g["pybsm.utils"], otf=g["pybsm.otf.functional"], OTF=g["pybsm.otf"].OTF,
              rad=g["pybsm.radiance.functional"], SNR=g["pybsm.radiance"].SNRMetrics, met=g["pybsm.metrics.functional"],
              Metrics=g["pybsm.metrics"].Metrics, sim=g["pybsm.simulation.functional"], Sensor=g["pybsm.simulation"].Sensor,
              Scenario=g["pybsm.simulation"].Scenario, RefImage=g["pybsm.simulation"].RefImage, otfpkg=g["pybsm.otf"], radpkg=g["pybsm.radiance"],
              metpkg=g["pybsm.metrics"], simpkg=g["pybsm.simulation"])


class Math:
    """polymorphic elementary functions for specifications"""

    pi = math.pi
    sqrt = staticmethod(V.sc_sqrt)
    exp = staticmethod(V.sc_exp)
    sin = staticmethod(V.sc_sin)
    cos = staticmethod(V.sc_cos)
    tan = staticmethod(V.sc_tan)
    acos = staticmethod(V.sc_acos)
    asin = staticmethod(V.sc_asin)
    atan = staticmethod(V.sc_atan)
    log10 = staticmethod(V.sc_log10)
    log = staticmethod(V.sc_log)
    pow = staticmethod(V.sc_pow)
    sinc = staticmethod(V.sc_sinc)
    jn = staticmethod(V.sc_jn)
    max = staticmethod(V.sc_max)
    min = staticmethod(V.sc_min)
    abs = staticmethod(V.sc_abs)
    is_sym = staticmethod(is_sym)


class H:
    """what a case sees; self.sym tells which world it runs in"""

    def __init__(self, sym, env=None, eng=None):
        self.sym = sym
        self.env = env
        self.eng = eng
        self.m = Math
        self.obl = []       # symbolic obligations
        self.trace = []     # (label, value) for translation validation
        self.undo = []
        self.pb = None
        self.nassert = 0
        self.scratch = {}

    # inputs -----------------------------------------------------------
    def real(self, name, lo, hi, kind="lin", nonzero=False, py=True):
        if self.sym:
            p = self.eng.declare(name, lo, hi, kind, nonzero)
            return SF(p, not py)
        v = self.env.get(name)
        if v is None:       # a counterexample found before this input was reached: any value will do
            v = lo + 0.375 * (hi - lo) if lo * hi <= 0 or hi < 100 * abs(lo) or lo < 0 else (lo * hi) ** 0.5
            self.env[name] = v
        return float(v) if py else np.float64(v)

    def vec(self, name, n, lo, hi, **k):
        return self.arr([self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)])

    def inc(self, name, n, lo, hi, dlo, dhi):
        """strictly increasing vector"""
        x = self.real(name + "0", lo, hi)
        out = [x]
        for i in range(1, n):
            x = x + self.real("%s_d%d" % (name, i), dlo, dhi)
            out.append(x)
        return self.arr(out)

    def mat(self, name, r, c, lo, hi, **k):
        return self.arr([self.real("%s%d_%d" % (name, i, j), lo, hi, **k) for i in range(r) for j in range(c)]).reshape(r, c)

    def arr(self, lst):
        """1-D (or nested) array"""
        a = np.empty(len(lst), dtype=object)
        if lst and isinstance(lst[0], (list, tuple, np.ndarray)):
            rows = [self.arr(list(x)) for x in lst]
            return np.stack(rows)
        if self.sym:
            return V.mkarr([V.npkind(x) for x in lst])
        return np.array([float(x) for x in lst])

    def assume(self, a, op, b):
        if self.sym:
            if not is_sym(a) and not is_sym(b):
                if not {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]:
                    raise PathAbort()
                return
            self.eng.assume(t.add(V.poly(a), V.poly(b), -1.0), op)
        else:
            ok = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
            if not ok:
                raise PathAbort()

    # environment -------------------------------------------------------
    def patch(self, obj, attr, new):
        old = getattr(obj, attr)
        self.undo.append((obj, attr, old))
        setattr(obj, attr, new)

    def patch_everywhere(self, old, new):
        """replace every module-level reference to `old` inside pybsm"""
        n = 0
        for name, mod in list(sys.modules.items()):
            if (name == "pybsm" or name.startswith("pybsm.")) and mod is not None:
                for k, v in list(vars(mod).items()):
                    if v is old:
                        self.undo.append((mod, k, old))
                        setattr(mod, k, new)
                        n += 1
        if not n:
            raise RuntimeError("nothing to patch")

    def restore(self):
        for o, a, v in reversed(self.undo):
            setattr(o, a, v)
        self.undo = []

    # assertions ----------------------------------------------------------
    def true(self, cond, label, msg=""):
        self.nassert += 1
        if not cond:
            raise AssertFail(label, msg or "condition is false")

    def close(self, a, b, label, rtol=1e-9, atol=0.0):
        """|a-b| <= rtol*|b| + atol, element-wise; shapes must agree"""
        if isinstance(a, (list, tuple)):
            a = self.arr(list(a))
        if isinstance(b, (list, tuple)):
            b = self.arr(list(b))
        aa = isinstance(a, np.ndarray) and a.ndim > 0
        ba = isinstance(b, np.ndarray) and b.ndim > 0
        if aa or ba:
            sa, sb = np.shape(a), np.shape(b)
            if sa != sb:
                raise AssertFail(label, "shape %s != expected %s" % (sa, sb))
            fa, fb = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
            for i in range(fa.size):
                self._close1(fa[i], fb[i], "%s[%d]" % (label, i), rtol, atol)
            return
        if isinstance(a, np.ndarray):
            a = a[()]
        if isinstance(b, np.ndarray):
            b = b[()]
        self._close1(a, b, label, rtol, atol)

    def _close1(self, a, b, label, rtol, atol):
        self.nassert += 1
        if V._cx(a) or V._cx(b):
            (ar, ai), (br, bi) = V._parts(a), V._parts(b)
            mag = 0.0
            self._close1(ar, br, label + ".re", rtol, atol)
            self._close1(ai, bi, label + ".im", rtol, atol + (rtol if not is_sym(ai) else 0.0))
            return
        if a is None or b is None or isinstance(a, str):
            raise AssertFail(label, "value %r, expected %r" % (a, b))
        self.trace.append((label, a, atol))
        if not is_sym(a) and not is_sym(b):
            a, b = float(a), float(b)
            if a != a or b != b or math.isinf(a) or math.isinf(b):
                if (a != a and b != b) or a == b:
                    return
                raise AssertFail(label, "value %r, expected %r" % (a, b))
            if abs(a - b) <= rtol * abs(b) + atol:
                return
            if self.sym and abs(a - b) <= 1e-6 * max(abs(a), abs(b)):
                # folded constants: judged on the concrete run
                if abs(a - b) <= 2 * rtol * abs(b) + atol:
                    return
            raise AssertFail(label, "value %r, expected %r" % (a, b))
        for x in (a, b):
            if not is_sym(x) and not math.isfinite(x):
                raise AssertFail(label, "value %s, expected %s" % (a, b))
        self.obl.append(("close", label, V.poly(a), V.poly(b), rtol, atol))

    def le(self, a, b, label, tol=0.0):
        """a <= b + tol (elementwise)"""
        if isinstance(a, np.ndarray) and a.ndim or isinstance(b, np.ndarray) and b.ndim:
            shp = np.broadcast(np.asarray(a, dtype=object), np.asarray(b, dtype=object)).shape
            fa = np.broadcast_to(np.asarray(a, dtype=object), shp).reshape(-1)
            fb = np.broadcast_to(np.asarray(b, dtype=object), shp).reshape(-1)
            for i in range(fa.size):
                self.le(fa[i], fb[i], "%s[%d]" % (label, i), tol)
            return
        self.nassert += 1
        if not is_sym(a) and not is_sym(b):
            if not (float(a) <= float(b) + tol):
                raise AssertFail(label, "%r <= %r is false" % (a, b))
            return
        for x in (a, b):
            if not is_sym(x) and not math.isfinite(x):
                if (x is b and x > 0) or (x is a and x < 0):
                    return
                raise AssertFail(label, "%s <= %s is false" % (a, b))
        self.obl.append(("le", label, V.poly(a), V.poly(b), 0.0, tol))

    def raises(self, exc, fn, label):
        self.nassert += 1
        try:
            fn()
        except exc:
            return
        except (PathAbort, NeedConcrete, Unsupported):
            raise
        except Exception as ex:
            raise AssertFail(label, "raised %s instead of %s" % (type(ex).__name__, exc))
        raise AssertFail(label, "did not raise %s" % (exc,))

    def unchanged(self, before, after, label):
        """before: snapshot made by self.snap"""
        for k, (x, y) in enumerate(zip(before, after)):
            y = self.snap1(y)
            if isinstance(x, list) and isinstance(y, list):
                if len(x) != len(y):
                    raise AssertFail(label, "input %d changed shape" % k)
                for i, (p, q) in enumerate(zip(x, y)):
                    if not same(p, q):
                        raise AssertFail(label, "input %d element %d changed from %s to %s" % (k, i, p, q))
            elif not same(x, y):
                raise AssertFail(label, "input %d changed from %s to %s" % (k, x, y))
        self.nassert += 1

    def fresh(self, prepare=None):
        """a second, newly imported copy of the package; prepare(modules) may substitute parts of it"""
        keep = {k: v for k, v in sys.modules.items() if k == "pybsm" or k.startswith("pybsm.")}
        try:
            ns = fresh_modules()
            if self.sym:
                inject_globals()
            if prepare is not None:
                prepare(ns)
            return ns
        finally:
            for k in [k for k in sys.modules if k == "pybsm" or k.startswith("pybsm.")]:
                del sys.modules[k]
            sys.modules.update(keep)

    def snap1(self, x):
        if isinstance(x, np.ndarray):
            return [x.shape] + list(np.array(x, dtype=object).reshape(-1))
        if isinstance(x, (list, tuple)):
            return list(x)
        return x

    def snap(self, *xs):
        return [self.snap1(x) for x in xs]

    def f(self, x):
        """a plain float in concrete mode, unchanged otherwise"""
        return x


def same(p, q):
    if p is q:
        return True
    if is_sym(p) or is_sym(q):
        if isinstance(p, SF) and isinstance(q, SF):
            d = t.add(p.p, q.p, -1.0)
            return not d.d
        return False
    try:
        return bool(p == q) or (p != p and q != q)
    except Exception:
        return False


@contextlib.contextmanager
def quiet():
    lvl = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        so = sys.stdout
        try:
            yield
        finally:
            logging.disable(lvl)


@contextlib.contextmanager
def patched():
    ps = N.patches()
    saved = [(o, a, getattr(o, a)) for o, a, _ in ps]
    for o, a, v in ps:
        setattr(o, a, v)
    of = np.float64
    try:
        yield
    finally:
        for o, a, v in saved:
            setattr(o, a, v)


def inject_globals():
    for name, mod in list(sys.modules.items()):
        if (name == "pybsm" or name.startswith("pybsm.")) and mod is not None:
            for k, v in N.GLOBALS.items():
                if k not in vars(mod):
                    setattr(mod, k, v)


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.asserts = 0
        self.witness = 0
        self.weak = 0
        self.stats = None
        self.violation = None
        self.inconclusive = []
        self.concretised = []
        self.sample = None
        self.wall = 0.0
        self.lines = {}
        self.unreproduced = 0

    def as_dict(self):
        return dict(self.__dict__)


def concrete_run(fn, env, collect=None):
    """run the case on the real, unpatched code; returns None or (label, message)"""
    h = H(False, env=dict(env))
    with quiet():
        h.pb = fresh_modules()
        try:
            fn(h)
        except AssertFail as ex:
            return ("assert", ex.label, ex.msg)
        except PathAbort:
            return ("abort", "", "")
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            inside = any(f.filename.startswith(SRC) for f in tb)
            return ("raise", type(ex).__name__, "%s (%s)" % (ex, "in pybsm" if inside else "in harness"))
        finally:
            h.restore()
    if collect is not None:
        collect.append(h)
    return None


def run_case(case, seed=1, tier="quick", log=None):
    """case: dict(name, fn, ...)"""
    fn = case["fn"]
    res = Result(case["name"])
    t0 = time.time()
    t.reset()
    V.C = C
    eng = Engine(seed=seed, max_paths=case.get("max_paths", 400), timeout=case.get("timeout", 5000), fp_slack=case.get("fp_slack", 0.0))
    eng.decimate = case.get("decimate", 9)
    eng.pool = [dict() for _ in range(Engine.NS)]
    res.stats = eng.stats
    C.set_engine(eng)
    start_monitor()
    work = [[]]
    rounding = bool(eng.fp_slack)
    deadline = t0 + case.get("budget", 240)
    qlog = []
    conc_why = None
    while work:
        if time.time() > deadline:
            res.inconclusive.append("time budget exhausted with %d paths pending" % len(work))
            break
        if res.paths >= eng.max_paths:
            res.inconclusive.append("path limit reached")
            break
        prefix = work.pop()
        eng.start(prefix)
        h = H(True, eng=eng)
        cand = None
        done = False
        try:
            with patched(), quiet():
                h.pb = fresh_modules()
                inject_globals()
                try:
                    fn(h)
                    done = True
                finally:
                    h.restore()
        except PathAbort:
            res.infeasible += 1
        except (NeedConcrete, Unsupported) as ex:
            conc_why = "%s: %s" % (type(ex).__name__, ex)
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
            break
        except AssertFail as ex:
            cand = ("assert", ex.label, ex.msg)
        except RecursionError:
            raise
        except Exception as ex:
            cand = ("raise", type(ex).__name__, str(ex))
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
        work.extend(eng.alts)
        if not done and cand is None:
            continue
        res.paths += 1
        res.asserts += h.nassert
        eng.stats.assertions += h.nassert
        if cand is None:
            cand = discharge(eng, h, res, fn, qlog, tier)
            if cand is False:
                cand = None
        elif cand:
            cand = confirm(eng, fn, cand, res, [], deadline)
        if isinstance(cand, dict):
            if cand.get("violation"):
                res.violation = cand
                break
            if cand.get("infeasible"):
                res.infeasible += 1
                continue
            if rounding:
                res.unreproduced += 1
            elif cand.get("engine"):
                conc_why = cand["why"]
                break
            else:
                res.inconclusive.append(cand["why"])
            continue
        # witness: translation validation + vacuity guard
        if eng.samples and not (rounding and eng.notes):
            w = None
            for e in eng.samples[:(3 if res.paths <= 12 else 1)]:
                w = witness(eng, h, fn, res, e)
                if w is not None:
                    break
            if w is not None:
                if w.get("violation"):
                    res.violation = w
                    break
                res.inconclusive.append(w["why"])
        else:
            res.weak += 1
        if res.sample is None and eng.samples:
            res.sample = {"inputs": {k: float("%.6g" % v) for k, v in list(eng.samples[0].items())[:12]},
                          "path": ["%s %s 0" % (t.show(p), op) for p, op in eng.path[:6]], "assertions": h.nassert}
    if conc_why is not None and res.violation is None:
        concretise(eng, fn, res, conc_why)
    if tier == "thorough":
        for zs in qlog[:12]:
            try:
                r = C.cross_check(zs)
                eng.stats.cross += 1
                if r == "sat":
                    eng.stats.cross_disagree += 1
                    res.inconclusive.append("cvc5 disagrees with z3 on a discharged query")
            except Exception:
                pass
    C.set_engine(None)
    res.wall = time.time() - t0
    res.lines = {k: sorted(v) for k, v in SEEN_LINES.items()}
    if res.paths == 0 and not res.concretised and res.violation is None:
        res.inconclusive.append("no feasible path (vacuous)")
    res.stats = eng.stats.as_dict()
    return res


def concretise(eng, fn, res, why):
    """an operation could not be encoded: pin the inputs to solver-chosen points"""
    eng.path = []
    n = 0
    for k in range(24):
        env = dict(eng.pool[k % len(eng.pool)])
        for name, v in eng.vars.items():
            env.setdefault(name, v.sample(eng.rng))
        hints = [(nm, x - 1e-3 * abs(x), x + 1e-3 * abs(x)) for nm, x in env.items()]
        for nm in eng.vars:
            pass
        r = concrete_run(fn, env)
        n += 1
        if r is not None and r[0] == "assert":
            res.violation = {"violation": True, "label": r[1], "msg": r[2], "env": env, "kind": r[0]}
            return
        if r is not None and r[0] == "raise":
            res.violation = {"violation": True, "label": r[1], "msg": r[2], "env": env, "kind": r[0]}
            return
    res.concretised.append({"reason": why, "points": n})


def _viol_cons(o):
    kind, label, a, b, rtol, atol = o
    d = t.add(a, b, -1.0)
    if kind == "le":
        return lambda em: em.poly(d) > em.num(atol * 1.0 + 1e-300 if atol else 0.0)

    def mk(em):
        import z3
        zd = em.poly(d)
        zb = em.poly(b)
        tol = em.num(rtol * 1.05)
        lim = tol * z3.If(zb >= 0, zb, -zb) + em.num(atol * 1.05)
        return z3.Or(zd > lim, -zd > lim)
    return mk


def _trivial(o):
    """normal form already decides the obligation"""
    kind, label, a, b, rtol, atol = o
    d = t.add(a, b, -1.0)
    if not d.d:
        return True
    if kind == "le":
        lo, hi = t.iv(d)
        return hi <= atol
    f = [1.0]
    try:
        r = t.reduce_zero(d, factor=f)
    except Unsupported:
        r, f = d, [1.0]
    if not r.d:
        return True
    lo, hi = t.iv(d)
    bl, bh = t.iv(b)
    mb = 0.0 if bl <= 0 <= bh else min(abs(bl), abs(bh))
    tol = rtol * mb + atol
    if max(abs(lo), abs(hi)) <= tol:
        return True
    lo, hi = t.iv(r)
    return f[0] > 0.0 and max(abs(lo), abs(hi)) <= tol * f[0]


def discharge(eng, h, res, fn, qlog, tier):
    """prove every obligation of this path; returns None/False or a candidate dict"""
    triv = []
    hard = []
    for o in h.obl:
        (triv if _trivial(o) else hard).append(o)
    if triv:
        # one batched query: the negation of all of them on this path
        import z3

        def allneg(em):
            out = []
            for o in triv[:400]:
                kind, label, a, b, rtol, atol = o
                d = t.add(a, b, -1.0)
                if d.d:
                    try:
                        r = t.reduce_zero(d)
                    except Unsupported:
                        r = d
                    if not r.d:
                        d = r
                if len(a.d) > 150 or len(b.d) > 150:
                    continue
                if not d.d and kind != "le":
                    b = a  # coefficients agree to the stated tolerance
                if d.d:
                    # settled by clearing denominators or by interval arithmetic
                    if full and len(d.d) < 25:
                        out.append(em.poly(d) > em.num(atol + 1e-9) if kind == "le" else _viol_cons(o)(em))
                    continue
                za, zb = em.poly(a), em.poly(b)
                out.append(za != zb if kind != "le" else za > zb + em.num(atol))
            return z3.Or(out) if out else z3.BoolVal(False)
        full = True
        r, env, (em, zs) = solve(eng.path + [allneg], timeout=600, stats=eng.stats)
        if r != "unsat":
            full = False
            r, env, (em, zs) = solve([allneg], timeout=4000, stats=eng.stats)
        if r != "unsat":
            # coefficients that agree only up to rounding: decide each one with its tolerance
            hard = [o for o in triv if t.add(o[2], o[3], -1.0).d or o[2].d != o[3].d] + hard
        else:
            qlog.append(zs)
    for o in hard:
        r = prove(eng, o, fn, res, qlog)
        if r is not None:
            return r
    return None


def prove(eng, o, fn, res, qlog):
    vc = _viol_cons(o)
    kind, label, a, b, rtol, atol = o
    if any(op == "==" for _, op in eng.path):
        cs = eng.simplify(eng.margin(eng.path))
        if cs is None:
            return {"infeasible": True, "why": "path infeasible"}
        if True:
            try:
                ch = eng.chain(eng.path)
                eng.frozen = True
                o2 = (kind, label, t.simp(t.apply_subst(a, ch)), t.simp(t.apply_subst(b, ch)), rtol, atol)
                r, env, (em, zs) = ("unsat", None, (None, None)) if _trivial(o2) else \
                    solve(cs + [_viol_cons(o2)], timeout=eng.timeout, stats=eng.stats)
                if r == "unsat":
                    if zs is not None and len(qlog) < 60:
                        qlog.append(zs)
                    return None
            except (Unsupported, ZeroDivisionError, OverflowError, ValueError):
                pass
            finally:
                eng.frozen = False
    r, env, (em, zs) = solve(eng.margin(eng.path) + [vc], timeout=eng.timeout, stats=eng.stats)
    if r == "unsat":
        if len(qlog) < 60:
            qlog.append(zs)
        return None
    # sat or unknown: look for a concrete reproduction
    envs = []
    if env is not None:
        envs.append(eng.complete(env))
    # points of this path that violate under the true functions first
    d = t.add(a, b, -1.0)

    def badness(e):
        try:
            dv = t.evalp(d, e)
            bv = t.evalp(b, e)
        except (ValueError, OverflowError, ZeroDivisionError):
            return -1.0
        if dv != dv or bv != bv:
            return -1.0
        if kind == "le":
            return dv - atol
        return abs(dv) - (rtol * 1.05 * abs(bv) + atol * 1.05)
    scored = sorted(((badness(e), i) for i, e in enumerate(eng.samples)), reverse=True)
    envs += [eng.samples[i] for s, i in scored[:6] if s > 0]
    c = confirm(eng, fn, ("assert", label, "obligation refuted (%s)" % r), res, envs, None, goal=vc)
    if c.get("violation"):
        return c
    if r == "sat":
        # refine: numeric ascent from the path's points, then give up
        for _ in range(200):
            if not eng.samples:
                break
            e = dict(eng.rng.choice(eng.samples))
            for n, v in eng.vars.items():
                if eng.rng.random() < 0.5:
                    e[n] = v.sample(eng.rng)
            if eng.satisfies(e, eng.path) and badness(e) > 0:
                c = confirm(eng, fn, ("assert", label, "refuted"), res, [e], None)
                if c.get("violation"):
                    return c
    if os.environ.get("SYMX_DEBUG"):
        print("UNPROVED", label, r, "samples", len(eng.samples))
        for q, op in eng.path:
            print("   path", t.show(q, 5), op)
        print("   a-b", t.show(d, 5))
        print("   b", t.show(b, 5))
        print("   env", env)
    return {"why": "%s: %s, no counterexample reproduced" % (label, "solver model spurious" if r == "sat" else "solver: unknown")}


def confirm(eng, fn, cand, res, envs, deadline, goal=None):
    """reproduce a candidate on the real code"""
    kind, label, msg = cand
    tried = 0
    envs = list(envs)
    if not envs:
        envs = [dict(e) for e in eng.samples[:6]]
    if len(envs) < 4 or goal is not None:
        cons = eng.margin(eng.path) + ([goal] if goal is not None else [])
        for k in range(4):
            hints = []
            for n, v in eng.vars.items():
                x = v.sample(eng.rng)
                w = 0.15 * abs(x) + 1e-9
                hints.append((n, x - w, x + w))
            r, env, _ = solve(cons, hints=hints, timeout=min(3000, eng.timeout), stats=eng.stats)
            if r == "unsat":
                if goal is None and not eng.samples:
                    return {"infeasible": True, "why": "path infeasible"}
                break
            if env is not None:
                envs.append(eng.complete(env))
    if eng.fp_slack:
        for k in range(60):
            if not envs:
                break
            envs.append(jiggle(eng, envs[k % max(1, min(6, len(envs)))]))
    last = None
    for e in envs:
        full = dict(e)
        for n, v in eng.vars.items():
            full.setdefault(n, v.sample(eng.rng))
        r = concrete_run(fn, full)
        tried += 1
        if r is not None and r[0] in ("assert", "raise"):
            if r[0] == "raise" and "in harness" in r[2] and kind != "raise":
                last = r
                continue
            return {"violation": True, "label": r[1], "msg": r[2], "env": full, "kind": r[0]}
        last = r
    return {"why": "candidate not reproduced (%s %s %s; tried %d points; last %s)" % (kind, label, msg, tried, last),
            "engine": kind == "raise"}


def jiggle(eng, e):
    """new random values for free variables, equality path constraints re-solved"""
    hints = []
    for n, v in eng.vars.items():
        x = v.sample(eng.rng)
        hints.append((n, x - 0.02 * abs(x) - 1e-12, x + 0.02 * abs(x) + 1e-12))
    eng.rng.shuffle(hints)
    r, env, _ = solve(eng.path, hints=hints, timeout=2000, stats=eng.stats)
    if env is None:
        return e
    return eng.complete(env)


def witness(eng, h, fn, res, e):
    e = dict(e)
    for n, v in eng.vars.items():
        e.setdefault(n, v.sample(eng.rng))
    col = []
    r = concrete_run(fn, e, col)
    if r is not None:
        if r[0] == "abort":
            return None
        if r[0] == "raise" and "in harness" in r[2]:
            return {"why": "harness error on witness: %s" % (r,)}
        # try neighbours to rule out a knife-edge
        return {"violation": True, "label": r[1], "msg": r[2], "env": e, "kind": r[0]}
    hc = col[0]
    memo = {}
    n = 0
    if len(hc.trace) == len(h.trace):
        for (l1, a, tol), (l2, c, _) in zip(h.trace, hc.trace):
            if isinstance(a, SF) and not is_sym(c):
                try:
                    v = t.evalp(a.p, e, memo)
                except (ValueError, OverflowError, ZeroDivisionError):
                    continue
                if v != v:
                    continue
                c = float(c)
                if abs(v - c) > tol + 1e-6 * max(abs(v), abs(c)) + 1e-9 * max(1e-30, max(abs(float(x)) if not is_sym(x) else 0 for _, x, _ in hc.trace[:50])):
                    return {"why": "encoding mismatch at %s: symbolic %r, concrete %r, inputs %s" % (l1, v, c, e)}
                n += 1
    res.witness += 1
    return None
