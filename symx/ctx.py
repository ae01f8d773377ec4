"""Path exploration context and the SMT back end."""
from __future__ import annotations

import math
import os
import random
import time
from fractions import Fraction

from . import terms as t
from .terms import P, T, Unsupported

import z3


class PathAbort(BaseException):
    """Abandon the current path (infeasible or assumption false)."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.assertions = 0
        self.cross = 0
        self.cross_disagree = 0

    def as_dict(self):
        return dict(self.__dict__)


OPS = ("<", "<=", "==", ">", ">=", "!=")


def holds(v, op, slack=0.0):
    if v != v:
        return False
    if op == "<":
        return v < 0
    if op == "<=":
        return v <= 0
    if op == ">":
        return v > 0
    if op == ">=":
        return v >= 0
    if op == "==":
        return v == 0
    return v != 0


NEG = {"<": ">=", "<=": ">", "==": "!=", ">": "<=", ">=": "<", "!=": "=="}


class Emit:
    """Translate terms into z3 reals plus axioms for the atoms they reach."""

    def __init__(self, lemmas=()):
        self.vars = {}
        self.ax = []
        self.roots = {}
        self.invs = {}
        self.exps = {}
        self.done = set()
        self.groups = {}

    def num(self, c):
        if c == int(c) and abs(c) < 1e15:
            return z3.RealVal(int(c))
        f = Fraction(c)
        # shorten where harmless: keep 17 significant digits (exact value of the float)
        return z3.Q(f.numerator, f.denominator)

    def poly(self, p):
        terms = []
        for m, c in p.d.items():
            terms.append(self.mono(m, c))
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def mono(self, m, c):
        fs = []
        eg = []
        for a, e in m:
            at = T.atoms[a]
            if at.kind == "e":
                eg.append((a, e))
            else:
                fs.append(self.apow(at, e))
        if eg:
            fs.append(self.expgroup(tuple(eg)))
        k = self.num(c)
        if not fs:
            return k
        r = fs[0]
        for x in fs[1:]:
            r = r * x
        if c == 1.0:
            return r
        return k * r

    def apow(self, at, e):
        if isinstance(e, int) and e > 0:
            b = self.atom(at)
            r = b
            for _ in range(e - 1):
                r = r * b
            return r
        if isinstance(e, int):
            b = self.inv(at)
            r = b
            for _ in range(-e - 1):
                r = r * b
            return r
        f = Fraction(e)
        q = f.denominator
        b = self.root(at, q)
        n = f.numerator
        if n < 0:
            b = self.invof(b, ("r", at.id, q))
            n = -n
        r = b
        for _ in range(n - 1):
            r = r * b
        return r

    def inv(self, at):
        return self.invof(self.atom(at), ("a", at.id))

    def invof(self, b, key):
        i = self.invs.get(key)
        if i is None:
            i = z3.Real("inv_%s" % "_".join(map(str, key)))
            self.invs[key] = i
            self.ax.append(i * b == 1)
            lo, hi = t.aiv(T.atoms[key[1]])
            if lo >= 0:
                self.ax.append(i > 0)
        return i

    def root(self, at, q):
        key = (at.id, q)
        r = self.roots.get(key)
        if r is None:
            r = z3.Real("root%d_%d" % (q, at.id))
            self.roots[key] = r
            b = self.atom(at)
            x = r
            for _ in range(q - 1):
                x = x * r
            self.ax.append(x == b)
            self.ax.append(r >= 0)
        return r

    def expgroup(self, g):
        v = self.exps.get(g)
        if v is None:
            v = z3.Real("exp_%d" % len(self.exps))
            self.exps[g] = v
            arg = self.poly(P({((next(iter(T.atoms[a].poly.d)))): e for a, e in g}))
            self.ax.append(v > 0)
            self.ax.append(v >= 1 + arg)
            self.ax.append(v * (1 - arg) <= 1)
            for ov, oarg in self.groups.get("exp", []):
                self.ax.append(z3.Implies(arg <= oarg, v <= ov))
                self.ax.append(z3.Implies(arg >= oarg, v >= ov))
            if len(self.groups.setdefault("exp", [])) < 10:
                self.groups["exp"].append((v, arg))
            lo, hi = t.iv(P({((next(iter(T.atoms[a].poly.d)))): e for a, e in g}))
            self._bnd(v, t._e(lo), t._e(hi))
        return v

    def _bnd(self, v, lo, hi):
        if lo != -math.inf and lo == lo:
            self.ax.append(v >= self.num(lo))
        if hi != math.inf and hi == hi:
            self.ax.append(v <= self.num(hi))

    def atom(self, at):
        v = self.vars.get(at.id)
        if v is not None:
            return v
        if at.kind == "v":
            v = z3.Real("v_" + at.name)
            self.vars[at.id] = v
            lo, hi = T.bounds[at.id]
            self._bnd(v, lo, hi)
            if at.nonzero:
                self.ax.append(v != 0)
            return v
        if at.kind == "s":
            v = z3.Real("s_%d" % at.id)
            self.vars[at.id] = v
            self.ax.append(v == self.poly(at.poly))
            return v
        v = z3.Real("%s_%d" % (at.fn, at.id))
        self.vars[at.id] = v
        args = [self.poly(q) for q in at.args]
        self.axioms(at, v, args)
        return v

    def axioms(self, at, v, args):
        ax = self.ax
        fn = at.fn
        lo, hi = t.aiv(at)
        self._bnd(v, lo, hi)
        x = args[0] if args else None
        prev = self.groups.setdefault((fn, at.par), [])
        if fn in ("acos", "atan", "log", "floor"):
            for ov, ox in prev[:10]:
                if fn == "acos":
                    ax.append(z3.Implies(x <= ox, v >= ov))
                    ax.append(z3.Implies(x >= ox, v <= ov))
                else:
                    ax.append(z3.Implies(x <= ox, v <= ov))
                    ax.append(z3.Implies(x >= ox, v >= ov))
        else:
            for ov, ox in prev[:10]:
                ax.append(z3.Implies(x == ox, v == ov))
        prev.append((v, x))
        if fn == "cos":
            ax.append(z3.And(v >= -1, v <= 1))
            ax.append(2 * v >= 2 - x * x)
            self._pyth(at, v, "sin")
        elif fn == "sin":
            ax.append(z3.And(v >= -1, v <= 1))
            ax.append(v * v <= x * x)
            ax.append(z3.Implies(z3.And(x >= 0, x <= self.num(3.14159)), z3.And(v >= 0, v <= x)))
            ax.append(z3.Implies(x >= 0, v <= x))
            self._pyth(at, v, "cos")
        elif fn == "acos":
            pi2 = self.num(math.pi / 2)
            ax.append(z3.And(v >= 0, v <= self.num(3.1415926535898)))
            ax.append(v * v >= 1 - x * x)
            ax.append(v * v >= 2 * (1 - x))
            ax.append(z3.Implies(x >= 0, z3.And(v <= pi2 + self.num(1e-15), v * v <= self.num(2.4674011002723400) * (1 - x * x), v * v * x * x <= 1 - x * x)))
            ax.append(z3.Implies(x <= 0, v >= self.num(1.5707963267948)))
            ax.append(z3.Implies(x == 1, v == 0))
            ax.append(z3.Implies(x == -1, v == self.num(math.pi)))
            ax.append(z3.Implies(x == 0, v == pi2))
        elif fn == "atan":
            ax.append(v * v <= x * x)
            ax.append(z3.Implies(x >= 0, z3.And(v >= 0, v <= x)))
            ax.append(z3.Implies(x <= 0, z3.And(v <= 0, v >= x)))
        elif fn == "log":
            ax.append(v <= x - 1)
            ax.append(v * x >= x - 1)
        elif fn == "jn":
            if at.par == 0:
                ax.append(4 * v >= 4 - x * x)
            elif at.par == 1:
                ax.append(4 * v * v <= x * x)
        elif fn == "floor":
            ax.append(z3.And(v <= x, x < v + 1))
            for k in (-128, -1, 0, 1, 127, 128, 255, 256, 65535):
                ax.append(z3.Or(x < k, v >= k))
                ax.append(z3.Or(x >= k, v <= k - 1))

    def _pyth(self, at, v, other):
        key = (other, at.par, (t._pkey(at.args[0]),))
        for o in T.idx.get(key, []):
            if t._same(at.args[0], o.args[0]) and o.id in self.vars:
                self.ax.append(v * v + self.vars[o.id] * self.vars[o.id] == 1)

    def cons(self, p, op):
        e = self.poly(p)
        return {"<": e < 0, "<=": e <= 0, "==": e == 0, ">": e > 0, ">=": e >= 0, "!=": e != 0}[op]


def solve(cons, hints=(), timeout=4000, stats=None, want_model=True, extra=(), hard=()):
    """cons: list of (P, op) (or raw callables emit->z3); returns (res, env or None)."""
    em = Emit()
    zs = []
    for c in cons:
        if callable(c):
            zs.append(c(em))
        else:
            zs.append(em.cons(*c))
    for a in list(T.vars.values()):
        if a.id in em.vars:
            continue
    zs = zs + em.ax
    t0 = time.time()
    res = z3.unknown
    model = None
    budget = timeout
    attempts = [("smt", min(1500, budget)), ("qfnra-nlsat", budget), ("smt", budget)]
    if any(z3.is_app(z) for z in zs):
        pass
    for name, to in attempts:
        if name == "smt":
            s = z3.Solver()
            s.set("timeout", int(to))
        else:
            try:
                s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "qfnra-nlsat").solver()
                s.set("timeout", int(to))
            except z3.Z3Exception:
                continue
        s.add(zs)
        hl = []
        if hints and name == "smt":
            hl = [z3.Bool("h%d" % i) for i in range(len(hints))]
            for b, (vn, lo, hi) in zip(hl, hints):
                a = T.vars.get(vn)
                if a is None:
                    continue
                v = em.atom(a)
                s.add(z3.Implies(b, z3.And(v >= em.num(lo), v <= em.num(hi))))
        try:
            r = None
            while True:
                r = s.check(*hl) if hl else s.check()
                if r == z3.unsat and hl:
                    core = set(str(c) for c in s.unsat_core())
                    if not core:
                        break
                    n = len(hl)
                    hl = [b for b in hl if str(b) not in core]
                    if len(hl) == n:
                        hl = []
                    continue
                break
        except z3.Z3Exception:
            r = z3.unknown
        if stats is not None:
            stats.queries += 1
        if r == z3.unsat:
            res = r
            break
        if r == z3.sat:
            res = r
            try:
                model = s.model()
            except z3.Z3Exception:
                model = None
            break
    if stats is not None:
        stats.solver_s += time.time() - t0
        key = "unsat" if res == z3.unsat else "sat" if res == z3.sat else "unknown"
        setattr(stats, key, getattr(stats, key) + 1)
    env = None
    if res == z3.sat and model is not None:
        env = {}
        for name, a in T.vars.items():
            zv = em.vars.get(a.id)
            lo, hi = T.bounds[a.id]
            val = None
            if zv is not None:
                val = _tofloat(model.eval(zv, model_completion=False))
            env[name] = val
    return ("unsat" if res == z3.unsat else "sat" if res == z3.sat else "unknown"), env, (em, zs)


def _tofloat(v):
    try:
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    except Exception:
        return None
    return None


def cross_check(zs, timeout=4000):
    """ask cvc5 the same query (text transport)"""
    import cvc5
    s = z3.Solver()
    s.add(zs)
    text = s.to_smt2()
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    sl = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    sl.setOption("tlimit-per", str(int(timeout)))
    sl.setLogic("QF_NRA")
    ip = cvc5.InputParser(sl)
    ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text.replace("(set-logic", ";(set-logic"), "q")
    sm = ip.getSymbolManager()
    out = ""
    while True:
        c = ip.nextCommand()
        if c.isNull():
            break
        r = c.invoke(sl, sm)
        if isinstance(r, bytes):
            r = r.decode()
        out += str(r)
    if "unsat" in out:
        return "unsat"
    if "sat" in out:
        return "sat"
    return "unknown"


class Var:
    __slots__ = ("name", "lo", "hi", "kind", "nonzero")

    def __init__(self, name, lo, hi, kind, nonzero):
        self.name, self.lo, self.hi, self.kind, self.nonzero = name, lo, hi, kind, nonzero

    def sample(self, rng):
        lo, hi = self.lo, self.hi
        while True:
            if lo > 0 and hi / lo > 50:
                x = math.exp(rng.uniform(math.log(lo), math.log(hi)))
            elif lo == 0 and self.kind == "log":
                x = hi * math.exp(rng.uniform(math.log(1e-6), 0.0))
            else:
                x = rng.uniform(lo, hi)
            x = min(max(x, lo), hi)
            if not (self.nonzero and x == 0):
                return x


class Engine:
    """One exploration of a harness case: owns variables, path prefix, samples."""

    NS = 48

    def __init__(self, seed=1, max_paths=400, timeout=4000, fp_slack=0.0):
        self.seed = seed
        self.rng = random.Random(seed)
        self.vars = {}
        self.stats = Stats()
        self.max_paths = max_paths
        self.timeout = timeout
        self.fp_slack = fp_slack
        self.feas_timeout = min(timeout, 1500)
        self.frozen = False
        self.samples0 = None
        self.prefix = []
        self.big = 0

    # ---- variables
    def declare(self, name, lo, hi, kind="lin", nonzero=False):
        if name not in self.vars:
            self.vars[name] = Var(name, lo, hi, kind, nonzero)
            # extend the sample pool deterministically
            r = random.Random("%s|%s" % (self.seed, name))
            v = self.vars[name]
            for e in self.pool:
                e[name] = v.sample(r)
        for e in self.samples:
            if name not in e:
                e[name] = self.vars[name].sample(self.rng)
        return t.var(name, lo, hi, nonzero)

    def canon(self, p):
        """divide by a positive factor: clear denominators, drop common factors"""
        for _ in range(6):
            d = p.d
            if len(d) < 2:
                break
            if len(d) > 60:
                break
            mins = {}
            cnt = {}
            n = len(d)
            for m in d:
                for a, e in m:
                    cnt[a] = cnt.get(a, 0) + 1
                    if a not in mins or e < mins[a]:
                        mins[a] = e
            f = []
            summ = False
            for a, e in mins.items():
                if cnt[a] < n and e > 0:
                    continue
                if e == 0:
                    continue
                at = T.atoms[a]
                if at.kind != "e":
                    lo, hi = t.aiv(at)
                    if not (lo > 0 or (isinstance(e, int) and e % 2 == 0 and (hi < 0 or at.nonzero)) or self.pos_atom(a)):
                        continue
                f.append((a, -e))
                if at.kind == "s":
                    summ = True
            if not f:
                break
            fm = tuple(sorted(f))
            if summ and any(e > 0 and len(T.atoms[a].poly.d) * n > 400 for a, e in f if T.atoms[a].kind == "s"):
                break
            p = t.mul(p, P({fm: 1.0}))
            if not summ:
                break
        return p

    def pos_atom(self, a):
        """is the atom known to be positive on this path?"""
        q = P({((a, 1),): 1.0})
        if self._cached(q, ">") is True:
            return True
        at = T.atoms[a]
        if at.kind == "s":
            try:
                q, o = self._key(at.poly, ">")
                return self._cached(q, o) is True
            except ValueError:
                return False
        return False

    # ---- path state
    def start(self, prefix):
        self.prefix = prefix
        self.k = 0
        self.path = []          # [(P, op)]
        self.log = []           # all decisions (value, forced)
        self.cache = {}
        self.alts = []
        self.weak = False
        self.frozen = False
        self.neq = 0
        self._pc = None
        if not hasattr(self, "pool"):
            self.pool = [dict() for _ in range(self.NS)]
        self.samples = [dict(e) for e in self.pool]
        self.epoch0 = T.epoch
        self.notes = []

    def _key(self, p, op):
        m, c = t._lead(p)
        s = 1.0 if c > 0 else -1.0
        q = t.scale(p, 1.0 / c)
        if s < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        return q, op

    def _cached(self, q, op):
        lst = self.cache.get(t._pkey(q), ())
        signs = {"-", "0", "+"}
        for q2, op2 in lst:
            if t._same(q, q2):
                signs &= SIG[op2]
        want = SIG[op]
        if signs <= want:
            return True
        if not (signs & want):
            return False
        return None

    def _add(self, p, op):
        p = self.canon(p)
        if op == "==":
            self.neq += 1
        self.path.append((p, op))
        q, op2 = self._key(p, op)
        lst = self.cache.setdefault(t._pkey(q), [])
        lst.append((q, op2))
        if op not in ("==", "!="):
            signs = {"-", "0", "+"}
            for q2, o2 in lst:
                if t._same(q, q2):
                    signs &= SIG[o2]
            if signs == {"0"}:
                self.path.append((p, "=="))
                self.neq += 1
        ns = []
        for e in self.samples:
            try:
                if holds(t.evalp(p, e), op):
                    ns.append(e)
            except (ValueError, OverflowError, ZeroDivisionError):
                pass
        self.samples = ns
        # single-variable bounds refine the interval table
        d = p.d
        vs = [m for m in d if m != ()]
        if len(vs) == 1 and len(vs[0]) == 1 and vs[0][0][1] == 1:
            at = T.atoms[vs[0][0][0]]
            if at.kind == "v":
                c = d[vs[0]]
                r = -d.get((), 0.0) / c
                lo, hi = T.bounds[at.id]
                o = op
                if c < 0:
                    o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
                if o in ("<", "<="):
                    hi = min(hi, r)
                elif o in (">", ">="):
                    lo = max(lo, r)
                elif o == "==":
                    lo = hi = r
                if (lo, hi) != T.bounds[at.id]:
                    T.bounds[at.id] = (lo, hi)
                    T.epoch += 1

    def quick(self, p, op):
        """decide by normal form / intervals / cache, or None"""
        p0 = p
        p = self.canon(p)
        if p.is_const():
            return holds(p.const(), op)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            # nonzero flagged atoms
            if op in ("==", "!="):
                nz = True
                for a, e in m:
                    at = T.atoms[a]
                    if at.kind == "e" or at.nonzero:
                        continue
                    lo, hi = t.aiv(at)
                    if lo > 0 or hi < 0:
                        continue
                    if not isinstance(e, float) and e < 0:
                        continue
                    nz = False
                    break
                if nz:
                    return op == "!="
        lo, hi = t.iv(p)
        if p0 is not p:
            l0, h0 = t.iv(p0)       # same sign: p is p0 times something positive
            if l0 > 0 or (l0 >= 0 and lo < 0):
                lo = max(lo, 0.0 if l0 == 0 else 5e-324)
            if h0 < 0 or (h0 <= 0 and hi > 0):
                hi = min(hi, 0.0 if h0 == 0 else -5e-324)
        if op == "<":
            if hi < 0: return True
            if lo >= 0: return False
        elif op == "<=":
            if hi <= 0: return True
            if lo > 0: return False
        elif op == ">":
            if lo > 0: return True
            if hi <= 0: return False
        elif op == ">=":
            if lo >= 0: return True
            if hi < 0: return False
        elif op == "==":
            if lo > 0 or hi < 0: return False
            if lo == hi == 0: return True
        else:
            if lo > 0 or hi < 0: return True
            if lo == hi == 0: return False
        q, o = self._key(p, op)
        r = self._cached(q, o)
        if r is None and self.neq:
            # equalities on this path: decide after substitution
            ch = self._pathchain()
            if ch:
                old = self.frozen
                self.frozen = True
                try:
                    z = t.apply_subst(p, ch)
                    if not z.is_const() and len(z.d) < 40:
                        z = t.simp(z)
                    if z.is_const():
                        c = z.const()
                        if abs(c) <= 1e-12 * max(map(abs, p.d.values())):
                            c = 0.0
                        return holds(c, op)
                except (Unsupported, ZeroDivisionError, OverflowError, ValueError):
                    pass
                finally:
                    self.frozen = old
        return r

    def _pathchain(self):
        if self._pc is None or self._pc[0] != self.neq:
            self._pc = (self.neq, [])          # guards against re-entry
            self._pc = (self.neq, self.chain(self.path))
        return self._pc[1]

    def decide(self, p, op):
        """truth of (p op 0) on this path; forks when both are possible"""
        r = self.quick(p, op)
        p = self.canon(p)
        if r is not None:
            return r
        self.stats.decisions += 1
        if self.k < len(self.prefix):
            v, forced = self.prefix[self.k]
            self.k += 1
            self.log.append((v, forced))
            if not forced:
                self._add(p, op if v else NEG[op])
            else:
                q, o = self._key(p, op if v else NEG[op])
                self.cache.setdefault(t._pkey(q), []).append((q, o))
            return v
        st = sf = False
        for e in self.samples:
            try:
                h = t.evalp(p, e)
            except (ValueError, OverflowError, ZeroDivisionError):
                continue
            if h != h:
                continue
            if holds(h, op):
                st = True
            else:
                sf = True
            if st and sf:
                break
        if not st:
            st = self._feasible(p, op)
        if not sf:
            sf = self._feasible(p, NEG[op]) if st else True
        if st and sf:
            v, forced = True, False
            # explore the more common side first
            self.alts.append(self.log + [(False, False)])
        else:
            v, forced = bool(st), True
        self.k += 1
        self.log.append((v, forced))
        if not forced:
            self._add(p, op if v else NEG[op])
        else:
            q, o = self._key(p, op if v else NEG[op])
            self.cache.setdefault(t._pkey(q), []).append((q, o))
        return v

    def margin(self, cons):
        """strict inequalities must hold by a relative 1e-10: regions thinner than that are rounding"""
        out = []
        for c in cons:
            if not isinstance(c, tuple) or c[1] not in ("<", ">") or len(c[0].d) < 2:
                out.append(c)
                continue
            p, op = c
            best = None
            for m, k in p.d.items():
                lo, hi = t.iv(P({m: k}))
                if lo >= 0 or hi <= 0:
                    s = 1.0 if lo >= 0 else -1.0
                    if best is None or (m == () and best[0] != ()):
                        best = (m, k, s)
                    if m == ():
                        break
            if best is None:
                out.append(c)
                continue
            m, k, s = best
            d = dict(p.d)
            # push towards violation: p<0 needs p + eps|term| < 0
            d[m] = k * (1 + (1e-10 if (s > 0) == (op == "<") else -1e-10))
            out.append((P(d), op))
        return out

    def chain(self, cons):
        """substitutions implied by the equalities among cons"""
        eqs = [p for p, op in cons if op == "=="]
        if not eqs:
            return []
        old = self.frozen
        self.frozen = True
        try:
            return t.eliminate(eqs)
        except (Unsupported, ZeroDivisionError, OverflowError, ValueError):
            return []
        finally:
            self.frozen = old

    def simplify(self, cons):
        """cons with equalities substituted away; None when plainly infeasible"""
        ch = self.chain(cons)
        if not ch:
            return cons
        old = self.frozen
        self.frozen = True
        try:
            out = []
            more = [(t.add(x, t.const(b), -1.0), o) for a, x in ch for b, o in zip(T.bounds[a], (">=", "<=")) if abs(b) != math.inf]
            for p, op in list(cons) + more:
                q = self.canon(t.apply_subst(p, ch))
                if not q.d and p.d:
                    q = t.ZERO
                elif not q.is_const():
                    z = t.reduce_zero(q)
                    if not z.d:
                        q = z
                if q.is_const():
                    c = q.const()
                    if not holds(0.0 if abs(c) < 1e-12 else c, op):
                        return None
                    continue
                lo, hi = t.iv(q)
                if (op in ("<", "<=") and lo > 0) or (op in (">", ">=") and hi < 0) or (op == "==" and (lo > 0 or hi < 0)):
                    return None
                out.append((q, op))
            return out
        except (Unsupported, ZeroDivisionError, OverflowError, ValueError):
            return cons
        finally:
            self.frozen = old

    def _feasible(self, p, op):
        cons = self.margin(self.path + [(p, op)])
        if any(o == "==" for _, o in cons):
            cs = self.simplify(cons)
            if cs is None:
                self.stats.queries += 1
                self.stats.unsat += 1
                return False
            if cs is not cons:
                r, env, _ = solve(cs, timeout=self.feas_timeout, stats=self.stats)
                return r != "unsat"
        r, env, _ = solve(cons, timeout=self.feas_timeout, stats=self.stats)
        if r == "unsat":
            return False
        if r == "sat" and env is not None:
            e = self.complete(env)
            ok = self.satisfies(e, self.path + [(p, op)])
            if ok:
                self.samples.append(e)
                if len(self.pool) < 400:
                    self.pool.append(dict(e))
        return True

    def complete(self, env):
        e = {}
        base = self.samples[0] if self.samples else None
        for n, v in self.vars.items():
            x = env.get(n)
            if x is None:
                x = base[n] if base and n in base else v.sample(self.rng)
            e[n] = min(max(x, v.lo), v.hi)
        return e

    def satisfies(self, e, cons):
        for c in cons:
            try:
                if not holds(t.evalp(c[0], e), c[1]):
                    return False
            except (ValueError, OverflowError, ZeroDivisionError):
                return False
        return True

    def assume(self, p, op):
        r = self.quick(p, op)
        if r is True:
            return
        if r is False:
            raise PathAbort()
        self._add(p, op)
        if not self.samples:
            r, env, _ = solve(self.path, timeout=self.timeout, stats=self.stats)
            if r == "unsat":
                raise PathAbort()
            if env is not None:
                e = self.complete(env)
                if self.satisfies(e, self.path):
                    self.samples.append(e)


SIG = {"<": {"-"}, "<=": {"-", "0"}, ">": {"+"}, ">=": {"+", "0"}, "==": {"0"}, "!=": {"-", "+"}}

ENG = None


def eng():
    if ENG is None:
        raise Unsupported("symbolic value used outside an exploration")
    return ENG


def set_engine(e):
    global ENG
    ENG = e


def _fork_free(self):
    """nondeterministic choice (rounding may go either way)"""
    self.stats.decisions += 1
    if self.k < len(self.prefix):
        v, f = self.prefix[self.k]
        self.k += 1
        self.log.append((v, f))
        return v
    self.alts.append(self.log + [(False, False)])
    self.k += 1
    self.log.append((True, False))
    return True


Engine.fork_free = _fork_free
