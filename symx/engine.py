"""Path-forking symbolic execution core: symbolic integers/booleans are z3
terms, decisions are made by the solver, floats are poly.Expr."""
import time
from fractions import Fraction

import numpy as np
import z3

from . import poly
from .poly import Expr, Unsupported


class PathLimit(Exception):
    pass


class BatchedFork(Exception):
    """a data-dependent decision was met while many paths run in lockstep"""


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.feasibility = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.assertions = 0
        self.nontrivial = 0
        self.reused = 0
        self.samples = []
        self.functions = set()
        self.prims = {}
        self.assumptions = set()
        self.eqns = 0

    def merge(self, o):
        for k in ("paths", "queries", "feasibility", "unsat", "sat", "unknown", "solver_s",
                  "assertions", "nontrivial", "eqns", "reused"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.samples += o.samples
        self.functions |= o.functions
        self.assumptions |= o.assumptions
        for k, v in o.prims.items():
            self.prims[k] = self.prims.get(k, 0) + v


class Engine:
    """One symbolic execution: run(fn) executes fn once per feasible path."""

    def __init__(self, stats=None, timeout_ms=60000):
        self.stats = stats or Stats()
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.pre = []
        self.pc = []
        self.trail = []
        self.pos = 0
        self.fresh = 0
        self.memo = {}
        self.lockstep = False

    # -- assumptions that hold on every path
    def assume_global(self, c):
        self.pre.append(c)
        self.solver.add(c)

    # -- within a path
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise _Infeasible()
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.feasibility += 1
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Unsupported("solver returned unknown on a path condition")
        return r == z3.sat

    def decide(self, options):
        """fork over a list of (constraint, value); returns the value chosen"""
        if self.pos < len(self.trail):
            alts, k = self.trail[self.pos]
            self.pos += 1
            c, v = alts[k]
            if c is not None:
                self.assume(c)
            return v
        self.trail.append([options, 0])
        self.pos += 1
        c, v = options[0]
        if c is not None:
            self.assume(c)
        return v

    def branch(self, cond):
        """truth value of a symbolic boolean on this path"""
        if isinstance(cond, (bool, np.bool_)):
            return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.lockstep:
            raise BatchedFork()
        if self.pos < len(self.trail):
            return self.decide(None)
        opts = []
        if self._check(cond):
            opts.append((cond, True))
        if self._check(z3.Not(cond)):
            opts.append((z3.Not(cond), False))
        if not opts:
            raise _Infeasible()
        return self.decide(opts)

    def concretise(self, t, signed=False, limit=4096):
        """integer value of a symbolic term on this path (forks over all)"""
        if isinstance(t, (int, np.integer, bool, np.bool_)):
            return int(t)
        if z3.is_bool(t):
            return int(self.branch(t))
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_signed_long() if signed else t.as_long()
        if z3.is_int_value(t):
            return t.as_long()
        if self.lockstep:
            raise BatchedFork()
        if self.pos < len(self.trail):
            return self.decide(None)
        vals = []
        self.solver.push()
        try:
            while self._check():
                v = self.solver.model().eval(t, model_completion=True)
                vals.append(v)
                self.solver.add(t != v)
                if len(vals) > limit:
                    raise Unsupported("too many feasible values for one term")
        finally:
            self.solver.pop()
        if not vals:
            raise _Infeasible()
        opts = []
        for v in vals:
            if z3.is_bv_value(v):
                iv = v.as_signed_long() if signed else v.as_long()
            else:
                iv = v.as_long()
            opts.append((t == v, iv))
        opts.sort(key=lambda o: o[1])
        return self.decide(opts)

    def paths(self, fn, max_paths=200000):
        """generator: yields fn() for every feasible path"""
        self.trail = []
        n = 0
        while True:
            self.pos = 0
            self.pc = []
            self.fresh = 0
            self.solver.push()
            ok = True
            try:
                r = fn()
            except _Infeasible:
                ok = False
            else:
                n += 1
                self.stats.paths += 1
                yield r
            self.solver.pop()
            # next path
            while self.trail and self.trail[-1][1] + 1 >= len(self.trail[-1][0]):
                self.trail.pop()
            if not self.trail:
                return
            self.trail[-1][1] += 1
            if n > max_paths:
                raise PathLimit("path limit exceeded")

    # -- final queries
    def valid(self, cond):
        """is the boolean term valid under the path condition? -> (bool, model)"""
        self.stats.assertions += 1
        if isinstance(cond, (bool, np.bool_)):
            cond = z3.BoolVal(bool(cond))
        t = time.time()
        self.solver.push()
        self.solver.add(z3.Not(cond))
        r = self.solver.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        m = None
        if r == z3.sat:
            m = self.solver.model()
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        self.solver.pop()
        if r == z3.unknown:
            raise Unsupported("solver returned unknown on an assertion")
        return r == z3.unsat, m

    def model(self):
        if self._check():
            return self.solver.model()
        return None


class _Infeasible(Exception):
    pass


# ------------------------------------------------------- Expr -> z3
def _fr(c):
    c = Fraction(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator))


class ToZ3:
    """translate Expr to z3 real terms (re, im); comp atoms are expected to be
    cleared first where they matter; other atoms become variables"""

    define = False

    def __init__(self):
        self.vars = {}
        self.side = []

    def real_var(self, name):
        if name not in self.vars:
            self.vars[name] = z3.Real(name)
        return self.vars[name]

    def atom(self, a):
        T = poly.T
        k = T.kind[a]
        if k in ("var", "opaque"):
            nm = T.name[a]
            if T.real[a]:
                return (self.real_var(nm), None)
            if nm.endswith("~"):
                r, i = self.real_var(nm[:-1] + ".re"), self.real_var(nm[:-1] + ".im")
                return (r, -i)
            return (self.real_var(nm + ".re"), self.real_var(nm + ".im"))
        if k == "I":
            return (z3.RealVal(0), z3.RealVal(1))
        if k == "sign":
            v = self.real_var("sgn!%d" % a)
            if ("s", a) not in self.vars:
                self.vars[("s", a)] = True
                q, qi = self.expr(poly.T.arg[a])
                if qi is None:
                    self.side.append(z3.Or(z3.And(v == 1, q >= 0), z3.And(v == -1, q <= 0)))
                else:
                    self.side.append(z3.Or(v == 1, v == -1))
            return (v, None)
        if k == "exp" and poly.is_real(poly.T.arg[a]):
            v = self.real_var("exp!%d" % a)
            if ("e", a) not in self.vars:
                self.vars[("e", a)] = True
                self.side.append(v > 0)
                q = poly.T.arg[a]
                if len(q.d) == 1:
                    self.side.append(z3.Implies(self.expr(q)[0] == 0, v == 1))
            return (v, None)
        if k == "comp" and poly.known_positive(poly.T.arg[a]):
            v = self.real_var("comp!%d" % a)
            if ("e", a) not in self.vars:
                self.vars[("e", a)] = True
                self.side.append(v > 0)
            return (v, None)
        b = poly.conj_atom(a)
        if b == a:
            v = self.real_var("%s!%d" % (k, a))
            if k == "comp" and self.define and ("d", a) not in self.vars:
                # the atom is a polynomial of other atoms: keep its definition
                self.vars[("d", a)] = True
                self.side.append(v == self.expr(poly.T.arg[a])[0])
            return (v, None)
        lo = min(a, b)
        r, i = self.real_var("%s!%d.re" % (k, lo)), self.real_var("%s!%d.im" % (k, lo))
        if k == "exp" and ("e", lo) not in self.vars:
            self.vars[("e", lo)] = True
            self.side.append(r * r + i * i > 0)
        return (r, i) if a == lo else (r, -i)

    def expr(self, e):
        re = []
        im = []
        for m, c in e.d.items():
            t = (_fr(c), None)
            for a, x in m:
                if not isinstance(x, int):
                    # fractional power: its own variable
                    v = (self.real_var("frac!%d^%s" % (a, x)), None)
                    t = _cmul(t, v)
                    continue
                if abs(x) > 12:
                    # a high power: its own variable
                    v = (self.real_var("pow!%d^%d" % (a, x)), None if poly.is_real(poly.Expr({((a, 1),): 1})) else self.real_var("pwi!%d^%d" % (a, x)))
                    t = _cmul(t, v)
                    continue
                v = self.atom(a)
                if x < 0:
                    w = self.real_var("inv!%d" % a)
                    if ("i", a) not in self.vars:
                        self.vars[("i", a)] = True
                        if v[1] is None:
                            self.side.append(w * v[0] == 1)
                    if v[1] is not None:
                        raise Unsupported("negative complex power in solver term")
                    v = (w, None)
                    x = -x
                for _ in range(x):
                    t = _cmul(t, v)
            re.append(t[0])
            if t[1] is not None:
                im.append(t[1])
        r = z3.Sum(re) if re else z3.RealVal(0)
        i = z3.Sum(im) if im else None
        return r, i


def _cmul(a, b):
    if a[1] is None and b[1] is None:
        return (a[0] * b[0], None)
    if b[1] is None:
        return (a[0] * b[0], a[1] * b[0])
    if a[1] is None:
        return (a[0] * b[0], a[0] * b[1])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def clear_denominators(*es):
    """the expressions multiplied by a common denominator"""
    es = [poly._expand_comp(e) for e in es]
    for _ in range(60):
        low = {}
        for e in es:
            for m in e.d:
                for a, x in m:
                    if x < 0:
                        if a not in low or x < low[a]:
                            low[a] = x
        if not low:
            return es
        mul = Expr({tuple(sorted((a, -x) for a, x in low.items())): 1})
        es = [poly._expand_comp(e * mul) for e in es]
    raise Unsupported("denominators did not clear")


def decide_equal(eng, lhs, rhs, label="", extra=None):
    """Ask z3 whether lhs != rhs is satisfiable under the path condition.
    Returns None when proved equal, else a dict variable name -> value."""
    st = eng.stats
    st.assertions += 1
    if not isinstance(lhs, Expr):
        lhs = Expr.const(lhs)
    if not isinstance(rhs, Expr):
        rhs = Expr.const(rhs)
    if lhs.sp is not None or rhs.sp is not None:
        if lhs.sp == rhs.sp and lhs.sp != "nan":
            return None
        return {}
    mkey = (lhs, rhs) if extra is None else None
    if mkey is not None and mkey in eng.memo:
        # the same identity was already proved without using the path condition
        st.reused += 1
        return None
    # common denominator of both sides
    l, r = clear_denominators(lhs, rhs)
    if len(l.d) + len(r.d) > 1:
        st.nontrivial += 1
    tz = ToZ3()
    lr, li = tz.expr(l)
    rr, ri = tz.expr(r)
    zero = z3.RealVal(0)
    li = zero if li is None else li
    ri = zero if ri is None else ri
    diff = z3.Or(lr != rr, li != ri)
    residual = l - r
    s = z3.Solver()
    s.set("timeout", eng.timeout_ms)
    if residual.d:
        for c in eng.pre + eng.pc:
            s.add(c)
    for c in tz.side:
        s.add(c)
    if extra:
        for c in extra(tz):
            s.add(c)
    s.add(diff)
    t = time.time()
    res = s.check()
    st.solver_s += time.time() - t
    st.queries += 1
    if res == z3.unsat and not residual.d and mkey is not None:
        eng.memo[mkey] = True
    if len(st.samples) < 6:
        st.samples.append({"query": label, "lhs": poly.to_str(lhs, 3), "rhs": poly.to_str(rhs, 3),
                           "verdict": str(res)})
    if res == z3.unsat:
        st.unsat += 1
        return None
    if res == z3.unknown:
        st.unknown += 1
        if not residual.d:
            raise Unsupported("solver unknown although the residual vanishes")
        return {}
    st.sat += 1
    m = s.model()
    out = {}
    for nm, v in tz.vars.items():
        if isinstance(nm, str):
            val = m.eval(v, model_completion=True)
            out[nm] = _num(val)
    for d in m.decls():
        if d.arity() == 0 and d.range() == z3.RealSort() and d.name() not in out:
            out[d.name()] = _num(m[d])
    return out


def decide_positive(eng, v, label=""):
    """Ask z3 whether v <= 0 is satisfiable; None when v > 0 is proved."""
    st = eng.stats
    st.assertions += 1
    if not isinstance(v, Expr):
        v = Expr.const(v)
    if v.sp is not None:
        return None if v.sp == "pinf" else {}
    if ("pos", v) in eng.memo:
        st.reused += 1
        return None
    e = v
    for _ in range(60):
        low = {}
        for m in e.d:
            for a, x in m:
                if x < 0:
                    low[a] = min(low.get(a, 0), x)
        if not low:
            break
        for a, x in low.items():
            k = poly.T.kind[a]
            if not (k == "exp" and poly.is_real(poly.T.arg[a]) or k == "comp" and poly.known_positive(poly.T.arg[a])) and x % 2:
                raise Unsupported("sign of a denominator is not known")
        e = poly._expand_comp(e * Expr({tuple(sorted((a, -x if x % 2 == 0 or poly.T.kind[a] != "var" else 1 - x)
                                                     for a, x in low.items())): 1}))
    tz = ToZ3()
    r, i = tz.expr(e)
    s = z3.Solver()
    s.set("timeout", eng.timeout_ms)
    for c in tz.side:
        s.add(c)
    s.add(z3.Or(r <= 0, i != 0) if i is not None else r <= 0)
    t = time.time()
    res = s.check()
    st.solver_s += time.time() - t
    st.queries += 1
    if len(st.samples) < 6:
        st.samples.append({"query": label, "lhs": poly.to_str(v, 3), "rhs": "> 0", "verdict": str(res)})
    if res == z3.unsat:
        st.unsat += 1
        st.nontrivial += 1
        eng.memo[("pos", v)] = True
        return None
    if res == z3.unknown:
        raise Unsupported("solver unknown on positivity")
    st.sat += 1
    m = s.model()
    return {nm: _num(m.eval(x, model_completion=True)) for nm, x in tz.vars.items() if isinstance(nm, str)}


def _num(val):
    try:
        return float(Fraction(val.numerator_as_long(), val.denominator_as_long()))
    except Exception:
        try:
            s = val.approx(20)
            return float(Fraction(s.numerator_as_long(), s.denominator_as_long()))
        except Exception:
            return 0.0
