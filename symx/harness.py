"""Scenarios: symbolic execution of one entry of /repo plus the relation that must hold.

A Scenario names symbolic inputs, executes the real code symbolically (jaxpr or
Python source), and states a relation between outputs (and inputs).  The runner
decides every relation on every path with z3, validates the encoding against
the real execution on concrete inputs, and replays counterexamples.
"""
import json
import math
import os
import random
import sys
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np
import z3

from . import engine, jaxi, poly
from .engine import BatchedFork, Engine, decide_equal
from .poly import Expr, Unsupported


class Real:
    def __init__(self, *shape, dtype=np.float64, positive=False, lo=0.4, hi=1.6):
        self.shape, self.dtype, self.lo, self.hi = shape, dtype, lo, hi
        self.positive = positive


class Cplx:
    def __init__(self, *shape):
        self.shape = shape
        self.dtype = np.complex128


class Int:
    """symbolic integers with values in [lo, hi] (bit-vector of the dtype)"""

    def __init__(self, *shape, dtype=np.uint8, lo=0, hi=1):
        self.shape, self.dtype, self.lo, self.hi = shape, dtype, lo, hi


class Const:
    def __init__(self, value):
        self.value = np.asarray(value)


class Key:
    """a concrete PRNG key; draws are nondeterministic stubs"""

    def __init__(self, seed=0):
        self.seed = seed


class Violation(Exception):
    def __init__(self, scenario, label, inputs, detail):
        self.scenario, self.label, self.inputs, self.detail = scenario, label, inputs, detail


class EncodingError(Exception):
    pass


def _zname(name, ix):
    return name + "_" + "_".join(map(str, ix)) if ix else name


class Scenario:
    tol = 1e-6
    max_paths = 60000
    unwind = 64
    validate = 2
    rng = None
    lockstep = True
    generic = False
    define_comps = False
    chunk = 128
    sample_runs = 2

    def __init__(self, name, specs, fn=None, relation=None, assume=None, **kw):
        self.name = name
        self.specs = specs
        self.fn = fn
        if relation is not None:
            self.relation = relation
        if assume is not None:
            self.assume = assume
        for k, v in kw.items():
            setattr(self, k, v)
        self._jx = None
        self._jxs = {}

    # ---- overridable
    def assume(self, a):
        return []

    def relation(self, outs, a):
        """list of (label, lhs, rhs) or (label, condition)"""
        raise NotImplementedError

    def derive(self, a):
        """hook: build the actual arguments from the symbolic/concrete inputs
        (e.g. impose index symmetries); must work for both"""
        return a

    def order(self, eng, op, x, y):
        return None

    def outs_real(self, a):
        import jax

        args = self.derive(dict(a))
        r = self.fn(**{k: (jax.numpy.asarray(v) if isinstance(v, np.ndarray) else v) for k, v in args.items()})
        return jax.tree_util.tree_map(np.asarray, r)

    def outs_lockstep(self, eng, arrs, a):
        """run many integer assignments at once: the real function is vmapped over
        the integer inputs and its jaxpr interpreted with symbolic floats"""
        import jax

        n = next(iter(arrs.values())).shape[0]
        names = list(a)
        key = ("lock", n)
        if key not in self._jxs:
            ex = self.example(random.Random(7))
            exs = []
            axes = []
            for nm in names:
                if nm in arrs:
                    exs.append(jax.numpy.asarray(np.broadcast_to(ex[nm], (n,) + np.shape(ex[nm]))))
                    axes.append(0)
                else:
                    exs.append(jax.numpy.asarray(ex[nm]))
                    axes.append(None)
            jx, tree = jax.make_jaxpr(jax.vmap(lambda *xs: self.fn(**self.derive(dict(zip(names, xs)))), in_axes=tuple(axes)),
                                      return_shape=True)(*exs)
            self._jxs[key] = (jx, jax.tree_util.tree_structure(tree))
        jx, td = self._jxs[key]
        it = jaxi.Interp(eng, rng=self.make_rng(eng), unwind=self.unwind, opaque_prims=self.opaque())
        outs = it.run(jx, *[arrs[nm] if nm in arrs else a[nm] for nm in names])
        return td, outs

    def outs_sym(self, eng, a):
        import jax

        args = self.derive(dict(a))
        names = list(args)
        if self._jx is None:
            ex = self.derive(self.example(random.Random(7)))
            self._jx, self._tree = jax.make_jaxpr(
                lambda *xs: self.fn(**dict(zip(names, xs))), return_shape=True)(
                    *[jax.numpy.asarray(ex[n]) if isinstance(ex[n], np.ndarray) else ex[n] for n in names])
            self._def = jax.tree_util.tree_structure(self._tree)
        it = jaxi.Interp(eng, rng=self.make_rng(eng), unwind=self.unwind, opaque_prims=self.opaque())
        it.generic = self.generic
        vals = [np.asarray(args[n]) if not hasattr(args[n], "dtype") else args[n] for n in names]
        outs = it.run(self._jx, *vals)
        self.interp = it
        return jax.tree_util.tree_unflatten(self._def, outs)

    def make_rng(self, eng):
        return self.rng

    def opaque(self):
        return {}

    # ---- inputs
    def example(self, rnd):
        """random concrete inputs satisfying the assumptions"""
        eng = Engine()
        ints = self.sym_ints()
        for c in self.int_constraints(ints):
            eng.solver.add(c)
        flat = [v for arr in ints.values() for v in arr.reshape(-1)]
        # random solution: assert random preferred values greedily
        for v in rnd.sample(flat, len(flat)):
            nm = v.decl().name()
            sp = self._spec_of[nm]
            pref = rnd.randint(sp.lo, sp.hi)
            if eng.solver.check(v == pref) == z3.sat:
                eng.solver.add(v == pref)
        if flat:
            assert eng.solver.check() == z3.sat, "vacuous assumptions in %s" % self.name
            m = eng.solver.model()
        else:
            m = None
        return self.concrete(m, {}, rnd)

    def sym_ints(self):
        out = {}
        self._spec_of = {}
        for n, sp in self.specs.items():
            if isinstance(sp, Int):
                arr = np.empty(sp.shape, dtype=object)
                for ix in np.ndindex(*sp.shape):
                    v = z3.BitVec(_zname(n, ix), jaxi.bvwidth(sp.dtype))
                    arr[ix] = v
                    self._spec_of[v.decl().name()] = sp
                out[n] = arr
        return out

    def int_constraints(self, ints):
        cs = []
        for n, arr in ints.items():
            sp = self.specs[n]
            for v in arr.reshape(-1):
                if jaxi.signed(sp.dtype):
                    cs += [v >= sp.lo, v <= sp.hi]
                else:
                    cs += [z3.UGE(v, sp.lo), z3.ULE(v, sp.hi)]
        cs += list(self.assume({**ints, **{n: s.value for n, s in self.specs.items() if isinstance(s, Const)}}))
        return [c for c in cs if c is not True]

    def symbolic(self):
        import jax

        a = {}
        ints = self.sym_ints()
        for n, sp in self.specs.items():
            if isinstance(sp, Int):
                a[n] = ints[n]
            elif isinstance(sp, Real):
                a[n] = jaxi.symarray(n, sp.shape)
            elif isinstance(sp, Cplx):
                a[n] = jaxi.symarray(n, sp.shape, True)
            elif isinstance(sp, Const):
                v = sp.value
                a[n] = jaxi.to_expr_array(v) if jaxi.is_float(v.dtype) else v
            elif isinstance(sp, Key):
                a[n] = np.asarray(jax.random.PRNGKey(sp.seed))
        return a, ints

    def concrete(self, zmodel, env, rnd):
        """concrete inputs from an integer model and a float assignment"""
        import jax

        a = {}
        for n, sp in self.specs.items():
            if isinstance(sp, Int):
                arr = np.zeros(sp.shape, dtype=sp.dtype)
                if isinstance(zmodel, dict):
                    a[n] = np.array(zmodel[n], dtype=sp.dtype)
                    continue
                for ix in np.ndindex(*sp.shape):
                    v = z3.BitVec(_zname(n, ix), jaxi.bvwidth(sp.dtype))
                    val = zmodel.eval(v, model_completion=True)
                    arr[ix] = val.as_signed_long() if jaxi.signed(sp.dtype) else val.as_long()
                a[n] = arr
            elif isinstance(sp, Real):
                def dflt(nm, sp=sp):
                    v = round(rnd.uniform(sp.lo, sp.hi), 3)
                    return v if sp.positive or rnd.random() < 0.5 else -v
                a[n] = jaxi.assign_from(n, sp.shape, env, False, dflt).astype(sp.dtype)
            elif isinstance(sp, Cplx):
                a[n] = jaxi.assign_from(n, sp.shape, env, True, lambda nm: complex(
                    round(rnd.uniform(-1.5, 1.5), 3), round(rnd.uniform(-1.5, 1.5), 3)))
            elif isinstance(sp, Const):
                a[n] = sp.value
            elif isinstance(sp, Key):
                a[n] = np.asarray(jax.random.PRNGKey(sp.seed))
        return a


# ------------------------------------------------------------------ concrete evaluation of a relation
def concrete_failures(sc, a):
    """run the real code on concrete inputs; list of (label, lhs, rhs) that fail"""
    outs = sc.outs_real(a)
    bad = []
    for item in sc.relation(outs, sc.derive(dict(a))):
        if len(item) == 2:
            label, c = item
            ok = bool(np.all(np.asarray(c)))
            if not ok:
                bad.append((label, "false", "true"))
            continue
        label, l, r = item[:3]
        if len(item) == 4 and item[3] == "pos":
            if not np.all(np.real(np.asarray(l, dtype=complex)) > 0):
                bad.append((label, str(np.asarray(l).reshape(-1)[:4]), "> 0"))
            continue
        l, r = np.asarray(l, dtype=complex), np.asarray(r, dtype=complex)
        if len(item) == 4 and item[3] == "log":
            with np.errstate(all="ignore"):
                l, r = np.exp(l), np.exp(r)
                l = np.where(np.isneginf(np.real(np.asarray(item[1], dtype=complex))), 0, l)
                r = np.where(np.isneginf(np.real(np.asarray(item[2], dtype=complex))), 0, r)
        if l.shape != r.shape:
            bad.append((label, "shape %s" % (l.shape,), "shape %s" % (r.shape,)))
            continue
        scale = 1.0 + np.maximum(np.abs(l), np.abs(r))
        with np.errstate(all="ignore"):
            same_inf = (l == r)
            d = np.abs(l - r)
            ok = same_inf | (d <= sc.tol * scale)
        if not np.all(ok):
            k = np.argmax(np.where(ok, 0, 1).reshape(-1)) if ok.shape else 0
            bad.append((label, str(l.reshape(-1)[k]), str(r.reshape(-1)[k])))
    return bad


def jsonable(a):
    out = {}
    for k, v in a.items():
        if isinstance(v, dict):
            out[k] = {"dict": {n: (float(x) if not isinstance(x, int) else x) for n, x in v.items()}}
            continue
        v = np.asarray(v)
        if np.iscomplexobj(v):
            out[k] = {"dtype": str(v.dtype), "re": v.real.tolist(), "im": v.imag.tolist()}
        else:
            out[k] = {"dtype": str(v.dtype), "v": v.tolist()}
    return out


def from_json(o):
    a = {}
    for k, v in o.items():
        if "dict" in v:
            a[k] = v["dict"]
        elif "re" in v:
            a[k] = (np.array(v["re"]) + 1j * np.array(v["im"])).astype(v["dtype"])
        else:
            a[k] = np.array(v["v"], dtype=v["dtype"])
    return a


def in_repo(tb):
    """raised by the code under test (and not by one of the harness's own stand-ins that it called)"""
    fr = [f.filename for f in traceback.extract_tb(tb)]
    last = max([k for k, f in enumerate(fr) if os.sep + "GPSKet" + os.sep in f], default=None)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return last is not None and not any(f.startswith(here + os.sep) for f in fr[last:])


def try_concrete(sc, a):
    """-> list of failures; an exception raised inside /repo is a failure"""
    try:
        return concrete_failures(sc, a)
    except Unsupported:
        raise
    except Exception as e:
        if in_repo(e.__traceback__):
            return [("raises", "%s: %s" % (type(e).__name__, str(e)[:300]), "a value")]
        raise


def run_scenario(sc, deadline=None):
    """decide one scenario. Returns dict(result); raises Violation."""
    poly.reset_atoms()
    rnd = random.Random(zlib.crc32(sc.name.encode()))
    t0 = time.time()
    # 1. concrete smoke runs of the real code (validates harness; reports crashes)
    if hasattr(sc, "prepare"):
        sc.prepare()
    for _ in range(sc.sample_runs):
        a = sc.example(rnd)
        bad = try_concrete(sc, a)
        if bad:
            raise Violation(sc.name, bad[0][0], a, bad)
    # 2. symbolic execution
    eng = Engine()
    st = eng.stats
    a, ints = sc.symbolic()
    for c in sc.int_constraints(ints):
        eng.assume_global(c)
    if not eng._check():
        raise EncodingError("vacuous: assumptions unsatisfiable")
    ctl = _Control(sc, eng, rnd, deadline)
    mode = "paths"
    if not hasattr(sc, "outs_py") and sc.lockstep and ints and type(sc).outs_sym is Scenario.outs_sym and not any(isinstance(x, Key) for x in sc.specs.values()):
        try:
            run_lockstep(sc, eng, a, ints, ctl)
            mode = "lockstep"
        except BatchedFork:
            eng.lockstep = False
            st.paths = 0
    if hasattr(sc, "outs_py") or (mode == "paths" and getattr(sc, "resolve", False)):
        mode = "python"
        run_python(sc, eng, a, ints, ctl)
    if mode == "paths":
        for outs in eng.paths(lambda: sc.outs_sym(eng, a), sc.max_paths):
            ctl.path(outs, a)
    if hasattr(sc, "finish"):
        ctl.final(sc.finish(eng))
    npath, validated = ctl.npath, ctl.validated
    if npath == 0:
        raise EncodingError("no feasible path in %s" % sc.name)
    return {"name": sc.name, "paths": st.paths, "queries": st.queries, "unsat": st.unsat,
            "feasibility": st.feasibility, "solver_s": round(st.solver_s, 3),
            "assertions": st.assertions, "nontrivial": st.nontrivial, "reused": st.reused, "mode": mode, "eqns": st.eqns,
            "validated": validated, "samples": st.samples[:3],
            "assumptions": sorted(st.assumptions), "prims": st.prims,
            "functions": list(getattr(sc, "functions", [])),
            "bound": getattr(sc, "bound", ""), "wall_s": round(time.time() - t0, 2)}


def run_lockstep(sc, eng, a, ints, ctl):
    """the solver enumerates the integer assignments; float data stays symbolic"""
    import jax

    order = [(n, ix) for n in ints for ix in np.ndindex(*ints[n].shape)]
    buf = []

    def assignment():
        return [eng.concretise(ints[n][ix], jaxi.signed(sc.specs[n].dtype)) for n, ix in order]

    def flush(buf):
        n = len(buf)
        size = sc.chunk if n > sc.chunk // 4 else n
        arrs = {}
        for nm in ints:
            arrs[nm] = np.zeros((size,) + ints[nm].shape, dtype=sc.specs[nm].dtype)
        for i in range(size):
            vals = buf[min(i, n - 1)]
            for (nm, ix), v in zip(order, vals):
                arrs[nm][(i,) + ix] = v
        eng.lockstep = True
        td, outs = sc.outs_lockstep(eng, arrs, a)
        eng.lockstep = False
        for i in range(n):
            o = []
            for x in outs:
                v = x[i]
                if not isinstance(v, np.ndarray):
                    w = np.empty((), dtype=x.dtype)
                    w[()] = v
                    v = w
                o.append(v)
            ctl.path(jax.tree_util.tree_unflatten(td, o), {**a, **{nm: arrs[nm][i] for nm in ints}}, True)

    for vals in eng.paths(assignment, sc.max_paths):
        buf.append(vals)
        if len(buf) == sc.chunk:
            flush(buf)
            buf = []
            ctl.check_deadline()
    if buf:
        flush(buf)


def run_python(sc, eng, a, ints, ctl):
    """Python-source mode: integer inputs enumerated by the solver, decisions on
    symbolic floats fork the path"""
    order = [(n, ix) for n in ints for ix in np.ndindex(*ints[n].shape)]

    def go():
        conc = {n: np.zeros(ints[n].shape, dtype=sc.specs[n].dtype) for n in ints}
        for n, ix in order:
            conc[n][ix] = eng.concretise(ints[n][ix], jaxi.signed(sc.specs[n].dtype))
        b = {**a, **conc}
        poly.ORDER = _Order(eng, sc)
        try:
            return (sc.outs_py(eng, sc.derive(dict(b))) if hasattr(sc, "outs_py") else sc.outs_sym(eng, b)), b
        finally:
            poly.ORDER = None

    for outs, b in eng.paths(go, sc.max_paths):
        ctl.path(outs, b, True)


class _Order:
    """decides comparisons of symbolic floats on the current path"""

    def __init__(self, eng, sc):
        self.it = jaxi.Interp(eng)
        self.it.tz.define = sc.define_comps
        self.sc = sc

    def __call__(self, op, x, y):
        # scenarios may settle comparisons that their stated bounds decide
        r = self.sc.order(self.it.eng, op, x, y)
        if r is not None:
            return r
        return self.it.eng.branch(self.it.fcmp(op, x, y))


class _Control:
    """decides the relation on one path after the other"""

    def __init__(self, sc, eng, rnd, deadline):
        self.sc, self.eng, self.rnd, self.deadline = sc, eng, rnd, deadline
        self.npath = self.validated = 0
        self.witnessed = False

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted after %d paths" % self.npath)

    def model(self):
        return self.concrete_ints if self.concrete_ints is not None else self.eng.model()

    def path(self, outs, a, concrete_ints=False):
        sc, eng, rnd, st = self.sc, self.eng, self.rnd, self.eng.stats
        self.npath += 1
        self.check_deadline()
        self.concrete_ints = {n: a[n] for n, sp in sc.specs.items() if isinstance(sp, Int)} if concrete_ints else None
        rel = list(sc.relation(outs, sc.derive(dict(a))))
        # encoding validation on this path: evaluate the terms numerically
        if self.validated < sc.validate and (self.npath == 1 or rnd.random() < 0.05):
            self.validated += validate_path(sc, eng, outs, rnd, self.model())
        for item in rel:
            if len(item) == 2:
                label, cond = item
                conds = np.asarray(cond, dtype=object).reshape(-1)
                for c in conds:
                    ok, m = eng.valid(c)
                    if not ok:
                        confirm(sc, eng, label, self.concrete_ints if concrete_ints else m, model_env(m), rnd)
                continue
            label, l, r = item[:3]
            if len(item) == 4 and item[3] == "pos":
                for v in np.asarray(l, dtype=object).reshape(-1):
                    cex = engine.decide_positive(eng, v, "%s/%s" % (sc.name, label))
                    if cex is not None:
                        confirm(sc, eng, label, self.model(), cex, rnd)
                continue
            logmode = len(item) == 4 and item[3] == "log"
            l, r = np.asarray(l, dtype=object), np.asarray(r, dtype=object)
            if l.shape != r.shape:
                confirm(sc, eng, label, self.model(), {}, rnd)
                continue
            lf, rf = l.reshape(-1).copy(), r.reshape(-1).copy()
            for i in range(lf.size):
                extra = getattr(sc, "extra", None)
                if logmode:
                    le, re_ = _c(lf[i]), _c(rf[i])
                    if le.sp is not None or re_.sp is not None or not (le.same(re_) or poly.is_zero(le - re_)):
                        lf[i], rf[i] = poly.exp(le), poly.exp(re_)
                cex = decide_equal(eng, lf[i], rf[i], "%s/%s[%d]" % (sc.name, label, i), extra)
                if cex is not None:
                    confirm(sc, eng, label, self.model(), cex, rnd)
                elif not self.witnessed:
                    # reachability witness: a perturbed assertion must be refuted
                    w = decide_equal(eng, lf[i], _c(rf[i]) + poly.ONE, "witness", extra)
                    st.queries -= 1
                    st.assertions -= 1
                    if w is None:
                        raise EncodingError("vacuous path condition in %s" % sc.name)
                    st.sat -= 1
                    self.witnessed = True


    def final(self, rel):
        """relations over all paths together, decided without a path condition"""
        sc, eng = self.sc, self.eng
        eng.pc = []
        for label, l, r in rel:
            cex = decide_equal(eng, l, r, "%s/%s" % (sc.name, label))
            if cex is not None:
                bad = sc.replay_final(label, cex, self.rnd)
                if bad:
                    raise Violation(sc.name, label, bad[0], bad[1])
                raise EncodingError("counterexample for %s/%s does not reproduce on the real code" % (sc.name, label))


def _c(x):
    return x if isinstance(x, Expr) else Expr.const(x)


def path_env(eng):
    """values of the symbolic reals that the path condition talks about"""
    env = {}
    if any(_mentions_real(c) for c in eng.pc):
        env = model_env(interior_model(eng))
    return env


def model_env(m):
    env = {}
    for d in m.decls() if m is not None else []:
        if d.arity() == 0 and d.range() == z3.RealSort():
            env[d.name()] = engine._num(m[d])
        elif d.arity() == 0 and "!" in d.name() and z3.is_bv_sort(d.range()):
            env[d.name()] = m[d].as_long()
    # a variable that also occurs exponentiated takes the value of its exponential
    for n, v in list(env.items()):
        if n.startswith("exp!") and n[4:].isdigit() and isinstance(v, (int, float, Fraction)) and v > 0:
            q = poly.T.arg[int(n[4:])]
            if len(q.d) == 1:
                (mono, c), = q.d.items()
                if len(mono) == 1 and mono[0][1] == 1 and poly.T.kind[mono[0][0]] == "var" and not isinstance(c, complex):
                    env[poly.T.name[mono[0][0]]] = math.log(v) / float(c)
    return env


def interior_model(eng, eps="1/1000"):
    """a model of the path condition away from the boundaries of its comparisons, if there is one"""
    from . import rng

    s = z3.Solver()
    s.set("timeout", 10000)
    for c in eng.pre + eng.pc:
        s.add(c)
    e = z3.RealVal(eps)
    for c in eng.pc:
        for op, l, r in rng.atoms_of(c):
            if op in ("le", "lt"):
                s.add(l + e <= r)
            elif op in ("ge", "gt"):
                s.add(l >= r + e)
    if s.check() == z3.sat:
        return s.model()
    return eng.model()


def _mentions_real(c):
    todo = [c]
    while todo:
        t = todo.pop()
        if z3.is_real(t) or (z3.is_const(t) and z3.is_bv(t) and "!" in t.decl().name()):
            return True
        todo.extend(t.children())
    return False


def validate_path(sc, eng, outs, rnd, m):
    """compare the symbolic outputs with the real execution at a random point"""
    if getattr(sc, "no_validate", False):
        return 0
    import jax

    env = path_env(eng)
    a = sc.concrete(m, env, rnd)
    real = sc.outs_real(a)
    sub = {}
    for n, sp in sc.specs.items():
        if isinstance(sp, (Real, Cplx)):
            for ix in np.ndindex(*sp.shape):
                sub[n + "_" + "_".join(map(str, ix))] = a[n][ix]
    fl_s = jax.tree_util.tree_leaves(outs)
    fl_r = jax.tree_util.tree_leaves(real)
    for s, r in zip(fl_s, fl_r):
        s = np.asarray(s)
        r = np.asarray(r)
        if s.shape != r.shape:
            raise EncodingError("shape mismatch %s vs %s in %s" % (s.shape, r.shape, sc.name))
        for ix in np.ndindex(*s.shape):
            v = s[ix]
            if isinstance(v, Expr):
                try:
                    v = poly.evaluate(v, sub)
                except KeyError:
                    return 0  # depends on opaque / nondeterministic symbols
                w = complex(r[ix])
                if not (np.isfinite(v) and np.isfinite(w)):
                    continue
                e1, e2 = v, w
                tol = getattr(sc, "rtol", 1e-6) * (1 + abs(w))
                if abs(e1 - e2) > tol and not _same_mod_2pi(e1, e2):
                    raise EncodingError("encoding disagrees with the implementation in %s: %s vs %s" % (sc.name, v, w))
            elif not jaxi.isz3(v):
                if r.dtype.kind in "iub" and int(v) != int(r[ix]):
                    raise EncodingError("encoding disagrees (int) in %s: %s vs %s" % (sc.name, v, r[ix]))
            else:
                sv = m.eval(v, model_completion=True)
                iv = (sv.as_signed_long() if r.dtype.kind == "i" else sv.as_long()) if z3.is_bv_value(sv) else bool(z3.is_true(sv))
                if int(iv) != int(r[ix]):
                    raise EncodingError("encoding disagrees (int) in %s: %s vs %s" % (sc.name, iv, r[ix]))
    return 1


def _same_mod_2pi(a, b):
    d = a - b
    if abs(d.real) > 1e-6 * (1 + abs(b)):
        return False
    k = d.imag / (2 * np.pi)
    return abs(k - round(k)) < 1e-6


def confirm(sc, eng, label, zm, cex, rnd):
    """replay a solver counterexample on the real code"""
    if hasattr(sc, "replay_symbolic"):
        r = sc.replay_symbolic(eng, label, zm, cex, rnd)
        if r is not None:
            raise Violation(sc.name, label, r[0], r[1])
        raise EncodingError("counterexample for %s/%s does not reproduce" % (sc.name, label))
    tried = []
    base = {k: v for k, v in cex.items()}
    penv = path_env(eng)
    for k in range(8):
        env = base if k == 0 else penv
        a = sc.concrete(zm, env, rnd)
        try:
            bad = try_concrete(sc, a)
        except FloatingPointError:
            continue
        bad = [b for b in bad if not ("nan" in b[1] and "nan" in b[2])]
        if bad:
            raise Violation(sc.name, label, a, bad)
    raise EncodingError("counterexample for %s/%s does not reproduce on the real code" % (sc.name, label))


class DrawScenario(Scenario):
    """the code draws random numbers: every draw is a symbolic input (symx/rng.py)"""
    lockstep = False
    fork_select = True
    fork_cmp = True

    def prepare(self):
        from . import rng

        rng.install()

    def example(self, rnd):
        a = Scenario.example(self, rnd)
        a["__draws__"] = {}
        # another default draw per example
        import jax
        for n, sp in self.specs.items():
            if isinstance(sp, Key):
                a[n] = np.asarray(jax.random.PRNGKey(rnd.randrange(1000)))
        return a

    def concrete(self, zmodel, env, rnd):
        a = Scenario.concrete(self, zmodel, env, rnd)
        a["__draws__"] = {n: v for n, v in env.items() if n[:2] in ("u!", "i!", "p!")}
        return a

    def outs_real(self, a):
        import jax
        from . import rng

        rng.TABLE.clear()
        rng.USED.clear()
        rng.TABLE.update(a.get("__draws__") or {})
        args = self.derive({k: v for k, v in a.items() if k != "__draws__"})
        r = self.fn(**{k: (jax.numpy.asarray(v) if isinstance(v, np.ndarray) else v) for k, v in args.items()})
        return jax.tree_util.tree_map(np.asarray, r)

    def outs_py(self, eng, args):
        import jax
        from . import rng

        names = [n for n in args if n != "__draws__"]
        if self._jx is None:
            ex = self.example(random.Random(7))
            ex = self.derive({k: v for k, v in ex.items() if k != "__draws__"})
            self._jx, self._tree = jax.make_jaxpr(
                lambda *xs: self.fn(**dict(zip(names, xs))), return_shape=True)(
                    *[jax.numpy.asarray(ex[n]) if isinstance(ex[n], np.ndarray) else ex[n] for n in names])
            self._def = jax.tree_util.tree_structure(self._tree)
        self.draws = rng.Draws(eng)
        it = jaxi.Interp(eng, rng=self.draws, unwind=self.unwind, opaque_prims=self.opaque())
        it.fork_select, it.fork_cmp = self.fork_select, self.fork_cmp
        vals = [np.asarray(args[n]) if not hasattr(args[n], "dtype") else args[n] for n in names]
        outs = it.run(self._jx, *vals)
        self.interp = it
        return jax.tree_util.tree_unflatten(self._def, outs)
