"""Symbolic interpreter for jaxprs (the compiler IR that jax.make_jaxpr extracts
from /repo's current source).  Floats -> poly.Expr (exact reals/complex), ints and
bools -> concrete numpy or z3 bit-vectors / booleans; control decisions that depend
on symbolic data are forked by engine.Engine."""
import itertools
from fractions import Fraction

import numpy as np
import z3

import jax
import jax.numpy as jnp
from jax import lax

from . import engine, poly
from .poly import Expr, Unsupported, ZERO, ONE
from .engine import ToZ3

try:
    from jax.extend import core as jcore
    Literal = jcore.Literal
except Exception:  # pragma: no cover
    from jax import core as jcore
    Literal = jcore.Literal
from jax import core as _core

Literal = _core.Literal if hasattr(_core, "Literal") else Literal


def is_float(dt):
    return jnp.issubdtype(dt, jnp.inexact)


def is_complex(dt):
    return jnp.issubdtype(dt, jnp.complexfloating)


def is_key(dt):
    return jnp.issubdtype(dt, jax.dtypes.prng_key)


def is_boolt(dt):
    return np.dtype(dt) == np.bool_


def to_expr_array(x):
    x = np.asarray(x)
    if x.dtype == object:
        return x
    if x.size > 4:
        u, inv = np.unique(x.reshape(-1), return_inverse=True)
        if u.size < x.size:
            pool = np.empty(u.size, dtype=object)
            for i, v in enumerate(u.tolist()):
                pool[i] = Expr.const(v)
            return pool[inv.reshape(-1)].reshape(x.shape)
    out = np.empty(x.shape, dtype=object)
    flat = x.reshape(-1)
    o = out.reshape(-1) if out.shape else None
    if out.shape == ():
        out[()] = Expr.const(x[()].item())
        return out
    for i in range(flat.size):
        o[i] = Expr.const(flat[i].item())
    return o.reshape(x.shape)


def obj(shape, it=None):
    a = np.empty(shape, dtype=object)
    if it is not None:
        flat = list(it)
        b = np.empty(len(flat), dtype=object)
        for i, v in enumerate(flat):
            b[i] = v
        a = b.reshape(shape)
    return a


def symarray(name, shape, complex_=False):
    shape = tuple(shape)
    return obj(shape, (poly.var(name + "_" + "_".join(map(str, ix)), complex_)
                       for ix in itertools.product(*map(range, shape))))


def assign_from(name, shape, env, complex_=False, default=None):
    """concrete numpy array for symarray(name...) from a model"""
    out = np.zeros(shape, dtype=complex if complex_ else float)
    for n, ix in enumerate(itertools.product(*map(range, shape))):
        nm = name + "_" + "_".join(map(str, ix))
        if complex_:
            r = env.get(nm + ".re")
            i = env.get(nm + ".im")
            if r is None and i is None:
                v = default(nm) if default else 1.0
            else:
                v = complex(r or 0.0, i or 0.0)
        else:
            v = env.get(nm)
            if v is None:
                v = default(nm) if default else 1.0
        out[ix] = v
    return out


def bvwidth(dt):
    return np.dtype(dt).itemsize * 8


def signed(dt):
    return np.issubdtype(np.dtype(dt), np.signedinteger)


def to_bv(v, dt):
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if isinstance(v, (int, np.integer)):
        return z3.BitVecVal(int(v), bvwidth(dt))
    return v


def wrap_int(v, dt):
    w = bvwidth(dt)
    v &= (1 << w) - 1
    if signed(dt) and v >> (w - 1):
        v -= 1 << w
    return v


def isz3(v):
    return isinstance(v, z3.ExprRef)


def norm_int(arr, dt):
    """object int/bool array -> numeric when fully concrete"""
    if arr.dtype != object:
        return arr
    for v in arr.reshape(-1):
        if isz3(v):
            sv = z3.simplify(v)
            if not (z3.is_bv_value(sv) or z3.is_true(sv) or z3.is_false(sv)):
                return arr
    out = np.empty(arr.shape, dtype=dt)
    o = out.reshape(-1)
    for i, v in enumerate(arr.reshape(-1)):
        if isz3(v):
            v = z3.simplify(v)
            if z3.is_bv_value(v):
                v = v.as_signed_long() if signed(dt) else v.as_long()
            else:
                v = z3.is_true(v)
        o[i] = v
    return o.reshape(arr.shape)


class RNG:
    """Nondeterministic stubs for jax.random draws, indexed by the key data so
    that reusing a key yields the same draw."""

    def __init__(self):
        self.log = []


_dce = {}


def dce(jaxpr):
    """drop operations whose results are not used (same semantics)"""
    if jaxpr not in _dce:
        from jax.interpreters import partial_eval as pe

        if jaxpr.effects:
            _dce[jaxpr] = jaxpr
        else:
            _dce[jaxpr] = pe.dce_jaxpr(jaxpr, [True] * len(jaxpr.outvars), instantiate=True)[0]
    return _dce[jaxpr]


class Interp:
    def __init__(self, eng, rng=None, unwind=64, opaque_prims=None, stats=None):
        self.eng = eng
        self.rng = rng
        self.unwind = unwind
        self.tz = ToZ3()
        self._side = 0
        self.opaque = opaque_prims or {}
        self.max_opaque = {}
        self.named = {}
        self.fork_select = self.fork_cmp = False

    # ------------------------------------------------------------ entry
    def run(self, closed, *args):
        return self.eval(dce(closed.jaxpr), closed.consts, *args)

    def eval(self, jaxpr, consts, *args):
        env = {}

        def read(v):
            if isinstance(v, Literal):
                return self.lift(v.val, v.aval.dtype)
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = self.lift(c, v.aval.dtype)
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            self.eng.stats.eqns += 1
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def lift(self, val, dtype):
        if is_key(dtype):
            return val
        if isinstance(val, np.ndarray) and val.dtype == object:
            return val
        val = np.asarray(val)
        if is_float(dtype):
            return to_expr_array(val)
        return val.astype(dtype) if val.dtype != dtype else val

    # ------------------------------------------------------------ helpers
    def conc(self, arr, dt):
        """fully concrete int/bool array (forking if needed)"""
        if arr.dtype != object:
            return arr
        out = np.empty(arr.shape, dtype=dt)
        o = out.reshape(-1)
        src = arr.reshape(-1)
        sg = (not is_boolt(dt)) and signed(dt)
        for i in range(o.size):
            o[i] = self.eng.concretise(src[i], sg) if isz3(src[i]) else src[i]
        return o.reshape(arr.shape)

    def zreal(self, e):
        if not poly.is_real(e):
            raise Unsupported("ordering of complex values")
        num_e, r = e, None
        tz = self.tz
        re, im = tz.expr(e)
        while self._side < len(tz.side):
            self.eng.assume(tz.side[self._side])
            self._side += 1
        return re

    def fcmp(self, op, a, b):
        d = a
        if a.sp is not None or b.sp is not None:
            va = {"ninf": -1, "pinf": 1, None: 0, "nan": None}[a.sp]
            vb = {"ninf": -1, "pinf": 1, None: 0, "nan": None}[b.sp]
            if va is None or vb is None:
                return op == "ne"
            return {"lt": va < vb, "le": va <= vb, "gt": va > vb, "ge": va >= vb,
                    "eq": va == vb, "ne": va != vb}[op]
        d = a - b
        if d.is_const():
            v = d.const_value()
            return {"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0,
                    "eq": v == 0, "ne": v != 0}[op]
        if op in ("eq", "ne"):
            if poly.is_zero(d):
                return op == "eq"
            if not poly.is_real(d):
                # generic complex values are assumed distinct from each other
                self.eng.stats.assumptions.add(
                    "complex symbolic values that are not identically equal are distinct")
                return op == "ne"
            if getattr(self, "generic", False):
                self.eng.stats.assumptions.add("real values that are not identically equal are distinct (generic inputs)")
                return op == "ne"
            d, = engine.clear_denominators(d)
        z = self.zreal(d)
        return {"lt": z < 0, "le": z <= 0, "gt": z > 0, "ge": z >= 0,
                "eq": z == 0, "ne": z != 0}[op]

    # ------------------------------------------------------------ dispatch
    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        p = eqn.params
        st = self.eng.stats
        st.prims[name] = st.prims.get(name, 0) + 1
        ho = HIGHER.get(name)
        if ho is not None:
            return ho(self, eqn, ins)
        if name in self.opaque:
            return self.opaque[name](self, eqn, ins)
        indt = [v.aval.dtype for v in eqn.invars]
        outdt = [v.aval.dtype for v in eqn.outvars]
        anyfloat = any(is_float(d) for d in indt if not is_key(d)) or any(
            is_float(d) for d in outdt if not is_key(d))
        if name.startswith("random_"):
            if name == "random_bits":
                return rng_bits(self, eqn, ins)
            if any(isinstance(x, np.ndarray) and x.dtype == object for x in ins):
                raise Unsupported("symbolic RNG key")
            r = eqn.primitive.bind(*[jnp.asarray(x) if isinstance(x, np.ndarray) else x for x in ins], **p)
            return [r if is_key(outdt[0]) else np.asarray(r)]
        sym = any(isinstance(x, np.ndarray) and x.dtype == object for x in ins)
        if not anyfloat and not sym:
            return self.bind(eqn, ins)
        if name == "sort" and ins[0].shape[p["dimension"]] == 1:
            return list(ins)
        if name in MOVE:
            return MOVE[name](self, eqn, ins)
        if anyfloat and name in FLOAT:
            return FLOAT[name](self, eqn, ins)
        if not anyfloat and name in INT:
            return INT[name](self, eqn, ins)
        if not anyfloat:
            # integer op without a symbolic rule: fork to concrete values
            cins = [self.conc(x, d) if isinstance(x, np.ndarray) else x for x, d in zip(ins, indt)]
            return self.bind(eqn, cins)
        raise Unsupported("primitive %s (%s)" % (name, [str(d) for d in indt]))

    def bind(self, eqn, ins):
        r = eqn.primitive.bind(*[x if not isinstance(x, np.ndarray) else jnp.asarray(x) for x in ins],
                               **eqn.params)
        if not eqn.primitive.multiple_results:
            r = [r]
        return [x if is_key(x.dtype) else np.asarray(x) for x in r]


# ================================================================ higher order
HIGHER = {}


def higher(*names):
    def d(f):
        for n in names:
            HIGHER[n] = f
        return f
    return d


@higher("pjit")
def _pjit(self, eqn, ins):
    nm = eqn.params.get("name")
    h = NAMED.get(nm)
    if nm in self.named:
        h = self.named[nm]
    if h is not None:
        r = h(self, eqn, ins)
        if r is not None:
            return r
    c = eqn.params["jaxpr"]
    return self.eval(c.jaxpr, c.consts, *ins)


@higher("closed_call", "core_call", "remat_call", "custom_vjp_call_jaxpr", "custom_jvp_call",
        "custom_vjp_call", "remat", "checkpoint", "custom_lin")
def _call(self, eqn, ins):
    p = eqn.params
    for k in ("call_jaxpr", "fun_jaxpr", "jaxpr"):
        if k in p:
            c = p[k]
            break
    else:
        raise Unsupported("call without jaxpr: %s" % eqn.primitive.name)
    if hasattr(c, "consts"):
        return self.eval(c.jaxpr, c.consts, *ins)
    return self.eval(c, (), *ins)


@higher("custom_linear_solve")
def _cls(self, eqn, ins):
    p = eqn.params
    cl = p["const_lengths"]
    jx = p["jaxprs"]
    n_m, n_v, n_s = cl.matvec, cl.vecmat, cl.solve
    n_t = cl.transpose_solve
    sc = ins[n_m + n_v:n_m + n_v + n_s]
    b = ins[n_m + n_v + n_s + n_t:]
    return self.eval(jx.solve.jaxpr, jx.solve.consts, *sc, *b)


@higher("cond")
def _cond(self, eqn, ins):
    br = eqn.params["branches"]
    idx = ins[0]
    dt = eqn.invars[0].aval.dtype
    idx = self.conc(np.asarray(idx), dt)
    k = int(np.clip(int(idx), 0, len(br) - 1))
    return self.eval(br[k].jaxpr, br[k].consts, *ins[1:])


@higher("while")
def _while(self, eqn, ins):
    p = eqn.params
    cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
    nc, nb = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, carry = ins[:nc], ins[nc:nc + nb], list(ins[nc + nb:])
    n = 0
    while True:
        c, = self.eval(cj.jaxpr, cj.consts, *cc, *carry)
        if isinstance(c, np.ndarray) and c.shape:
            # vmapped loop: runs while any lane is active, finished lanes keep their carry
            lanes = self.conc(c, np.bool_)
            go = bool(np.any(lanes))
        else:
            c = c[()] if isinstance(c, np.ndarray) else c
            lanes = None
            go = self.eng.branch(c if isz3(c) else bool(c))
        if not go:
            return carry
        n += 1
        if n > self.unwind:
            raise Unsupported("unwinding assertion: while loop needs more than %d iterations" % self.unwind)
        new = self.eval(bj.jaxpr, bj.consts, *bc, *carry)
        if lanes is not None and not lanes.all():
            sel = []
            for x, y in zip(new, carry):
                if not isinstance(x, np.ndarray) or not isinstance(y, np.ndarray):
                    raise Unsupported("vmapped loop over keys")
                w = lanes.reshape(lanes.shape + (1,) * (x.ndim - lanes.ndim))
                if x.dtype == object or y.dtype == object:
                    x = x if x.dtype == object else _asobj(x)
                    y = y if y.dtype == object else _asobj(y)
                sel.append(np.where(w, x, y))
            new = sel
        carry = new


@higher("scan")
def _scan(self, eqn, ins):
    p = eqn.params
    nc, nk = p["num_consts"], p["num_carry"]
    j = p["jaxpr"]
    L = p["length"]
    consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
    order = range(L - 1, -1, -1) if p["reverse"] else range(L)
    ys = [None] * L
    for i in order:
        sl = [_take0(x, i) for x in xs]
        out = self.eval(j.jaxpr, j.consts, *consts, *carry, *sl)
        carry = out[:nk]
        ys[i] = out[nk:]
    res = list(carry)
    for k, v in enumerate(eqn.outvars[nk:]):
        if L == 0:
            a = np.zeros(v.aval.shape, dtype=object if is_float(v.aval.dtype) else v.aval.dtype)
            res.append(a)
            continue
        if is_key(v.aval.dtype):
            res.append(jnp.stack([y[k] for y in ys]))
            continue
        parts = [np.asarray(y[k]) for y in ys]
        res.append(stack0(parts))
    return res


def stack0(parts):
    if any(q.dtype == object for q in parts):
        a = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, q in enumerate(parts):
            a[i] = q if q.shape else q[()]
        return a
    return np.stack(parts)


def _take0(x, i):
    if isinstance(x, np.ndarray):
        r = x[i]
        if not isinstance(r, np.ndarray):
            a = np.empty((), dtype=x.dtype)
            a[()] = r
            r = a
        return r
    return x[i]


# ================================================================ named pjit
NAMED = {}


def named(*ns):
    def d(f):
        for n in ns:
            NAMED[n] = f
        return f
    return d


def rng_bits(self, eqn, ins):
    raise Unsupported("raw random bits")


def sym_det(M):
    """determinant of a square object matrix (Laplace with memo; exact)"""
    n = M.shape[0]
    if n == 0:
        return ONE
    memo = {}

    def rec(r, cols):
        if r == n:
            return ONE
        if cols in memo:
            return memo[cols]
        tot = ZERO
        s = 1
        for k, c in enumerate(cols):
            e = M[r, c]
            if not e.is_zero():
                sub = rec(r + 1, cols[:k] + cols[k + 1:])
                t = e * sub
                tot = tot + t if s > 0 else tot - t
            s = -s
        memo[cols] = tot
        return tot

    return rec(0, tuple(range(n)))


def sym_inv(M):
    n = M.shape[0]
    d = sym_det(M)
    out = np.empty((n, n), dtype=object)
    if n == 0:
        return out
    for i in range(n):
        for j in range(n):
            rows = [r for r in range(n) if r != j]
            cols = [c for c in range(n) if c != i]
            minor = sym_det(M[np.ix_(rows, cols)])
            if (i + j) % 2:
                minor = -minor
            out[i, j] = poly.div(minor, d)
    return out


def _layout(eqn, nout_core, ref):
    """Which two input axes of a (possibly vmapped) linear-algebra call are the matrix
    axes and where the output axes went: recognised by running the real call once on
    random numbers.  ref(stack of matrices) -> list of stacked outputs whose core
    (unbatched) ranks are nout_core.  Returns (in_perm, out_perms) or None."""
    key = id(eqn)
    hit = _LAYOUTS.get(key)
    if hit is not None and hit[0] is eqn:
        return hit[1]
    aval = eqn.invars[0].aval
    shp = aval.shape
    r = np.random.RandomState(len(shp) + 5 * int(np.prod(shp)))
    x = r.normal(size=shp) + (1j * r.normal(size=shp) if is_complex(aval.dtype) else 0)
    x = x.astype(aval.dtype)
    real = eqn.primitive.bind(jnp.asarray(x), **eqn.params)
    real = [np.asarray(q) for q in real]
    found = None
    nd = len(shp)
    for (i, j) in itertools.permutations(range(nd), 2):
        if shp[i] != shp[j]:
            continue
        rest = [d for d in range(nd) if d not in (i, j)]
        out = [np.asarray(q) for q in ref(np.transpose(x, rest + [i, j]))]
        if len(out) != len(real):
            return None
        perms = []
        for o, q in zip(out, real):
            hitp = None
            if o.ndim == q.ndim:
                for pm in itertools.permutations(range(o.ndim)):
                    if np.transpose(o, pm).shape == q.shape and np.allclose(np.transpose(o, pm), q, atol=1e-5, rtol=1e-5):
                        hitp = pm
                        break
            perms.append(hitp)
        if all(q is not None for q in perms):
            found = (rest + [i, j], perms)
            break
    _LAYOUTS[key] = (eqn, found)
    return found


_LAYOUTS = {}


def _batched(M, core, outs, lay):
    perm, operms = lay
    M = np.transpose(M, perm)
    bs = M.shape[:-2]
    res = [np.empty(bs + s, dtype=object) for s in outs]
    memo = {}
    for ix in np.ndindex(*bs):
        k = tuple(map(id, M[ix].reshape(-1).tolist()))
        r = memo.get(k)
        if r is None:
            r = memo[k] = core(M[ix])
        for a, v in zip(res, r):
            a[ix] = v
    return [np.transpose(a, pm) for a, pm in zip(res, operms)]


@named("slogdet")
def _slogdet(self, eqn, ins):
    if len(ins) != 1:
        return None
    M = ins[0]
    cx = is_complex(eqn.invars[0].aval.dtype)
    lay = _layout(eqn, None, np.linalg.slogdet)
    if lay is None or M.shape[lay[0][-1]] > 7:
        return None

    def core(m):
        d = sym_det(m)
        if d.is_zero():
            return ZERO, poly.NINF
        if not cx and poly.is_real(d):
            s = poly.sign(d)
            return s, poly.log(poly.absolute(d))
        a = poly.absolute(d)
        return poly.div(d, a) if not poly.is_real(d) else poly.sign(d), poly.log(a)

    return _batched(M, core, [(), ()], lay)


@named("det", "_det")
def _det(self, eqn, ins):
    if len(ins) != 1:
        return None
    lay = _layout(eqn, None, lambda q: [np.linalg.det(q)])
    if lay is None or ins[0].shape[lay[0][-1]] > 7:
        return None
    return _batched(ins[0], lambda m: (sym_det(m),), [()], lay)


@named("inv", "_inv")
def _inv(self, eqn, ins):
    if len(ins) != 1:
        return None
    lay = _layout(eqn, None, lambda q: [np.linalg.inv(q)])
    if lay is None or ins[0].shape[lay[0][-1]] > 6:
        return None
    n = ins[0].shape[lay[0][-1]]
    return _batched(ins[0], lambda m: (sym_inv(m),), [(n, n)], lay)


@named("_pinv")
def _pinv(self, eqn, ins):
    """pseudo-inverse of a matrix of full rank (a single number is left to the singular values)"""
    M = ins[0]
    if M.ndim != 2 or M.shape[0] != M.shape[1] or not 2 <= M.shape[0] <= 5:
        return None
    M = to_expr_array(M) if M.dtype != object else M
    if "eigh[" in str(eqn.params["jaxpr"]):
        half = Expr.const(Fraction(1, 2))
        M = np.array([[(M[i, j] + poly.conj(M[j, i])) * half for j in range(len(M))] for i in range(len(M))], dtype=object)
    self.eng.stats.assumptions.add("pseudo-inverse: the matrix has full rank and all its singular values exceed the cutoff")
    return [sym_inv(M)]


def sym_pinv(M):
    """Moore-Penrose inverse through a full-rank factorisation M = C F; the rank is that of the
    matrix of expressions (so a determinant that is not identically zero is taken as nonzero)"""
    def H(X):
        return np.array([[poly.conj(X[i, j]) for i in range(X.shape[0])] for j in range(X.shape[1])], dtype=object).reshape(X.shape[1], X.shape[0])

    def mm(X, Y):
        out = np.empty((X.shape[0], Y.shape[1]), dtype=object)
        for i in range(X.shape[0]):
            for j in range(Y.shape[1]):
                v = Expr.const(0)
                for k in range(X.shape[1]):
                    v = v + X[i, k] * Y[k, j]
                out[i, j] = v
        return out

    m, n = M.shape
    cols = []
    for j in range(n):
        t = cols + [j]
        if len(t) <= m and any(not poly.is_zero(sym_det(M[np.ix_(r, t)])) for r in itertools.combinations(range(m), len(t))):
            cols = t
    if not cols:
        return np.array([[Expr.const(0)] * m for _ in range(n)], dtype=object)
    if len(cols) == m == n:
        return sym_inv(M)
    if len(cols) == 1:
        t = Expr.const(0)
        MH = H(M)
        for i in range(m):
            for j in range(n):
                t = t + M[i, j] * MH[j, i]
        return np.array([[poly.div(MH[j, i], t) for i in range(m)] for j in range(n)], dtype=object)
    C = M[:, cols]
    CH = H(C)
    P = mm(sym_inv(mm(CH, C)), CH)
    F = mm(P, M)
    FH = H(F)
    return mm(mm(FH, sym_inv(mm(F, FH))), P)


@named("<unnamed wrapped function>", "_lstsq")
def _lstsq(self, eqn, ins):
    """least squares of minimal norm; only the solution itself is provided"""
    if len(ins) not in (2, 3) or ins[0].ndim != 2 or ins[1].ndim not in (1, 2) or "svd[" not in str(eqn.params["jaxpr"]):
        return None
    M, b = ins[0], ins[1]
    if max(M.shape) > 4 :
        return None
    try:
        rest = [np.array(poly.evaluate(v.item(), {}).real) if v.dtype == object else v for v in ins[2:]]
    except KeyError:
        return None
    # recognised by what it does: the real call on random numbers (of full and of deficient rank)
    g = np.random.default_rng(5)
    for r in (min(M.shape), 1):
        t = [g.normal(size=(M.shape[0], r)) @ g.normal(size=(r, M.shape[1])), g.normal(size=b.shape)]
        t = [(u * (1 + 0.5j) if np.dtype(v.aval.dtype).kind == "c" else u).astype(v.aval.dtype) for u, v in zip(t, eqn.invars)]
        c = eqn.params["jaxpr"]
        o = jax.core.eval_jaxpr(c.jaxpr, c.consts, *t, *rest)[0]
        w = np.linalg.lstsq(t[0], t[1], rcond=1e-12)[0]
        if o.shape != w.shape or not np.allclose(o, w, atol=1e-8, rtol=1e-8):
            return None
    M = to_expr_array(M) if M.dtype != object else M
    b = to_expr_array(b) if b.dtype != object else b
    self.eng.stats.assumptions.add("least squares: minors that are not identically zero are nonzero, and the nonzero singular values exceed the cutoff")
    Pi = sym_pinv(M)
    x = np.empty((M.shape[1],) + b.shape[1:], dtype=object)
    for ix in np.ndindex(*x.shape):
        v = Expr.const(0)
        for k in range(M.shape[0]):
            v = v + Pi[ix[0], k] * b[(k,) + ix[1:]]
        x[ix] = v
    return [x] + [np.full(o.aval.shape, None, dtype=object) for o in eqn.outvars[1:]]


@higher("lu")
def _lu(self, eqn, ins):
    M = ins[0]
    if M.dtype != object:
        M = to_expr_array(M)
    bs = M.shape[:-2]
    m, n = M.shape[-2:]
    k = min(m, n)
    LU = np.empty(M.shape, dtype=object)
    piv = np.zeros(bs + (k,), dtype=np.int32)
    perm = np.zeros(bs + (m,), dtype=np.int32)
    self.eng.stats.assumptions.add("LU pivots: any pivot that is not identically zero is nonzero")
    for ix in np.ndindex(*bs):
        A = M[ix].copy()
        pr = list(range(m))
        for j in range(k):
            pv = None
            for r in range(j, m):
                if not poly.is_zero(A[r, j]):
                    pv = r
                    break
            if pv is None:
                piv[ix + (j,)] = j
                continue
            piv[ix + (j,)] = pv
            if pv != j:
                A[[j, pv]] = A[[pv, j]]
                pr[j], pr[pv] = pr[pv], pr[j]
            for r in range(j + 1, m):
                f = poly.div(A[r, j], A[j, j])
                A[r, j] = f
                for c in range(j + 1, n):
                    A[r, c] = A[r, c] - f * A[j, c]
        LU[ix] = A
        perm[ix] = pr
    return [LU, piv, perm]


@higher("triangular_solve")
def _trisolve(self, eqn, ins):
    a, b = [x if x.dtype == object else to_expr_array(x) for x in ins]
    p = eqn.params
    bs = a.shape[:-2]
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*bs):
        A, B = a[ix], b[ix]
        if p["conjugate_a"]:
            A = ew(poly.conj, A)
        lower = p["lower"]
        if p["transpose_a"]:
            A = A.T
            lower = not lower
        if not p["left_side"]:
            # X A = B  <=>  A^T X^T = B^T
            A = A.T
            lower = not lower
            B = B.T
        n = A.shape[0]
        X = np.empty(B.shape, dtype=object)
        order = range(n) if lower else range(n - 1, -1, -1)
        for c in range(B.shape[1]):
            for r in order:
                s = B[r, c]
                rng = range(r) if lower else range(r + 1, n)
                for q in rng:
                    if not A[r, q].is_zero():
                        s = s - A[r, q] * X[q, c]
                X[r, c] = s if p["unit_diagonal"] else poly.div(s, A[r, r])
        out[ix] = X if p["left_side"] else X.T
    return [out]


# ================================================================ data movement
MOVE = {}


def move(*names):
    def d(f):
        for n in names:
            MOVE[n] = f
        return f
    return d


def _ids(shapes):
    base = 0
    out = []
    for s in shapes:
        n = int(np.prod(s)) if len(s) else 1
        out.append(np.arange(base, base + n, dtype=np.int32).reshape(s))
        base += n
    return out, base


def _pool(arrs):
    flat = []
    for a in arrs:
        flat.extend(a.reshape(-1).tolist() if a.dtype != object else list(a.reshape(-1)))
    pool = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        pool[i] = v
    return pool


def _from_ids(ids, pool, dt):
    ids = np.asarray(ids)
    if ids.shape == ():
        out = np.empty((), dtype=object)
        out[()] = pool[int(ids)]
    else:
        out = pool[ids]
    return out if is_float(dt) else norm_int(out, dt)


@move("reshape", "squeeze", "expand_dims")
def _reshape(self, eqn, ins):
    return [np.asarray(ins[0]).reshape(eqn.outvars[0].aval.shape)]


@move("copy", "copy_p", "device_put", "stop_gradient", "reduce_precision", "optimization_barrier", "sharding_constraint")
def _id(self, eqn, ins):
    return list(ins)


@move("transpose")
def _transpose(self, eqn, ins):
    return [np.transpose(ins[0], eqn.params["permutation"])]


@move("broadcast_in_dim")
def _bid(self, eqn, ins):
    shape = eqn.outvars[0].aval.shape
    bd = eqn.params["broadcast_dimensions"]
    x = np.asarray(ins[0])
    s = [1] * len(shape)
    for i, d in enumerate(bd):
        s[d] = x.shape[i]
    return [np.broadcast_to(x.reshape(s), shape)]


@move("rev")
def _rev(self, eqn, ins):
    x = ins[0]
    sl = [slice(None)] * x.ndim
    for d in eqn.params["dimensions"]:
        sl[d] = slice(None, None, -1)
    return [x[tuple(sl)]]


@move("slice")
def _slice(self, eqn, ins):
    p = eqn.params
    st = p["strides"] or (1,) * ins[0].ndim
    return [ins[0][tuple(slice(a, b, c) for a, b, c in zip(p["start_indices"], p["limit_indices"], st))]]


@move("concatenate")
def _concat(self, eqn, ins):
    ax = eqn.params["dimension"]
    if any(x.dtype == object for x in ins):
        ins = [x if x.dtype == object else _asobj(x) for x in ins]
    return [np.concatenate(ins, axis=ax)]


def _asobj(x):
    out = np.empty(x.shape, dtype=object)
    f = x.reshape(-1)
    o = out.reshape(-1) if x.shape else None
    if not x.shape:
        out[()] = x[()].item()
        return out
    for i in range(f.size):
        o[i] = f[i].item()
    return o.reshape(x.shape)


def _generic_move(data_pos):
    """run the primitive on element ids with concrete index operands"""
    def f(self, eqn, ins):
        shapes = [ins[k].shape for k in data_pos]
        ids, n = _ids(shapes)
        pool = _pool([ins[k] for k in data_pos])
        args = []
        for k, x in enumerate(ins):
            if k in data_pos:
                args.append(jnp.asarray(ids[data_pos.index(k)]))
            else:
                args.append(jnp.asarray(self.conc(np.asarray(x), eqn.invars[k].aval.dtype)))
        r = eqn.primitive.bind(*args, **eqn.params)
        return [_from_ids(r, pool, eqn.outvars[0].aval.dtype)]
    return f


MOVE["dynamic_slice"] = _generic_move([0])
MOVE["dynamic_update_slice"] = _generic_move([0, 1])
MOVE["pad"] = _generic_move([0, 1])


@move("gather")
def _gather(self, eqn, ins):
    x, idx = ins
    idt = eqn.invars[1].aval.dtype
    dt = eqn.outvars[0].aval.dtype
    if idx.dtype == object and not is_float(dt):
        r = _gather_sym(self, eqn, x, idx)
        if r is not None:
            return r
    idx = self.conc(idx, idt)
    ids = np.arange(x.size, dtype=np.int32).reshape(x.shape)
    p = dict(eqn.params)
    fv = p.get("fill_value")
    mode = p["mode"]
    p["fill_value"] = -1
    r = np.asarray(eqn.primitive.bind(jnp.asarray(ids), jnp.asarray(idx), **p))
    pool = _pool([x])
    if mode == lax.GatherScatterMode.FILL_OR_DROP:
        if fv is None:
            if is_float(dt):
                f = poly.NAN
            elif is_boolt(dt):
                f = True
            else:
                f = np.iinfo(dt).max if not signed(dt) else np.iinfo(dt).min
        else:
            f = Expr.const(fv) if is_float(dt) else fv
        pool2 = np.empty(len(pool) + 1, dtype=object)
        pool2[:-1] = pool
        pool2[-1] = f
        pool = pool2
        r = np.where(r < 0, len(pool) - 1, r)
    return [_from_ids(r, pool, dt)]


def _gather_sym(self, eqn, x, idx):
    """integer gather at a symbolic index: ite-merge for the simple 1-index case"""
    dn = eqn.params["dimension_numbers"]
    if idx.shape[-1] != 1 or len(dn.start_index_map) != 1:
        return None
    ax = dn.start_index_map[0]
    if getattr(dn, "operand_batching_dims", ()):
        return None
    dt = eqn.outvars[0].aval.dtype
    idt = eqn.invars[1].aval.dtype
    n = x.shape[ax] - eqn.params["slice_sizes"][ax] + 1
    outs = []
    for v in range(n):
        c = np.full(idx.shape, v, dtype=idt)
        p = dict(eqn.params)
        ids = np.arange(x.size, dtype=np.int32).reshape(x.shape)
        p["fill_value"] = -1
        r = np.asarray(eqn.primitive.bind(jnp.asarray(ids), jnp.asarray(c), **p))
        outs.append(r)
    # which output elements belong to which index element
    nidx = int(np.prod(idx.shape[:-1])) if idx.ndim > 1 else 1
    # ids of index: gather from broadcast: offset dims vs batch dims
    offs = dn.offset_dims
    oshape = outs[0].shape
    batch_dims = [d for d in range(len(oshape)) if d not in offs]
    bshape = tuple(oshape[d] for d in batch_dims)
    sym = idx.reshape(idx.shape[:-1])
    pool = _pool([x])
    res = np.empty(oshape, dtype=object)
    w = bvwidth(idt)
    mode = eqn.params["mode"]
    for ix in np.ndindex(*oshape):
        b = tuple(ix[d] for d in batch_dims)
        t = sym[b] if b else sym[()]
        if not isz3(t):
            t = int(t)
            k = min(max(t, 0), n - 1)
            res[ix] = pool[int(outs[k][ix])]
            if mode == lax.GatherScatterMode.FILL_OR_DROP and not (0 <= t < n):
                return None
            continue
        if mode == lax.GatherScatterMode.FILL_OR_DROP:
            # out of range must be excluded by the path condition
            oob = z3.Or(t < 0, t >= n) if signed(idt) else z3.UGE(t, n)
            if self.eng._check(oob):
                return None
        acc = pool[int(outs[n - 1][ix])]
        acc = _tosym(acc, dt)
        for v in range(n - 2, -1, -1):
            e = _tosym(pool[int(outs[v][ix])], dt)
            cond = (t <= v) if (v == 0 and signed(idt)) else (t == v)
            acc = z3.If(cond, e, acc)
        res[ix] = z3.simplify(acc)
    return [norm_int(res, dt)]


def _tosym(v, dt):
    if is_boolt(dt):
        return z3.BoolVal(bool(v)) if not isz3(v) else v
    return to_bv(v, dt)


def _scatter_targets(self, eqn, operand, idx, updates):
    dn = eqn.params["dimension_numbers"]
    uw = dn.update_window_dims
    slice_sizes = []
    k = 0
    ins_w = set(dn.inserted_window_dims) | set(getattr(dn, "operand_batching_dims", ()))
    for d in range(operand.ndim):
        if d in ins_w:
            slice_sizes.append(1)
        else:
            slice_sizes.append(updates.shape[uw[k]])
            k += 1
    gdn = lax.GatherDimensionNumbers(
        offset_dims=uw,
        collapsed_slice_dims=dn.inserted_window_dims,
        start_index_map=dn.scatter_dims_to_operand_dims,
        **({"operand_batching_dims": dn.operand_batching_dims,
            "start_indices_batching_dims": dn.scatter_indices_batching_dims}
           if hasattr(dn, "operand_batching_dims") else {}),
    )
    ids = np.arange(operand.size, dtype=np.int32).reshape(operand.shape)
    mode = eqn.params["mode"]
    if mode == lax.GatherScatterMode.CLIP:
        m = lax.GatherScatterMode.CLIP
    else:
        m = lax.GatherScatterMode.FILL_OR_DROP
    r = lax.gather(jnp.asarray(ids), jnp.asarray(idx), gdn, tuple(slice_sizes), mode=m, fill_value=-1)
    return np.asarray(r)


def _mk_scatter(kind):
    def f(self, eqn, ins):
        op, idx, upd = ins
        dt = eqn.outvars[0].aval.dtype
        fl = is_float(dt)
        if kind == "set" and not fl and idx.dtype == object:
            r = _scatter_sym(self, eqn, op, idx, upd)
            if r is not None:
                return r
        idx = self.conc(idx, eqn.invars[1].aval.dtype)
        tgt = _scatter_targets(self, eqn, op, idx, upd)
        out = op if op.dtype == object else _asobj(op)
        shape = out.shape
        out = out.reshape(-1).copy()
        u = upd if upd.dtype == object else _asobj(upd)
        u = u.reshape(-1)
        t = tgt.reshape(-1)
        for i in range(t.size):
            k = t[i]
            if k < 0:
                continue
            v = u[i]
            if kind == "set":
                out[k] = v
            elif kind == "add":
                out[k] = out[k] + v if fl else iadd(out[k], v, dt)
            elif kind == "mul":
                if fl:
                    out[k] = out[k] * v
                else:
                    out[k] = imul(out[k], v, dt)
            elif kind in ("min", "max"):
                if fl:
                    raise Unsupported("float scatter-min/max")
                out[k] = iminmax(kind, out[k], v, dt)
        out = out.reshape(shape)
        return [out if fl else norm_int(out, dt)]
    return f


def _scatter_sym(self, eqn, op, idx, upd):
    """x.at[i].set(v) with symbolic scalar/vector i on a 1-d integer array"""
    dn = eqn.params["dimension_numbers"]
    if op.ndim != 1 or idx.shape[-1:] != (1,) or dn.update_window_dims != () :
        return None
    dt = eqn.outvars[0].aval.dtype
    idt = eqn.invars[1].aval.dtype
    n = op.shape[0]
    out = [(_tosym(v, dt)) for v in (op if op.dtype == object else _asobj(op))]
    iv = idx.reshape(-1)
    uv = (upd if upd.dtype == object else _asobj(upd)).reshape(-1)
    for t, v in zip(iv, uv):
        v = _tosym(v, dt)
        if not isz3(t):
            if 0 <= int(t) < n:
                out[int(t)] = v
            continue
        for k in range(n):
            out[k] = z3.simplify(z3.If(t == k, v, out[k]))
    return [norm_int(obj((n,), out), dt)]


for _n, _k in (("scatter", "set"), ("scatter-add", "add"), ("scatter_add", "add"), ("scatter-mul", "mul"),
               ("scatter_mul", "mul"), ("scatter-min", "min"), ("scatter_min", "min"),
               ("scatter-max", "max"), ("scatter_max", "max")):
    MOVE[_n] = _mk_scatter(_k)


@move("select_n")
def _select(self, eqn, ins):
    pred = np.asarray(ins[0])
    cases = ins[1:]
    dt = eqn.outvars[0].aval.dtype
    shape = eqn.outvars[0].aval.shape
    if not is_key(dt):
        fl = is_float(dt)
        pr = np.broadcast_to(pred, shape)
        cs = [c if c.dtype == object else _asobj(c) for c in cases]
        if pr.dtype != object:
            out = np.choose(pr.astype(np.intp), [np.broadcast_to(c, shape) for c in cs]) if len(cs) < 30 else None
            if out is not None:
                out = np.asarray(out, dtype=object)
                if out.shape != shape:
                    out = out.reshape(shape)
                return [out if fl else norm_int(out, dt)]
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            w = pr[ix]
            vals = [c[ix] for c in cs]
            if isz3(w):
                if fl:
                    if all(isinstance(v, Expr) and v.same(vals[0]) for v in vals[1:]):
                        out[ix] = vals[0]
                        continue
                    k = self.eng.concretise(w)
                    out[ix] = vals[k]
                else:
                    if z3.is_bool(w) and self.fork_select:
                        out[ix] = vals[int(self.eng.branch(w))]
                    elif z3.is_bool(w):
                        out[ix] = z3.simplify(z3.If(w, _tosym(vals[1], dt), _tosym(vals[0], dt)))
                    else:
                        k = self.eng.concretise(w)
                        out[ix] = vals[k]
            else:
                out[ix] = vals[int(w)]
        return [out if fl else norm_int(out, dt)]
    return [cases[int(pred)]]


# ================================================================ float ops
FLOAT = {}


def flt(*names):
    def d(f):
        for n in names:
            FLOAT[n] = f
        return f
    return d


def ew(fn, *arrs):
    arrs = [np.asarray(a) for a in arrs]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    out = np.empty(shape, dtype=object)
    if shape == ():
        out[()] = fn(*[a[()] for a in arrs])
        return out
    bs = [np.broadcast_to(a, shape).reshape(-1) for a in arrs]
    o = out.reshape(-1)
    for i in range(o.size):
        o[i] = fn(*[b[i] for b in bs])
    return o.reshape(shape)


def ewm(fn, *arrs):
    """elementwise with memoisation on operand identity (pure fn only)"""
    arrs = [np.asarray(a) for a in arrs]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    out = np.empty(shape, dtype=object)
    if shape == ():
        out[()] = fn(*[a[()] for a in arrs])
        return out
    bs = [np.broadcast_to(a, shape).reshape(-1).tolist() for a in arrs]
    o = out.reshape(-1)
    memo = {}
    if len(bs) == 1:
        for i, a in enumerate(bs[0]):
            k = id(a)
            r = memo.get(k)
            if r is None:
                r = memo[k] = fn(a)
            o[i] = r
    else:
        b0, b1 = bs
        for i in range(o.size):
            a, b = b0[i], b1[i]
            k = (id(a), id(b))
            r = memo.get(k)
            if r is None:
                r = memo[k] = fn(a, b)
            o[i] = r
    return o.reshape(shape)


def _f1(fn):
    return lambda self, eqn, ins: [ewm(fn, ins[0])]


def _f2(fn):
    return lambda self, eqn, ins: [ewm(fn, ins[0], ins[1])]


FLOAT["add"] = FLOAT["add_any"] = _f2(lambda a, b: a + b)
FLOAT["sub"] = _f2(lambda a, b: a - b)
FLOAT["mul"] = _f2(lambda a, b: a * b)
FLOAT["div"] = _f2(poly.div)
FLOAT["neg"] = _f1(lambda a: -a)
FLOAT["exp"] = _f1(poly.exp)
FLOAT["log"] = _f1(poly.log)
FLOAT["log1p"] = _f1(lambda a: poly.log(ONE + a))
FLOAT["expm1"] = _f1(lambda a: poly.exp(a) - ONE)
FLOAT["sqrt"] = _f1(poly.sqrt)
FLOAT["rsqrt"] = _f1(lambda a: poly.div(ONE, poly.sqrt(a)))
FLOAT["square"] = _f1(lambda a: a * a)
FLOAT["abs"] = _f1(poly.absolute)
FLOAT["real"] = _f1(poly.real)
FLOAT["imag"] = _f1(poly.imag)
FLOAT["conj"] = _f1(poly.conj)
FLOAT["complex"] = _f2(lambda a, b: a + b * poly.I)
FLOAT["atan2"] = _f2(lambda y, x: ZERO if y.is_zero() and x.is_zero() else poly.imag(poly.log(x + y * poly.I)))
FLOAT["cos"] = _f1(lambda a: (poly.exp(a * poly.I) + poly.exp(-a * poly.I)) * Fraction(1, 2))
FLOAT["sin"] = _f1(lambda a: (poly.exp(a * poly.I) - poly.exp(-a * poly.I)) * Fraction(-1, 2) * poly.I)
FLOAT["cosh"] = _f1(lambda a: (poly.exp(a) + poly.exp(-a)) * Fraction(1, 2))
FLOAT["sinh"] = _f1(lambda a: (poly.exp(a) - poly.exp(-a)) * Fraction(1, 2))
FLOAT["tanh"] = _f1(lambda a: poly.div(poly.exp(a) - poly.exp(-a), poly.exp(a) + poly.exp(-a)))
FLOAT["logistic"] = _f1(lambda a: poly.div(ONE, ONE + poly.exp(-a)))


def uf(name):
    def f(a):
        if a.is_const() and a.is_zero() and name in ("erf",):
            return ZERO
        i = poly.T.new("opaque", None, "%s(%d)" % (name, abs(hash(poly._key(a)))), True, ("uf", name, poly._key(a)))
        return Expr({((i, 1),): 1})
    return f


FLOAT["erf"] = _f1(uf("erf"))


@flt("sign")
def _sign(self, eqn, ins):
    if is_complex(eqn.invars[0].aval.dtype):
        return [ewm(lambda a: ZERO if a.is_zero() else poly.div(a, poly.absolute(a)), ins[0])]
    return [ewm(poly.sign, ins[0])]


@flt("integer_pow")
def _ipow(self, eqn, ins):
    y = eqn.params["y"]
    return [ewm(lambda a: poly.power(a, y), ins[0])]


@flt("pow")
def _pow(self, eqn, ins):
    dt1 = eqn.invars[1].aval.dtype
    b = ins[1]
    if not is_float(dt1):
        b = self.conc(np.asarray(b), dt1)
        return [ew(lambda a, n: poly.power(a, int(n)), ins[0], _asobj(b))]
    return [ew(lambda a, n: a ** n, ins[0], b)]


def _cmp(op):
    def f(self, eqn, ins):
        def c(a, b):
            v = self.fcmp(op, a, b)
            return self.eng.branch(v) if self.fork_cmp and isz3(v) else v
        r = ew(c, ins[0], ins[1])
        return [norm_int(r, np.bool_)]
    return f


for _o in ("lt", "le", "gt", "ge", "eq", "ne"):
    FLOAT[_o] = _cmp(_o)


FLOAT["le_to"], FLOAT["lt_to"] = _cmp("le"), _cmp("lt")


@flt("is_finite")
def _isfin(self, eqn, ins):
    return [norm_int(ew(lambda a: a.sp is None, ins[0]), np.bool_)]


def _fmax(self, a, b, mx=True):
    if a.same(b):
        return a
    c = self.fcmp("ge" if mx else "le", a, b)
    return a if self.eng.branch(c) else b


UF_RELU = False  # treat max(x, 0) as an uninterpreted function instead of forking


@flt("max")
def _max(self, eqn, ins):
    if UF_RELU:
        for a, b in ((0, 1), (1, 0)):
            if all(v.is_zero() for v in np.asarray(ins[b]).reshape(-1)):
                return [ew(lambda x, _: poly.relu(x), ins[a], ins[b])]
    return [ew(lambda a, b: _fmax(self, a, b), ins[0], ins[1])]


@flt("min")
def _min(self, eqn, ins):
    return [ew(lambda a, b: _fmax(self, a, b, False), ins[0], ins[1])]


@flt("clamp")
def _clamp(self, eqn, ins):
    lo, x, hi = ins
    return [ew(lambda l, v, h: _fmax(self, _fmax(self, v, l), h, False), lo, x, hi)]


@flt("convert_element_type")
def _cet(self, eqn, ins):
    src = eqn.invars[0].aval.dtype
    dst = eqn.outvars[0].aval.dtype
    x = np.asarray(ins[0])
    if is_float(src) and is_float(dst):
        if is_complex(src) and not is_complex(dst):
            return [ewm(poly.real, x)]
        return [x]
    if is_float(dst):
        x = self.conc(x, src)
        return [to_expr_array(x)]
    # float -> int / bool
    out = np.empty(x.shape, dtype=dst)
    for ix in np.ndindex(*x.shape):
        e = x[ix]
        if is_boolt(dst):
            c = self.fcmp("ne", e, ZERO)
            out[ix] = self.eng.branch(c)
        else:
            if not e.is_const():
                raise Unsupported("float to int of a symbolic value")
            out[ix] = int(Fraction(e.const_value()))
    return [out]


def _axes_reduce(x, axes, fn, init):
    axes = tuple(axes)
    keep = [d for d in range(x.ndim) if d not in axes]
    y = np.transpose(x, keep + list(axes))
    shape = tuple(x.shape[d] for d in keep)
    y = y.reshape(shape + (int(np.prod([x.shape[d] for d in axes], dtype=int)),))
    out = np.empty(shape, dtype=object)
    memo = {}
    for ix in np.ndindex(*shape):
        l = y[ix].tolist()
        k = tuple(map(id, l))
        r = memo.get(k)
        if r is None:
            r = memo[k] = fn(l, init)
        out[ix] = r
    return out


def _fsum(l, init):
    if not l:
        return ZERO
    acc = l[0]
    if any(e.sp is not None for e in l):
        for e in l[1:]:
            acc = acc + e
        return acc
    out = {}
    for e in l:
        for m, c in e.d.items():
            v = out.get(m)
            out[m] = c if v is None else v + c
    return Expr({m: poly._norm_coeff(c) for m, c in out.items() if c != 0})


def _fprod(l, init):
    acc = ONE
    for e in l:
        acc = acc * e
    return acc


@flt("reduce_sum")
def _rsum(self, eqn, ins):
    return [_axes_reduce(ins[0], eqn.params["axes"], _fsum, None)]


@flt("reduce_prod")
def _rprod(self, eqn, ins):
    return [_axes_reduce(ins[0], eqn.params["axes"], _fprod, None)]


def _opaque_max(self, l, tag):
    """max over symbolic floats: an opaque symbol (used as a shift by logsumexp)"""
    real = [e for e in l if e.sp is None]
    if any(e.sp == "pinf" for e in l):
        return poly.PINF
    if any(e.sp == "nan" for e in l):
        return poly.NAN
    if not real:
        return poly.NINF
    if all(e.is_const() for e in real):
        v = [e.const_value() for e in real]
        return Expr.const(max(v) if tag == "max" else min(v))
    if all(e.same(real[0]) for e in real):
        return real[0]
    key = (tag,) + tuple(sorted((poly._key(e) for e in real), key=str))
    i = poly.T.new("opaque", None, "%s#%d" % (tag, len(poly.T.kind)), True, key)
    self.max_opaque[i] = (tag, real)
    self.eng.stats.assumptions.add("the shift max(...) inside logsumexp is an arbitrary finite real")
    return Expr({((i, 1),): 1})


@flt("reduce_max")
def _rmax(self, eqn, ins):
    return [_axes_reduce(ins[0], eqn.params["axes"], lambda l, _: _opaque_max(self, l, "max"), None)]


@flt("reduce_min")
def _rmin(self, eqn, ins):
    return [_axes_reduce(ins[0], eqn.params["axes"], lambda l, _: _opaque_max(self, l, "min"), None)]


@flt("argmax")
def _argmax(self, eqn, ins):
    ax, = eqn.params["axes"]
    x = np.moveaxis(ins[0], ax, -1)
    out = np.zeros(x.shape[:-1], dtype=eqn.outvars[0].aval.dtype)
    for ix in np.ndindex(*out.shape):
        best = 0
        for k in range(1, x.shape[-1]):
            if self.eng.branch(self.fcmp("gt", x[ix + (k,)], x[ix + (best,)])):
                best = k
        out[ix] = best
    return [out]


def _cum(fn):
    def f(self, eqn, ins):
        ax, rev = eqn.params["axis"], eqn.params.get("reverse", False)
        x = np.moveaxis(ins[0], ax, 0)
        if rev:
            x = x[::-1]
        out = np.empty(x.shape, dtype=object)
        for i in range(x.shape[0]):
            if i == 0:
                out[i] = x[i]
            else:
                r = ew(fn, out[i - 1], x[i])
                out[i] = r if r.shape else r[()]
        if rev:
            out = out[::-1]
        return [np.moveaxis(out, 0, ax)]
    return f


FLOAT["cumsum"] = _cum(lambda a, b: a + b)
FLOAT["cumprod"] = _cum(lambda a, b: a * b)


@flt("dot_general")
def _dot(self, eqn, ins):
    a, b = ins
    if a.dtype != object:
        a = to_expr_array(a)
    if b.dtype != object:
        b = to_expr_array(b)
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
    fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca))
    B = np.transpose(b, list(bb) + fb + list(cb))
    bs = tuple(a.shape[d] for d in ba)
    sa = tuple(a.shape[d] for d in fa)
    sb = tuple(b.shape[d] for d in fb)
    k = int(np.prod([a.shape[d] for d in ca])) if ca else 1
    A = A.reshape(bs + (int(np.prod(sa)) if sa else 1, k))
    B = B.reshape(bs + (int(np.prod(sb)) if sb else 1, k))
    out = np.empty(bs + (A.shape[-2], B.shape[-2]), dtype=object)
    memo = {}
    for ix in np.ndindex(*bs):
        rows = [r.tolist() for r in A[ix]]
        cols = [r.tolist() for r in B[ix]]
        for i, ra in enumerate(rows):
            ka = tuple(map(id, ra))
            for j, rb in enumerate(cols):
                k = (ka, tuple(map(id, rb)))
                r = memo.get(k)
                if r is None:
                    r = memo[k] = _fsum([x * y for x, y in zip(ra, rb) if not (x.is_zero() and y.sp is None or y.is_zero() and x.sp is None)], None)
                out[ix + (i, j)] = r
    return [out.reshape(bs + sa + sb)]


@flt("conv_general_dilated")
def _conv(self, eqn, ins):
    p = eqn.params
    x, w = [v if v.dtype == object else to_expr_array(v) for v in ins]
    if p["feature_group_count"] != 1 or p["batch_group_count"] != 1:
        raise Unsupported("grouped convolution")
    dn = p["dimension_numbers"]
    ls, rs, os_ = dn.lhs_spec, dn.rhs_spec, dn.out_spec
    X = np.transpose(x, ls)  # N C spatial
    W = np.transpose(w, rs)  # O I spatial
    nsp = X.ndim - 2
    pads, str_, ld, rd = p["padding"], p["window_strides"], p["lhs_dilation"], p["rhs_dilation"]
    if any(d != 1 for d in ld):
        raise Unsupported("lhs dilation")
    N, C = X.shape[:2]
    O, _ = W.shape[:2]
    osp = []
    for d in range(nsp):
        eff = (W.shape[2 + d] - 1) * rd[d] + 1
        osp.append((X.shape[2 + d] + pads[d][0] + pads[d][1] - eff) // str_[d] + 1)
    out = np.empty((N, O) + tuple(osp), dtype=object)
    for n in range(N):
        for o in range(O):
            for pos in np.ndindex(*osp):
                acc = []
                for k in np.ndindex(*W.shape[2:]):
                    q = tuple(pos[d] * str_[d] - pads[d][0] + k[d] * rd[d] for d in range(nsp))
                    if any(q[d] < 0 or q[d] >= X.shape[2 + d] for d in range(nsp)):
                        continue
                    for c in range(C):
                        a, b = X[(n, c) + q], W[(o, c) + k]
                        if a.is_zero() or b.is_zero():
                            continue
                        acc.append(a * b)
                out[(n, o) + pos] = _fsum(acc, None)
    inv = np.argsort(os_)
    return [np.transpose(out, inv)]


# ================================================================ symbolic ints
INT = {}


def iadd(a, b, dt):
    if is_boolt(dt):
        return ior(a, b, dt)
    if not isz3(a) and not isz3(b):
        return wrap_int(int(a) + int(b), dt)
    return to_bv(a, dt) + to_bv(b, dt)


def isub(a, b, dt):
    if not isz3(a) and not isz3(b):
        return wrap_int(int(a) - int(b), dt)
    return to_bv(a, dt) - to_bv(b, dt)


def imul(a, b, dt):
    if is_boolt(dt):
        return iand(a, b, dt)
    if not isz3(a) and not isz3(b):
        return wrap_int(int(a) * int(b), dt)
    return to_bv(a, dt) * to_bv(b, dt)


def iand(a, b, dt):
    if is_boolt(dt):
        if not isz3(a):
            return b if a else False
        if not isz3(b):
            return a if b else False
        return z3.And(a, b)
    if not isz3(a) and not isz3(b):
        return wrap_int(int(a) & int(b), dt)
    return to_bv(a, dt) & to_bv(b, dt)


def ior(a, b, dt):
    if is_boolt(dt):
        if not isz3(a):
            return True if a else b
        if not isz3(b):
            return True if b else a
        return z3.Or(a, b)
    if not isz3(a) and not isz3(b):
        return wrap_int(int(a) | int(b), dt)
    return to_bv(a, dt) | to_bv(b, dt)


def ixor(a, b, dt):
    if is_boolt(dt):
        if not isz3(a) and not isz3(b):
            return bool(a) != bool(b)
        return z3.Xor(_tosym(a, dt), _tosym(b, dt))
    if not isz3(a) and not isz3(b):
        return wrap_int(int(a) ^ int(b), dt)
    return to_bv(a, dt) ^ to_bv(b, dt)


def inot(a, dt):
    if is_boolt(dt):
        return (not a) if not isz3(a) else z3.Not(a)
    return wrap_int(~int(a), dt) if not isz3(a) else ~a


def icmp(op, a, b, dt):
    if not isz3(a) and not isz3(b):
        a, b = int(a), int(b)
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
    if is_boolt(dt):
        a, b = _tosym(a, dt), _tosym(b, dt)
        if op == "eq":
            return a == b
        if op == "ne":
            return z3.Xor(a, b)
        raise Unsupported("ordering of booleans")
    a, b = to_bv(a, dt), to_bv(b, dt)
    if op == "eq":
        return a == b
    if op == "ne":
        return a != b
    if signed(dt):
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
    return {"lt": z3.ULT, "le": z3.ULE, "gt": z3.UGT, "ge": z3.UGE}[op](a, b)


def iminmax(kind, a, b, dt):
    c = icmp("ge" if kind == "max" else "le", a, b, dt)
    if not isz3(c):
        return a if c else b
    return z3.simplify(z3.If(c, to_bv(a, dt), to_bv(b, dt)))


def _i2(fn):
    def f(self, eqn, ins):
        dt = eqn.outvars[0].aval.dtype
        idt = eqn.invars[0].aval.dtype
        r = ew(lambda a, b: simp(fn(a, b, idt)), _ob(ins[0]), _ob(ins[1]))
        return [norm_int(r, dt)]
    return f


def _ob(x):
    x = np.asarray(x)
    return x if x.dtype == object else _asobj(x)


def simp(v):
    return z3.simplify(v) if isz3(v) else v


INT["add"] = _i2(iadd)
INT["sub"] = _i2(isub)
INT["mul"] = _i2(imul)
INT["and"] = _i2(iand)
INT["or"] = _i2(ior)
INT["xor"] = _i2(ixor)
INT["max"] = _i2(lambda a, b, dt: iminmax("max", a, b, dt))
INT["min"] = _i2(lambda a, b, dt: iminmax("min", a, b, dt))
for _o in ("lt", "le", "gt", "ge", "eq", "ne"):
    INT[_o] = _i2(lambda a, b, dt, _o=_o: icmp(_o, a, b, dt))


@higher("__none__")
def _none(self, eqn, ins):
    raise Unsupported("none")


def _shift(kind):
    def fn(a, b, dt):
        if not isz3(a) and not isz3(b):
            a, b = int(a), int(b)
            if kind == "l":
                return wrap_int(a << b, dt)
            if kind == "rl":
                return wrap_int((a & ((1 << bvwidth(dt)) - 1)) >> b, dt)
            return wrap_int(a >> b, dt)
        a, b = to_bv(a, dt), to_bv(b, dt)
        return {"l": lambda: a << b, "rl": lambda: z3.LShR(a, b), "ra": lambda: a >> b}[kind]()
    return fn


INT["shift_left"] = _i2(_shift("l"))
INT["shift_right_logical"] = _i2(_shift("rl"))
INT["shift_right_arithmetic"] = _i2(_shift("ra"))


def _idiv(a, b, dt):
    a, b = to_bv(a, dt), to_bv(b, dt)
    return (a / b) if signed(dt) else z3.UDiv(a, b)


def _irem(a, b, dt):
    a, b = to_bv(a, dt), to_bv(b, dt)
    return z3.SRem(a, b) if signed(dt) else z3.URem(a, b)


INT["div"] = _i2(_idiv)
INT["rem"] = _i2(_irem)


def _i1(fn):
    def f(self, eqn, ins):
        dt = eqn.invars[0].aval.dtype
        r = ew(lambda a: simp(fn(a, dt)), _ob(ins[0]))
        return [norm_int(r, eqn.outvars[0].aval.dtype)]
    return f


INT["not"] = _i1(inot)
INT["neg"] = _i1(lambda a, dt: isub(0, a, dt))
INT["abs"] = _i1(lambda a, dt: z3.If(a < 0, -a, a) if isz3(a) else abs(a))
INT["sign"] = _i1(lambda a, dt: (z3.If(a == 0, to_bv(0, dt), z3.If(a < 0, to_bv(-1, dt), to_bv(1, dt))) if isz3(a) else (a > 0) - (a < 0)))
INT["integer_pow"] = lambda self, eqn, ins: [norm_int(ew(lambda a: _ipowi(a, eqn.params["y"], eqn.invars[0].aval.dtype), _ob(ins[0])), eqn.outvars[0].aval.dtype)]
INT["square"] = lambda self, eqn, ins: [norm_int(ew(lambda a: _ipowi(a, 2, eqn.invars[0].aval.dtype), _ob(ins[0])), eqn.outvars[0].aval.dtype)]


def _ipowi(a, y, dt):
    if y < 0:
        raise Unsupported("negative integer power")
    r = 1
    for _ in range(y):
        r = imul(r, a, dt)
    return simp(r)


def conv_int(v, src, dst):
    if not isz3(v):
        if is_boolt(dst):
            return bool(v)
        return wrap_int(int(v), dst)
    if is_boolt(src):
        if is_boolt(dst):
            return v
        return z3.If(v, to_bv(1, dst), to_bv(0, dst))
    if is_boolt(dst):
        return v != 0
    ws, wd = bvwidth(src), bvwidth(dst)
    if wd < ws:
        return z3.Extract(wd - 1, 0, v)
    if wd == ws:
        return v
    return z3.SignExt(wd - ws, v) if signed(src) else z3.ZeroExt(wd - ws, v)


@higher("__conv__")
def _c(self, eqn, ins):
    raise Unsupported


def _iconv(self, eqn, ins):
    s, d = eqn.invars[0].aval.dtype, eqn.outvars[0].aval.dtype
    return [norm_int(ew(lambda v: simp(conv_int(v, s, d)), _ob(ins[0])), d)]


INT["convert_element_type"] = _iconv


def _ired(fn, init):
    def f(self, eqn, ins):
        dt = eqn.outvars[0].aval.dtype
        idt = eqn.invars[0].aval.dtype

        def red(l, _):
            if not l:
                return init
            acc = l[0]
            for v in l[1:]:
                acc = fn(acc, v, idt)
            return simp(acc)
        return [norm_int(_axes_reduce(_ob(ins[0]), eqn.params["axes"], red, None), dt)]
    return f


INT["reduce_sum"] = _ired(iadd, 0)
INT["reduce_prod"] = _ired(imul, 1)
INT["reduce_and"] = _ired(iand, True)
INT["reduce_or"] = _ired(ior, False)
INT["reduce_max"] = _ired(lambda a, b, d: iminmax("max", a, b, d), None)
INT["reduce_min"] = _ired(lambda a, b, d: iminmax("min", a, b, d), None)


def _icum(fn):
    def f(self, eqn, ins):
        dt = eqn.outvars[0].aval.dtype
        ax, rev = eqn.params["axis"], eqn.params.get("reverse", False)
        x = np.moveaxis(_ob(ins[0]), ax, 0)
        if rev:
            x = x[::-1]
        out = np.empty(x.shape, dtype=object)
        for i in range(x.shape[0]):
            if i == 0:
                out[i] = x[i]
            else:
                r = ew(lambda a, b: simp(fn(a, b, dt)), out[i - 1], x[i])
                out[i] = r if r.shape else r[()]
        if rev:
            out = out[::-1]
        return [norm_int(np.moveaxis(out, 0, ax), dt)]
    return f


INT["cumsum"] = _icum(iadd)
INT["cumprod"] = _icum(imul)
INT["cummax"] = _icum(lambda a, b, d: iminmax("max", a, b, d))


@higher("__argmax__")
def _am(self, eqn, ins):
    raise Unsupported


def _iargmax(kind):
    def f(self, eqn, ins):
        ax, = eqn.params["axes"]
        dt = eqn.invars[0].aval.dtype
        odt = eqn.outvars[0].aval.dtype
        x = np.moveaxis(_ob(ins[0]), ax, -1)
        out = np.empty(x.shape[:-1], dtype=object)
        for ix in np.ndindex(*out.shape):
            best = x[ix + (0,)]
            bi = 0
            for k in range(1, x.shape[-1]):
                v = x[ix + (k,)]
                if is_boolt(dt):
                    # first True (argmax)
                    c = iand(v, inot(best, dt), dt) if kind == "max" else iand(best, inot(v, dt), dt)
                else:
                    c = icmp("gt" if kind == "max" else "lt", v, best, dt)
                if isz3(c):
                    c = z3.simplify(c)
                    bi = z3.simplify(z3.If(c, to_bv(k, odt), to_bv(bi, odt)))
                    best = z3.simplify(z3.If(c, _tosym(v, dt), _tosym(best, dt)))
                elif c:
                    bi, best = k, v
            out[ix] = bi
        return [norm_int(out, odt)]
    return f


INT["argmax"] = _iargmax("max")
INT["argmin"] = _iargmax("min")


def _iclamp(self, eqn, ins):
    dt = eqn.outvars[0].aval.dtype
    lo, x, hi = [_ob(v) for v in ins]
    return [norm_int(ew(lambda l, v, h: simp(iminmax("min", iminmax("max", v, l, dt), h, dt)), lo, x, hi), dt)]


INT["clamp"] = _iclamp


def _idot(self, eqn, ins):
    dt = eqn.outvars[0].aval.dtype
    a, b = _ob(ins[0]), _ob(ins[1])
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
    fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca))
    B = np.transpose(b, list(bb) + fb + list(cb))
    bs = tuple(a.shape[d] for d in ba)
    sa = tuple(a.shape[d] for d in fa)
    sb = tuple(b.shape[d] for d in fb)
    k = int(np.prod([a.shape[d] for d in ca])) if ca else 1
    A = A.reshape(bs + (int(np.prod(sa)) if sa else 1, k))
    B = B.reshape(bs + (int(np.prod(sb)) if sb else 1, k))
    out = np.empty(bs + (A.shape[-2], B.shape[-2]), dtype=object)
    for ix in np.ndindex(*bs):
        for i in range(A.shape[-2]):
            for j in range(B.shape[-2]):
                acc = 0
                for x, y in zip(A[ix][i], B[ix][j]):
                    acc = iadd(acc, imul(x, y, dt), dt)
                out[ix + (i, j)] = simp(acc)
    return [norm_int(out.reshape(bs + sa + sb), dt)]


INT["dot_general"] = _idot


@higher("eigh")
def _eigh(self, eqn, ins):
    """spectral decomposition of 1x1 matrices only"""
    a = ins[0]
    if a.shape[-1] != 1:
        raise Unsupported("eigh of matrices larger than 1x1")
    if a.dtype != object:
        return self.bind(eqn, ins)
    w = ew(poly.real, a[..., 0])
    v = np.empty(a.shape, dtype=object)
    v[...] = ONE
    return [v, w]
