"""Random draws as symbolic inputs.

install() replaces JAX's internal samplers by jitted functions of the same name: in a real run they
look the draw up in TABLE (by key, so that every draw is controlled by the caller), in a symbolic
run the interpreter meets their name and asks the stub `Draws` for symbolic values.  Distinct keys
are independent draws, the same key used twice gives the same draw."""
import hashlib
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import z3

from . import jaxi, poly
from .poly import Expr, Unsupported

TABLE = {}
USED = set()  # names of the draws of the last real run


def uname(kind, kd, i):
    return "%s!%s!%d" % (kind, "-".join(str(int(k)) for k in kd), i)


def _default(name, n=None):
    h = int(hashlib.sha256(name.encode()).hexdigest()[:12], 16) / 16 ** 12
    return h if n is None else int(h * n)


def _cb_uniform(shape, dtype):
    def cb(kd, lo, hi):
        kd = np.asarray(kd).reshape(-1)
        out = np.empty(int(np.prod(shape, dtype=int)), dtype=np.float64)
        for i in range(out.size):
            nm = uname("u", kd, i)
            USED.add(nm)
            v = TABLE.get(nm)
            out[i] = _default(nm) if v is None else float(v)
        return (out.reshape(shape) * (float(hi) - float(lo)) + float(lo)).astype(dtype)
    return cb


def _cb_randint(shape, dtype):
    def cb(kd, lo, hi):
        kd = np.asarray(kd).reshape(-1)
        lo, hi = int(lo), int(hi)
        out = np.empty(int(np.prod(shape, dtype=int)), dtype=np.int64)
        for i in range(out.size):
            nm = uname("i", kd, i)
            USED.add(nm)
            v = TABLE.get(nm)
            out[i] = lo + _default(nm, hi - lo) if v is None else int(v)
        return out.reshape(shape).astype(dtype)
    return cb


def _cb_shuffle(n):
    def cb(kd):
        kd = np.asarray(kd).reshape(-1)
        if uname("p", kd, 0) in TABLE:
            return np.array([int(TABLE[uname("p", kd, i)]) for i in range(n)], dtype=np.int64)
        return np.argsort([_default(uname("p", kd, i)) for i in range(n)]).astype(np.int64)
    return cb


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    import jax._src.random as R
    from functools import partial

    def data(key):
        return jax.random.key_data(key) if jaxi.is_key(key.dtype) else key

    @partial(jax.jit, static_argnums=(1, 2))
    def _uniform(key, shape, dtype, minval, maxval):
        return jax.pure_callback(_cb_uniform(shape, dtype), jax.ShapeDtypeStruct(shape, dtype), data(key), minval, maxval)

    @partial(jax.jit, static_argnums=(1, 4))
    def _randint(key, shape, minval, maxval, dtype):
        return jax.pure_callback(_cb_randint(shape, dtype), jax.ShapeDtypeStruct(shape, dtype), data(key), minval, maxval)

    @partial(jax.jit, static_argnums=(1,))
    def _verif_perm(key, n):
        return jax.pure_callback(_cb_shuffle(n), jax.ShapeDtypeStruct((n,), np.int64), data(key))

    def _shuffle(key, x, axis):
        if x.ndim != 1:
            raise Unsupported("shuffle of an array with %d axes" % x.ndim)
        return jnp.take(x, _verif_perm(key, x.shape[0]), axis=0)

    R._uniform, R._randint, R._shuffle = _uniform, _randint, _shuffle


def _keys(key):
    kd = np.asarray(jax.random.key_data(key) if jaxi.is_key(key.dtype) else key)
    return kd.reshape(-1, kd.shape[-1]), kd.shape[:-1]


class Draws:
    """symbolic draws of one path"""

    def __init__(self, eng):
        self.eng = eng
        self.u = {}      # name -> Expr
        self.ints = {}   # name -> z3 term
        self.range = {}  # name -> (lo, hi)
        self.it = None

    def uniform(self, interp, key, aval, lo, hi):
        ks, batch = _keys(key)
        lo, hi = self._const(lo), self._const(hi)
        core = aval.shape[len(batch):]
        n = int(np.prod(core, dtype=int))
        out = np.empty((len(ks), n), dtype=object)
        for j, k in enumerate(ks):
            for i in range(n):
                out[j, i] = self.var(interp, uname("u", k, i)) * Expr.const(hi - lo) + Expr.const(lo)
        return out.reshape(aval.shape)

    def var(self, interp, nm):
        if nm not in self.u:
            e = poly.var(nm)
            self.u[nm] = e
            z = interp.zreal(e)
            self.eng.assume(z >= 0)
            self.eng.assume(z < 1)
        return self.u[nm]

    def _const(self, x):
        v = np.asarray(x, dtype=object).reshape(-1)[0]
        if isinstance(v, Expr):
            if not v.is_const():
                raise Unsupported("symbolic range of a uniform draw")
            return Fraction(v.const_value())
        return Fraction(float(v))

    def randint(self, interp, key, aval, lo, hi):
        ks, batch = _keys(key)
        lo, hi = int(np.asarray(lo).reshape(-1)[0]), int(np.asarray(hi).reshape(-1)[0])
        n = int(np.prod(aval.shape[len(batch):], dtype=int))
        out = np.empty((len(ks), n), dtype=object)
        for j, k in enumerate(ks):
            for i in range(n):
                out[j, i] = self.int(uname("i", k, i), lo, hi, aval.dtype)
        return out.reshape(aval.shape)

    def int(self, nm, lo, hi, dt):
        if nm not in self.ints:
            v = z3.BitVec(nm, jaxi.bvwidth(dt))
            self.ints[nm] = v
            self.range[nm] = (lo, hi)
            self.eng.assume(v >= lo if jaxi.signed(dt) else z3.UGE(v, lo))
            self.eng.assume(v < hi if jaxi.signed(dt) else z3.ULT(v, hi))
        return self.ints[nm]

    def perm(self, interp, key, aval):
        ks, batch = _keys(key)
        n = aval.shape[-1]
        out = np.empty((len(ks), n), dtype=object)
        for j, k in enumerate(ks):
            new = uname("p", k, 0) not in self.ints
            for i in range(n):
                out[j, i] = self.int(uname("p", k, i), 0, n, aval.dtype)
            if new and n > 1:
                self.eng.assume(z3.Distinct(*out[j]))
        return out.reshape(aval.shape)


@jaxi.named("_uniform")
def _n_uniform(self, eqn, ins):
    if self.rng is None:
        raise Unsupported("random draw without a stub")
    return [self.rng.uniform(self, ins[0], eqn.outvars[0].aval, ins[1], ins[2])]


@jaxi.named("_randint")
def _n_randint(self, eqn, ins):
    if self.rng is None:
        raise Unsupported("random draw without a stub")
    return [self.rng.randint(self, ins[0], eqn.outvars[0].aval, ins[1], ins[2])]


@jaxi.named("_verif_perm")
def _n_perm(self, eqn, ins):
    if self.rng is None:
        raise Unsupported("random draw without a stub")
    return [self.rng.perm(self, ins[0], eqn.outvars[0].aval)]


# ---------------------------------------------------------------- probability of a path
def z3_to_expr(t):
    """polynomial real term -> Expr"""
    if z3.is_rational_value(t):
        return Expr.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_int_value(t):
        return Expr.const(t.as_long())
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_UNINTERPRETED and not ch:
        nm = t.decl().name()
        if "!" in nm and not nm.startswith("u!"):
            raise Unsupported("path condition on a non-polynomial term %s" % nm)
        return poly.var(nm)
    if k == z3.Z3_OP_ADD:
        r = z3_to_expr(ch[0])
        for c in ch[1:]:
            r = r + z3_to_expr(c)
        return r
    if k == z3.Z3_OP_MUL:
        r = z3_to_expr(ch[0])
        for c in ch[1:]:
            r = r * z3_to_expr(c)
        return r
    if k == z3.Z3_OP_SUB:
        r = z3_to_expr(ch[0])
        for c in ch[1:]:
            r = r - z3_to_expr(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -z3_to_expr(ch[0])
    if k == z3.Z3_OP_TO_REAL:
        return z3_to_expr(ch[0])
    raise Unsupported("path condition term %s" % t.decl().name())


def atoms_of(c, neg=False):
    """conjunction of comparisons -> list of (op, lhs, rhs)"""
    k = c.decl().kind()
    ch = c.children()
    if z3.is_true(c):
        return []
    if k == z3.Z3_OP_NOT:
        return atoms_of(ch[0], not neg)
    if (k == z3.Z3_OP_AND and not neg) or (k == z3.Z3_OP_OR and neg):
        return [a for x in ch for a in atoms_of(x, neg)]
    ops = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt"}
    if k in ops and z3.is_real(ch[0]):
        op = ops[k]
        if neg:
            op = {"le": "gt", "lt": "ge", "ge": "lt", "gt": "le"}[op]
        return [(op, ch[0], ch[1])]
    return [(None, c, neg)]


def mentions_u(t, memo=None):
    todo, names, seen = [t], set(), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("u!"):
            names.add(x.decl().name())
        todo.extend(x.children())
    return names


class Boxes:
    """turns the condition of a path into an interval per draw and its probability"""

    def __init__(self, pre):
        self.s = z3.Solver()
        self.s.set("timeout", 30000)
        for c in pre:
            self.s.add(c)
        self.cache = {}
        self.queries = 0

    def le(self, a, b):
        """a <= b for all admitted parameter values?"""
        key = (a, b)
        if key not in self.cache:
            from .engine import ToZ3
            d = b - a
            if d.is_const():
                self.cache[key] = d.const_value() >= 0
            else:
                tz = ToZ3()
                z, _ = tz.expr(d)
                self.s.push()
                for c in tz.side:
                    self.s.add(c)
                self.s.add(z < 0)
                self.queries += 1
                r = self.s.check()
                self.s.pop()
                if r == z3.unknown:
                    raise Unsupported("order of two interval bounds unknown")
                self.cache[key] = r == z3.unsat
        return self.cache[key]

    def leq(self, x, y):
        return self.le(x[0] * y[1], y[0] * x[1])

    def settled(self, c):
        """truth of a condition on the parameters, if it is the same for all of them"""
        for v in (True, False):
            self.s.push()
            self.s.add(z3.Not(c) if v else c)
            self.queries += 1
            r = self.s.check()
            self.s.pop()
            if r == z3.unsat:
                return v
        return None

    def positive(self, e):
        """is the expression positive for all admitted parameter values?"""
        if e.is_const():
            return e.const_value() > 0
        from .engine import ToZ3
        tz = ToZ3()
        z, _ = tz.expr(e)
        self.s.push()
        for c in tz.side:
            self.s.add(c)
        self.s.add(z <= 0)
        self.queries += 1
        r = self.s.check()
        self.s.pop()
        if r == z3.unknown:
            raise Unsupported("sign of a probability unknown")
        return r == z3.unsat

    def disjuncts(self, cs, neg):
        """the disjuncts that can hold with non-zero probability"""
        left = []
        for x in cs:
            if mentions_u(x):
                a = atoms_of(x, neg)
                if any(op is None and (z3.is_eq(l) and not r or l.decl().kind() == z3.Z3_OP_DISTINCT and r)
                       and z3.is_real(l.children()[0]) for op, l, r in a):
                    continue
                left.append(x)
            else:
                self.s.push()
                self.s.add(z3.Not(x) if neg else x)
                self.queries += 1
                r = self.s.check()
                self.s.pop()
                if r != z3.unsat:
                    left.append(x)
        return left

    def box(self, pc, names):
        """names of the draws -> {name: (lo, hi)}; conditions must be linear in one draw each"""
        one = Expr.const(1)
        lo = {n: [(Expr.const(0), one)] for n in names}
        hi = {n: [(one, one)] for n in names}
        for c in pc:
            if not mentions_u(c):
                continue
            todo = atoms_of(c)
            while todo:
                op, l, r = todo.pop()
                if op is None and l.decl().kind() == (z3.Z3_OP_AND if r else z3.Z3_OP_OR):
                    left = self.disjuncts(l.children(), r)
                    if not left:
                        return None
                    if len(left) == 1:
                        todo.extend(atoms_of(left[0], r))
                        continue
                if op is None and z3.is_eq(l) and z3.is_bool(l.children()[0]):
                    p, q = l.children()
                    if mentions_u(p):
                        p, q = q, p
                    v = None if mentions_u(p) else self.settled(p)
                    if v is not None:
                        todo.extend(atoms_of(q, r != (not v)))
                        continue
                if op is None and z3.is_eq(l) and z3.is_real(l.children()[0]):
                    if r:
                        continue  # excludes a set of probability zero
                    return None  # a path of probability zero
                if op is None and l.decl().kind() == z3.Z3_OP_DISTINCT and z3.is_real(l.children()[0]):
                    if not r:
                        continue
                    return None
                if op is None:
                    raise Unsupported("path condition is not a conjunction of comparisons: %s" % str(l)[:80])
                us = mentions_u(l) | mentions_u(r)
                if not us:
                    continue
                if len(us) > 1:
                    raise Unsupported("path condition couples draws")
                u, = us
                e = z3_to_expr(l) - z3_to_expr(r)
                a, b = split_linear(e, u)
                zero = Expr.const(0)
                if self.le(zero, a):
                    sgn = 1
                elif self.le(a, zero):
                    sgn = -1
                else:
                    raise Unsupported("sign of a coefficient depends on the parameters")
                bound = (-b, a) if sgn == 1 else (b, -a)  # numerator, positive denominator
                up = (op in ("le", "lt")) == (sgn == 1)
                (hi if up else lo)[u].append(bound)
        out = {}
        for n in names:
            L = lo[n][0]
            for x in lo[n][1:]:
                if self.leq(L, x):
                    L = x
                elif not self.leq(x, L):
                    raise Unsupported("order of interval bounds depends on the parameters")
            H = hi[n][0]
            for x in hi[n][1:]:
                if self.leq(x, H):
                    H = x
                elif not self.leq(H, x):
                    raise Unsupported("order of interval bounds depends on the parameters")
            out[n] = (L, H)
        return out


def split_linear(e, u):
    T = poly.T
    a, b = Expr.const(0), Expr.const(0)
    for m, c in e.d.items():
        rest, pw = [], 0
        for at, x in m:
            if T.kind[at] == "var" and T.name[at] == u:
                pw = x
            else:
                rest.append((at, x))
        t = Expr({tuple(rest): c})
        if pw == 0:
            b = b + t
        elif pw == 1:
            a = a + t
        else:
            raise Unsupported("path condition not linear in a draw")
    return a, b


def volume(box):
    if box is None:
        return Expr.const(0)
    v = Expr.const(1)
    for lo, hi in box.values():
        v = v * (hi[0] / hi[1] - lo[0] / lo[1])
    return v
