"""On-the-fly local energies (C03-C07): the dispatched kernels on an arbitrary wave function.

The wave function is a lookup table with one free complex log-amplitude per
configuration, i.e. every nowhere-vanishing wave function.  With fast updates the
table model implements the update protocol (first listed occurrence of a site
carries its new occupancy)."""
import netket as nk

from checks.fermions import *
from symx import pyexec
from symx.jaxi import Interp


class JnpShim(pyexec.NpShim):
    """jax.numpy stand-in that keeps symbolic object arrays"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = getattr(jnp, name)
        if name in ("array", "asarray"):
            def g(x, *a, **k):
                if pyexec.is_sym(x):
                    return np.asarray(x, dtype=object)
                if isinstance(x, (list, tuple)) and any(pyexec.is_sym(v) for v in x):
                    return np.array(x, dtype=object)
                return r(x, *a, **k)
            return g
        return r


class Table:
    """arbitrary wave function on base**L configurations; values `offset + step * digit`"""

    def __init__(self, L, base, first=0, step=1, fast=False):
        self.L, self.base, self.first, self.step, self.apply_fast_update = L, base, first, step, fast

    def index(self, x):
        d = (jnp.asarray(x, jnp.int32) - self.first) // self.step
        return jnp.sum(d * np.array([self.base ** k for k in range(self.L)], np.int32), axis=-1)

    def idx(self, x):
        return sum(((int(v) - self.first) // self.step) * self.base ** k for k, v in enumerate(x))

    def apply(self, variables, x, mutable=False, cache_intermediates=False, update_sites=None, **kw):
        if update_sites is not None:
            base = variables["intermediates_cache"]["samples"]
            x = apply_updates(base, x.astype(base.dtype), update_sites)
        out = variables["params"]["table"][self.index(x)]
        if mutable is False:
            return out
        upd = {"intermediates_cache": {"samples": x}} if cache_intermediates else {}
        return out, upd


class FakeState(nk.vqs.MCState):
    """just enough of an MCState for the dispatch rules"""

    def __init__(self, hilbert, model, samples):
        object.__setattr__(self, "_fake", (hilbert, model, samples))

    hilbert = property(lambda s: s._fake[0])
    model = property(lambda s: s._fake[1])
    samples = property(lambda s: s._fake[2])
    n_samples = property(lambda s: s._fake[2].shape[0])

    def __repr__(self):
        return "FakeState"


def is_intdata(v):
    return not pyexec.is_sym(v) and np.asarray(v).dtype.kind in "iub"


class Magnitudes:
    """comparisons made while an operator is constructed: symbolic data that are not identically equal are distinct, and are
    compared with other numbers as if their magnitudes were within [1/4, 4] (a stated assumption when it is used)"""

    def __init__(self, eng, sc):
        self.it = Interp(eng)
        self.it.tz.define = sc.define_comps

    def __call__(self, op, x, y):
        eng = self.it.eng
        if op in ("eq", "ne"):
            return x.same(y) == (op == "eq")
        c = self.it.fcmp(op, x, y)
        if isinstance(c, bool):
            return c
        eng.stats.assumptions.add("comparisons in the operator's constructor: magnitudes of the symbolic data within [1/4, 4]")
        s = z3.Solver()
        s.set("timeout", 20000)
        for k in list(eng.pre) + list(self.it.tz.side):
            s.add(k)
        todo, seen = [c], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and z3.is_real(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(z3.Or(z3.And(t >= 0.25, t <= 4), z3.And(t >= -4, t <= -0.25)))
            todo.extend(t.children())
        for v in (True, False):
            s.push()
            s.add(z3.Not(c) if v else c)
            eng.stats.feasibility += 1
            r = s.check()
            s.pop()
            if r == z3.unsat:
                return v
        raise jaxi.Unsupported("comparison of symbolic operator data")


class EnergyScenario(Scenario):
    chunk = 64

    def __init__(self, specs, hilbert, make_op, model, reference, assume_x=None, chunk_size=None, functions=(), bound="", after=None):
        super().__init__("eloc", dict(specs))
        self.hilbert, self.make_op, self.model, self.reference = hilbert, make_op, model, reference
        self.assume_x, self.chunk_size = assume_x, chunk_size
        self.functions, self.bound = list(functions), bound
        self.specs["table"] = Cplx(model.base ** model.L)
        if after is not None:
            self.after = after

    def assume(self, a):
        return self.assume_x(a["x"]) if self.assume_x else []

    def xdtype(self):
        return self.specs["x"].dtype

    def kernel(self, op, n):
        vs = FakeState(self.hilbert, self.model, jnp.zeros((n, self.model.L), self.xdtype()))
        return nk.vqs.get_local_kernel(vs, op, self.chunk_size), vs

    def scalars(self, a):
        return {k: (v[()] if isinstance(v, np.ndarray) and v.shape == () else v) for k, v in a.items()}

    def call(self, ker, table, samples, args):
        return ker(self.model.apply, {"params": {"table": table}}, samples, args)

    def outs_real(self, a):
        a = self.scalars(self.derive(dict(a)))
        op = self.make_op(a)
        n = 1 if self.chunk_size is None else self.chunk_size
        ker, vs = self.kernel(op, n)
        _, args = nk.vqs.get_local_kernel_arguments(vs, op)
        x = jnp.broadcast_to(jnp.asarray(a["x"]), (n, self.model.L))
        # netket always calls the kernel under jit
        r = jax.jit(lambda t, s, g: self.call(ker, t, s, g))(jnp.asarray(a["table"]), x, args)
        return jax.tree_util.tree_map(lambda v: np.asarray(v)[0], r)

    def sym_args(self, eng, a):
        """the kernel's arguments for an operator with symbolic data"""
        key = "_symargs"
        if not hasattr(self, key):
            b = {k: (pyexec.sym(v) if isinstance(v, np.ndarray) and v.dtype == object and v.ndim else v)
                 for k, v in self.scalars(self.derive({k: v for k, v in a.items() if k != "x"})).items()}
            poly.ORDER = Magnitudes(eng, self)
            try:
                with pyexec.patched(extra={"jnp": JnpShim()}):
                    op = self.make_op(b)
                    vs = FakeState(self.hilbert, self.model, np.zeros((1, self.model.L), self.xdtype()))
                    _, args = nk.vqs.get_local_kernel_arguments(vs, op)
            finally:
                poly.ORDER = None
            setattr(self, key, args)
        return getattr(self, key)

    def outs_lockstep(self, eng, arrs, a):
        x = arrs["x"]
        n = x.shape[0]
        if self.chunk_size is not None and n % self.chunk_size:
            x = np.concatenate([x, np.repeat(x[-1:], self.chunk_size - n % self.chunk_size, 0)])
        if x.shape[0] not in self._jxs:
            ex = self.scalars(self.derive(self.example(random.Random(7))))
            op = self.make_op(ex)
            ker, vs = self.kernel(op, x.shape[0])
            _, cargs = nk.vqs.get_local_kernel_arguments(vs, op)
            jx, tree = jax.make_jaxpr(lambda t, s, g: self.call(ker, t, s, g), return_shape=True)(
                jnp.asarray(ex["table"]), jnp.asarray(x), cargs)
            self._jxs[x.shape[0]] = (jx, jax.tree_util.tree_structure(tree), jax.tree_util.tree_leaves(cargs))
        jx, td, cleaves = self._jxs[x.shape[0]]
        leaves = jax.tree_util.tree_leaves(self.sym_args(eng, a))
        if len(leaves) != len(cleaves):
            raise jaxi.Unsupported("kernel arguments differ between symbolic and concrete operators")
        vals = []
        for s, c in zip(leaves, cleaves):
            c = np.asarray(c)
            if pyexec.is_sym(s):
                s = np.asarray(s, dtype=object)
                if s.shape != c.shape:
                    raise jaxi.Unsupported("kernel argument shape differs")
                vals.append(jaxi.ew(lambda v: v if isinstance(v, Expr) else Expr.const(v), s))
            else:
                s = np.asarray(s)
                vals.append(jaxi.to_expr_array(s) if jaxi.is_float(s.dtype) else s)
        it = Interp(eng, unwind=self.unwind)
        outs = it.run(jx, a["table"], x, *vals)
        return td, [o[:n] for o in outs]

    def ratio(self, a, x, y):
        t = np.asarray(a["table"]).reshape(-1)
        d = t[self.model.idx(y)] - t[self.model.idx(x)]
        return poly.exp(d) if isinstance(d, Expr) else np.exp(d)

    def expected(self, a):
        x = tuple(int(v) for v in np.asarray(a["x"]).reshape(-1))
        tot = 0.0
        for y, m in self.reference(x, self.scalars(a)).items():
            tot = tot + m * self.ratio(a, x, y)
        return tot

    def relation(self, o, a):
        return [("local energy", o, self.expected(a))]


import random
