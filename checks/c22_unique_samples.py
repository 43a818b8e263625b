"""C22: unique-sample states count the draws and average with the counts."""
import copy

from checks.sr import *
from checks.c21_sr_rmsprop import unique_state, metric, mul_solver
from symx import pyexec
from symx.engine import Engine, _Infeasible


# ------------------------------------------------------------------ counting the draws
class SInt:
    """a symbolic entry of a drawn configuration; comparing two of them decides the path"""

    __slots__ = ("t", "eng")

    def __init__(self, t, eng):
        self.t, self.eng = t, eng

    def __hash__(self):
        return 0

    def _cmp(self, o, f):
        t = o.t if isinstance(o, SInt) else z3.BitVecVal(int(o), self.t.size())
        return self.eng.branch(f(self.t, t))

    def __eq__(self, o):
        return self is o or self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)


def has_sym(v):
    if isinstance(v, (list, tuple)):
        return any(has_sym(w) for w in v)
    return isinstance(v, (SInt, Expr)) or isinstance(v, np.ndarray) and v.dtype == object


class JnpShim:
    def __getattr__(self, name):
        f = getattr(jnp, name)
        if not callable(f):
            return f

        def g(*a, **k):
            if any(has_sym(v) for v in a):
                return getattr(pyexec.NP, name)(*a, **k)
            return f(*a, **k)
        return g


def base_state(n_samples, batch, chains, steps, L):
    from GPSKet.vqs import MCStateUniqueSamples

    class Draws(MCStateUniqueSamples):
        queue, calls = None, 0

        def sample(self, *, chain_length=None, n_samples=None, n_discard_per_chain=None):
            c = self.sampler.n_chains
            n = chain_length * c if chain_length is not None else -(-(n_samples or self.n_samples) // c) * c
            self.calls += 1
            out = np.empty((n, L), dtype=self.queue.dtype)
            for k in range(n):
                out[k] = self.queue[self.used] if self.used < len(self.queue) else self.wrap(self.used)
                self.used += 1
            self._samples = out.reshape(c, n // c, L)
            return self._samples

        def wrap(self, k):
            r = np.empty(L, dtype=self.queue.dtype)
            r[:] = 100 + k
            return r

    hi = nk.hilbert.Spin(0.5, L)
    st = Draws(nk.sampler.MetropolisLocal(hi, n_chains=chains), nk.models.Jastrow(param_dtype=float), n_samples=n_samples,
               **({} if steps is None else {"max_sampling_steps": steps}), **({} if batch is None else {"batch_size": batch}))
    st.reset()
    return st


class Counting(Scenario):
    lockstep = False
    max_draws = 24

    def __init__(self, name, n, draws, batch=None, chains=1, steps=None, L=1, hi=6, rounds=1):
        self.n, self.batch, self.chains, self.steps, self.L, self.D, self.rounds = n, batch, chains, steps, L, draws, rounds
        Scenario.__init__(self, name, {"s": Int(rounds, draws, L, dtype=np.int8, lo=0, hi=hi)})
        self.functions = ["GPSKet.vqs.MCStateUniqueSamples." + m for m in ("samples_with_counts", "samples", "reset")]
        self.bound = "%d free draws of %d site(s) with values 0..%d per sampling round (then distinct ones), %d chain(s), %d unique samples, batch %s, at most %s batches, %d round(s)" % (
            draws, L, hi, chains, n, batch, steps, rounds)
        self.concrete_only = False

    def prepare(self):
        self.base = base_state(self.n, self.batch, self.chains, self.steps, self.L)
        # can the current code be run on symbolic configurations?
        eng = Engine()
        a, ints = self.symbolic()
        for c in self.int_constraints(ints):
            eng.assume_global(c)
        try:
            for k, _ in enumerate(eng.paths(lambda: self.outs_sym(eng, a))):
                if k > 40:
                    break
        except Exception:
            self.concrete_only = True

    def history(self, queues, eq, sym):
        """for every round: (weights, frequencies, copies) per drawn configuration"""
        st = copy.copy(self.base)
        out = {}
        n = self.base.n_samples
        batch = -(-(self.batch or n) // self.chains) * self.chains
        for r, q in enumerate(queues):
            st.queue, st.used, st.calls = q, 0, 0
            if r:
                st.reset()
            st.samples
            u, c = st.samples_with_counts
            calls = st.calls
            again = st.samples_with_counts
            first = st.samples
            # reference: draws in order, until n distinct ones or the last batch
            groups, freq, used, nb = [], [], 0, 0

            def find(row):
                for g, rep in enumerate(groups):
                    if all(eq(a, b) for a, b in zip(rep, row)):
                        return g
                return None

            while len(groups) < n and (self.steps is None or nb < self.steps):
                nb += 1
                for _ in range(batch):
                    row = q[used] if used < len(q) else st.wrap(used)
                    used += 1
                    g = find(row)
                    if g is None:
                        groups.append(row)
                        freq.append(1)
                    else:
                        freq[g] += 1
                    if len(groups) >= n:
                        break
            w = np.full(self.max_draws, poly.ZERO if sym else 0.0, dtype=object)
            f = np.zeros(self.max_draws)
            copies = np.zeros(self.max_draws)
            total = sum(freq)
            known = True
            u, c = np.asarray(u), np.asarray(c)
            for k in range(u.shape[0]):
                g = find(u[k])
                if g is None:
                    known = False
                    continue
                w[g] = w[g] + c[k]
                if sym and not (isinstance(c[k], Expr) and c[k].same(poly.ZERO) or not isinstance(c[k], Expr) and c[k] == 0) or not sym and c[k] != 0:
                    copies[g] += 1
            for g in range(len(groups)):
                f[g] = freq[g] / total
            if not sym:
                w = w.astype(float)
            same = all(np.shape(x) == np.shape(y) and all(eq(p, q) for p, q in zip(np.asarray(x).reshape(-1), np.asarray(y).reshape(-1)))
                       for x, y in ((again[0], u), (first, u)))
            out["w%d" % r], out["f%d" % r], out["copies%d" % r] = w, f, copies
            out["ok%d" % r] = np.array([known, u.shape == (n, self.L), c.shape == (n,), calls == nb, same, st.calls == calls])
            out["need%d" % r] = (np.arange(self.max_draws) < len(groups)).astype(float)
        return out

    def outs_real(self, a):
        q = [np.asarray(x) for x in a["s"]]
        return self.history(q, lambda x, y: x == y, False)

    def outs_sym(self, eng, a):
        if self.concrete_only:
            s = np.zeros(a["s"].shape, dtype=np.int8)
            for ix in np.ndindex(*s.shape):
                s[ix] = eng.concretise(a["s"][ix], True)
            return self.history(list(s), lambda x, y: x == y, False)
        q = np.empty(a["s"].shape, dtype=object)
        for ix in np.ndindex(*q.shape):
            q[ix] = SInt(a["s"][ix], eng)
        from netket.stats import mpi_stats
        from netket.utils import mpi

        def total(x, *k, **kw):
            return np.sum(np.asarray(x, dtype=object))

        same = [(jnp, JnpShim()), (mpi_stats.sum, total), (mpi.mpi_allgather_jax, lambda x, **k: (x, None))]
        with pyexec.patched(same=same):
            return self.history([x.view(pyexec.SymArr) for x in q], lambda x, y: x == y, True)

    def relation(self, o, a):
        r = []
        for k in range(self.rounds):
            r.append(("weight of every drawn configuration is its relative frequency (round %d)" % k, o["w%d" % k], o["f%d" % k]))
            r.append(("every drawn configuration is stored once (round %d)" % k, o["copies%d" % k], o["need%d" % k]))
            r.append(("stored rows are drawn configurations, shapes, number of batches, caching (round %d)" % k, [bool(x) for x in o["ok%d" % k]]))
        return r


# ------------------------------------------------------------------ averages
class Obs(nk.operator.AbstractOperator):
    """local values are the last columns of the configuration"""

    def __init__(self, cplx):
        super().__init__(nk.hilbert.Spin(0.5, 1))
        self.cplx = cplx

    @property
    def dtype(self):
        return complex if self.cplx else float

    @property
    def is_hermitian(self):
        return True


def _local(logpsi, pars, s, args):
    return s[:, -2] + 1j * s[:, -1] if args else s[:, -1]


def _local_real(logpsi, pars, s, args):
    return s[:, -1]


def _local_cplx(logpsi, pars, s, args):
    return s[:, -2] + 1j * s[:, -1]


def _chunk_real(logpsi, pars, s, args, *, chunk_size):
    return s[:, -1]


def _chunk_cplx(logpsi, pars, s, args, *, chunk_size):
    return s[:, -2] + 1j * s[:, -1]


@nk.vqs.get_local_kernel_arguments.dispatch
def _args(vstate: nk.vqs.MCState, op: Obs):
    return vstate.samples, ()


@nk.vqs.get_local_kernel.dispatch
def _kernel(vstate: nk.vqs.MCState, op: Obs):
    return _local_cplx if op.cplx else _local_real


@nk.vqs.get_local_kernel.dispatch
def _kernel_chunked(vstate: nk.vqs.MCState, op: Obs, chunk_size: int):
    return _chunk_cplx if op.cplx else _chunk_real


class Wide(Linear):
    """the last columns of a configuration carry the local value"""

    def __init__(self, kind, P, cplx):
        Linear.__init__(self, kind, P)
        self.extra_cols = 2 if cplx else 1

    def split(self, x):
        return Linear.split(self, x[:, :self.F])


def weights(w):
    return jnp.concatenate([w, 1 - w.sum(keepdims=True)])


class Average(Scenario):
    lockstep = False

    def __init__(self, name, kind, P=2, N=3, chunk_size=None, cplx=None):
        self.cplx = kind != "rr" if cplx is None else cplx
        self.lin, self.N, self.chunk = Wide(kind, P, self.cplx), N, chunk_size
        sp = {"x": Real(N, self.lin.F + self.lin.extra_cols), "w": Real(N - 1, positive=True, lo=0.1, hi=0.3)}
        sp.update(self.lin.pspec())
        Scenario.__init__(self, name, sp, self.call)
        self.functions = ["GPSKet.vqs.mc.mc_state.state_unique_samples." + f for f in ("expect", "expect_and_forces", "grad_expect_hermitian_chunked")]
        self.bound = "%d parameter(s) (%s), %d weighted samples, %s local values, chunk size %s" % (P, kind, N, "complex" if self.cplx else "real", chunk_size)

    def call(self, x, w, p):
        lin = self.lin
        wt = weights(w)
        st = unique_state(lin, lin.params(p), x, wt, chunk_size=self.chunk)
        type(st).mutable = False
        op = Obs(self.cplx)
        e0 = st.expect(op)
        e1, g = st.expect_and_grad(op)
        e2, f = st.expect_and_forces(op)
        E = (_local_cplx if self.cplx else _local_real)(None, None, x, ())
        mean = jnp.sum(wt * E)
        var = jnp.sum(wt * (E - mean) * jnp.conj(E - mean)).real
        O = lin.split(x)
        F = jnp.einsum("n,nk,n->k", wt, jnp.conj(O), E - mean)
        G = 2 * F if lin.cparams else 2 * F.real
        return {"mean": [e0.mean, e1.mean, e2.mean], "var": [e0.variance, e1.variance, e2.variance], "want": [mean, var],
                "grad": lin.flat(g), "G": G, "forces": lin.flat(f), "F": F}

    def relation(self, o, a):
        r = []
        for k, n in enumerate(("expect", "expect_and_grad", "expect_and_forces")):
            r.append(("mean of " + n, o["mean"][k], o["want"][0]))
            r.append(("variance of " + n, o["var"][k], o["want"][1]))
        return r + [("gradient", o["grad"], o["G"]), ("forces", o["forces"], o["F"])]


class UniqueTensor(Scenario):
    """QGTJacobianDenseUniqueSamples: weighted metric plus shift"""

    lockstep = False

    def __init__(self, name, kind, P=2, N=3, shift=0.25, chunk_size=None, partial=False, kw=None):
        self.lin, self.N, self.shift, self.chunk, self.partial, self.kw = Linear(kind, P), N, shift, chunk_size, partial, kw or {}
        sp = {"x": Real(N, self.lin.F), "w": Real(N - 1, positive=True, lo=0.1, hi=0.3), "v": Real(self.lin.nreal)}
        sp.update(self.lin.pspec())
        Scenario.__init__(self, name, sp, self.call)
        self.functions = ["GPSKet.optimizer.qgt.QGTJacobianDenseUniqueSamples"]
        self.bound = "%d parameter(s) (%s), %d weighted samples, shift %s, options %s" % (P, kind, N, shift, kw)

    def call(self, x, w, v, p):
        import GPSKet.optimizer.qgt as G

        lin, kw = self.lin, dict(self.kw)
        wt = weights(w)
        st = unique_state(lin, lin.params(p), x, wt, chunk_size=self.chunk)
        if self.shift is not None:
            kw["diag_shift"] = self.shift
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            A = G.QGTJacobianDenseUniqueSamples(**kw)(st) if self.partial else G.QGTJacobianDenseUniqueSamples(st, **kw)
        holo = self.kw.get("holomorphic") or self.kw.get("mode") == "holomorphic"
        if holo:
            O = lin.split(x)
            O = O - jnp.einsum("n,nk->k", wt, O)
            S = jnp.einsum("n,nk,nl->kl", wt, O.conj(), O) + (self.shift or 0.0) * jnp.eye(lin.P)
            vec = lin.from_real(v)
            tree = lin.params(vec)
            return {"dense": A.to_dense(), "S": S, "tree": lin.flat(A @ tree), "Sv": S @ vec}
        S = metric(lin, x, wt, lin.kind in ("rr", "cr") or self.kw.get("mode") == "real") + (self.shift or 0.0) * jnp.eye(lin.nreal)
        tree = lin.params(lin.from_real(v))
        return {"dense": A.to_dense(), "S": S, "tree": lin.to_real(lin.flat(A @ tree)), "Sv": S @ v}

    def relation(self, o, a):
        return [("dense matrix", o["dense"], o["S"]), ("product with a parameter tree", o["tree"], o["Sv"])]


def scenarios(tier):
    S = []
    T = tier == "thorough"

    def add(cls, name, *k, **kw):
        S.append((name, lambda: cls(name, *k, **kw)))

    add(Counting, "count_3", 3, 5, steps=2)
    add(Counting, "count_open", 3, 5)
    add(Counting, "count_batch", 3, 6, batch=2, steps=3)
    add(Counting, "count_small_batch_open", 2, 4, batch=1)
    add(Counting, "count_large_batch", 2, 5, batch=4, steps=1)
    add(Counting, "count_chains", 4, 6, chains=2, steps=2, batch=4)
    add(Counting, "count_two_sites", 3, 3, L=2, hi=1, steps=1)
    add(Counting, "count_two_sites_open", 2, 4, L=2, hi=1)
    add(Counting, "count_rounds", 2, 3, rounds=2, steps=2)
    if T:
        add(Counting, "count_7", 4, 7, steps=2)
        add(Counting, "count_8", 5, 8, batch=3, steps=3)
        add(Counting, "count_two_sites_5", 3, 5, L=2, hi=1, steps=2)
        add(Counting, "count_rounds_3", 2, 3, rounds=3, steps=2)
    add(Average, "avg_rr", "rr")
    add(Average, "avg_rc", "rc")
    add(Average, "avg_cc", "cc", P=1)
    add(Average, "avg_rr_chunk", "rr", N=4, chunk_size=2)
    add(Average, "avg_rc_chunk", "rc", P=1, N=4, chunk_size=2)
    add(Average, "avg_cc_chunk", "cc", P=1, N=2, chunk_size=1)
    add(Average, "avg_cc_2", "cc", P=2, N=2)
    for kind in ("rr", "rc", "cc", "cr"):
        add(UniqueTensor, "qgt_" + kind, kind, P=2 if kind[0] == "r" else 1)
    add(UniqueTensor, "qgt_cc_2", "cc", P=2, N=2)
    add(UniqueTensor, "qgt_rr_shift0", "rr", shift=0.0)
    add(UniqueTensor, "qgt_rr_noshift", "rr", shift=None)
    add(UniqueTensor, "qgt_rr_partial", "rr", partial=True)
    add(UniqueTensor, "qgt_rc_mode", "rc", kw={"mode": "complex"})
    add(UniqueTensor, "qgt_rc_partial", "rc", P=1, kw={"mode": "complex"}, partial=True)
    add(UniqueTensor, "qgt_cc_holo", "cc", P=2, N=2, kw={"holomorphic": True})
    add(UniqueTensor, "qgt_cc_holo_mode", "cc", P=1, N=2, kw={"mode": "holomorphic"}, partial=True)
    add(UniqueTensor, "qgt_rr_chunk", "rr", N=4, P=1, chunk_size=2)
    return S
