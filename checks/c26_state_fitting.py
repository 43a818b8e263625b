"""C26: imaginary-time targets and state-fitting steps are what they define."""
import flax.linen as nn

from checks.fermions import hubbard, ab_initio
from checks.sr import *
from symx import pyexec


# ------------------------------------------------------------------ imaginary time
class Amplitudes(nn.Module):
    """free amplitudes, one per configuration; with fast updates the cache keeps the configuration"""

    L: int
    d: int
    apply_fast_update: bool = False

    @nn.compact
    def __call__(self, x, mutable=None, cache_intermediates=False, update_sites=None):
        t = self.param("t", nn.initializers.zeros, (self.d ** self.L,), float)
        q = self.param("q", nn.initializers.zeros, (self.d ** self.L,), float)
        if self.d == 2:
            x = (x > 0).astype(np.uint8)
        if self.apply_fast_update and (cache_intermediates or update_sites is not None):
            store = self.variable("intermediates_cache", "x", lambda: jnp.zeros(x.shape[:1] + (self.L,), np.uint8))
            if update_sites is not None:
                x = apply_updates(store.value, x, update_sites)
            if cache_intermediates or update_sites is not None and self.is_mutable_collection("intermediates_cache"):
                store.value = jnp.asarray(x, np.uint8)
        i = (x.astype(int) * self.d ** jnp.arange(self.L)).sum(-1)
        return t[i] + 1j * q[i]


class Up(nk.sampler.rules.LocalRule):
    def random_state(self, sampler, machine, parameters, state, rng):
        return jnp.ones((sampler.n_batches, sampler.hilbert.size), dtype=sampler.dtype)


def mc_state(hi, model, variables, dtype, chunk_size, n):
    """an ordinary Monte Carlo state; the samples it holds are irrelevant here"""
    st = nk.vqs.MCState(nk.sampler.MetropolisSampler(hi, Up(), n_chains=1, dtype=dtype), model, n_samples=n, chunk_size=chunk_size,
                        variables=variables, sampler_seed=0)
    st._samples = jnp.zeros((1, n, hi.size), dtype=dtype)
    return st


def fermi(edges, U, t):
    def build(hi, fly):
        from GPSKet.operator.hamiltonian import FermiHubbard, FermiHubbardOnTheFly

        return (FermiHubbardOnTheFly if fly else FermiHubbard)(hi, edges, U=U, t=t)
    return build, lambda x: hubbard(x, edges, t, U)


def chem(L):
    r = np.random.RandomState(3)
    h = r.randint(-8, 8, (L, L)) / 8
    h = h + h.T
    e = r.randint(-8, 8, (L, L, L, L)) / 8
    e = e + e.transpose(1, 0, 2, 3)
    e = e + e.transpose(0, 1, 3, 2)
    e = e + e.transpose(2, 3, 0, 1)

    def build(hi, fly):
        from GPSKet.operator.hamiltonian import AbInitioHamiltonian, AbInitioHamiltonianOnTheFly

        return (AbInitioHamiltonianOnTheFly if fly else AbInitioHamiltonian)(hi, h, e)
    return build, lambda x: ab_initio(x, h, e)


def heisenberg(L, J):
    """sum J/4 sigma.sigma on a chain without sign rule"""
    def build(hi, fly):
        from GPSKet.operator.hamiltonian.J1J2 import HeisenbergOnTheFly

        return HeisenbergOnTheFly(hi, nk.graph.Chain(L, pbc=False), J=J / 4, sign_rule=False)

    def act(x):
        d = {}
        for i in range(L - 1):
            s = J * (1 if x[i] == x[i + 1] else -1) / 4
            d[tuple(x)] = d.get(tuple(x), 0) + s
            if x[i] != x[i + 1]:
                y = list(x)
                y[i], y[i + 1] = y[i + 1], y[i]
                d[tuple(y)] = d.get(tuple(y), 0) + J / 2
        return d
    return build, act


class ImagTime(Scenario):
    """amplitudes after 1 - tau H, for free amplitudes and tau, on every configuration of the sector"""

    lockstep = False

    def __init__(self, name, what, ham, L, n_elec=None, fly=True, fast=False, chunk_size=None, taus=1, shape=None, fixed=None):
        self.what, self.ham, self.L, self.n_elec, self.fly, self.fast, self.chunk, self.taus, self.shape = what, ham, L, n_elec, fly, fast, chunk_size, taus, shape
        self.d = 4 if n_elec else 2
        states = list(itertools.product(range(self.d), repeat=L))
        if n_elec:
            states = [x for x in states if (sum(v & 1 for v in x), sum(v >> 1 for v in x)) == n_elec]
        else:
            states = [tuple(2 * v - 1 for v in x) for x in states if 2 * sum(x) == L]
        self.states = states
        Scenario.__init__(self, name, {"t": Real(len(states), lo=0.1, hi=0.7), "q": Real(len(states)), "tau": Const(np.array(fixed)) if fixed else Real(taus, positive=True, lo=0.02, hi=0.08)}, self.call)
        self.functions = ["GPSKet.supervised.imag_time_step." + ("ImagTimeStep.log_imag_time_step" if what == "step" else "get_imag_time_step_vstate")]
        self.bound = "%d sites, %s, %d states, %s, fast_update=%s, chunk size %s, %d step(s); amplitudes and time steps symbolic" % (
            L, n_elec or "zero magnetisation", len(states), "on the fly" if fly else "connected configurations", fast, chunk_size, taus)

    def call(self, t, q, tau):
        with jax.ensure_compile_time_eval():
            return self.run(t, q, tau)

    def run(self, t, q, tau):
        from GPSKet.hilbert import FermionicDiscreteHilbert
        from GPSKet.supervised import imag_time_step as M

        L, d, S = self.L, self.d, self.states
        hi = FermionicDiscreteHilbert(L, n_elec=self.n_elec) if self.n_elec else nk.hilbert.Spin(0.5, L, total_sz=0)
        op = self.ham[0](hi, self.fly)
        code = [sum((v if d == 4 else (v + 1) // 2) * d ** i for i, v in enumerate(x)) for x in S]
        tt, qq = jnp.zeros(d ** L).at[np.array(code)].set(t), jnp.zeros(d ** L).at[np.array(code)].set(q)
        dtype = np.uint8 if d == 4 else np.int8
        st = mc_state(hi, Amplitudes(L, d, self.fast), {"params": {"t": tt, "q": qq}}, dtype, self.chunk, len(S))
        if self.shape is not None:
            st._samples = None  # a state that has not been sampled yet
        before = st._samples
        x = jnp.array(S, dtype=dtype)
        psi = [jnp.exp(t[k] + 1j * q[k]) for k in range(len(S))]
        index = {s: k for k, s in enumerate(S)}
        for n in range(self.taus):
            new = list(psi)
            for k, s in enumerate(S):
                for y, m in self.ham[1](s).items():
                    # <s|H|y> = <y|H|s> for the real symmetric Hamiltonians used here
                    new[k] = new[k] - tau[n] * m * psi[index[y]]
            psi = new
        if self.what == "step":
            got = M.ImagTimeStep(st, op).log_imag_time_step(tau[0], x if self.shape is None else x.reshape(self.shape + (L,)))
            ok = st._samples is before
        else:
            cur = st
            for n in range(self.taus):
                cur = M.get_imag_time_step_vstate(tau[n], op, cur)
            got = cur.log_value(x)
            orig = st.log_value(x)
            ok = bool(np.all(np.asarray(before) == np.asarray(st._samples)))
            return {"got": jnp.exp(got), "want": jnp.stack(psi), "ok": jnp.asarray(ok), "orig": jnp.exp(orig), "same": jnp.exp(t + 1j * q)}
        return {"got": jnp.exp(got), "want": jnp.stack(psi), "ok": jnp.asarray(ok)}

    def relation(self, o, a):
        r = [("amplitude after the imaginary-time step", o["got"], o["want"]), ("the state keeps its own samples", o["ok"])]
        if "orig" in o:
            r.append(("the original state is unchanged", o["orig"], o["same"]))
        return r


# ------------------------------------------------------------------ state fitting
class NpOnTracers(pyexec.NpShim):
    """numpy functions of the driver's constructor, applied to traced data"""

    def __getattr__(self, name):
        f = getattr(np, name)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **k):
            if any(isinstance(v, jax.core.Tracer) for v in jax.tree_util.tree_leaves(a)):
                return getattr(jnp, name)(*a, **k)
            return f(*a, **k)
        return g


class Fitting(Scenario):
    """the driver on a free data set; the mini-batches chosen by the random generator are free"""

    lockstep = False
    generic = True  # residuals are not exactly zero (where the derivative of the modulus is set by convention)

    def __init__(self, name, kind, P=1, N=2, batch=2, steps=1):
        self.lin, self.N, self.batch, self.steps = Linear(kind, P), N, batch, steps
        self.lin.conditionals = lambda *a: None
        sp = {"x": Real(N, self.lin.F), "y": Cplx(N), "ids": Int(steps, batch, dtype=np.int64, lo=0, hi=N - 1)}
        sp.update(self.lin.pspec())
        Scenario.__init__(self, name, sp, self.call)
        self.functions = ["GPSKet.driver.ARStateFitting." + f for f in ("__init__", "_forward_and_backward")] + [
            "GPSKet.driver.autoreg_state_fitting." + f for f in ("_loss", "_loss_and_grad")]
        self.bound = "%d parameter(s) (%s), %d data points, mini-batches of %d (every choice), %d step(s)" % (P, kind, N, batch, steps)

    def assume(self, a):
        ids = a["ids"]
        return [ids[s, i] != ids[s, j] for s in range(self.steps) for i in range(self.batch) for j in range(i)]

    def call(self, x, y, ids, p):
        from GPSKet.driver import ARStateFitting

        lin, asked = self.lin, []

        def choice(key, a, shape=(), replace=True, p=None, axis=0):
            asked.append((key, jnp.asarray(a), tuple(shape), replace, p))
            return ids[len(asked) - 1]

        st = StubState(lin, lin.params(p), [(None, None)])
        keep = jax.random.choice
        jax.random.choice = choice
        try:
            with pyexec.patched(same=[(np, NpOnTracers())]):
                drv = ARStateFitting((x, y), Ham(), optax.sgd(0.5), variational_state=st, mini_batch_size=self.batch, seed=0)
                got, loss = [], []
                for s in range(self.steps):
                    drv.advance(1)
                    got.append(lin.flat(st.parameters))
                    loss.append(drv.loss)
        finally:
            jax.random.choice = keep
        q, want, lw = p, [], []
        for s in range(self.steps):
            f, t = lin.split(x[ids[s]]), y[ids[s]]
            z = jnp.exp(f @ q)
            r = z - t
            lw.append(jnp.sum(r.real ** 2 + r.imag ** 2) / self.batch)
            g = 2 * jnp.einsum("nk,n->k", jnp.conj(f), jnp.conj(z) * r) / self.batch
            q = q - 0.5 * (g if lin.cparams else g.real)
            want.append(q)
        pr = [a[4] for a in asked]
        ok = [len(asked) == self.steps, all(a[2] == (self.batch,) for a in asked), all(not a[3] for a in asked), all(v is not None for v in pr),
              all(a[1].shape == (self.N,) for a in asked)]
        ok.append(len({str(np.asarray(jax.random.key_data(a[0]) if a[0].dtype.kind == "V" else a[0]).tolist()) for a in asked
                       if not isinstance(a[0], jax.core.Tracer)}) in (0, self.steps))
        py = y.real ** 2 + y.imag ** 2
        return {"got": got, "want": want, "loss": loss, "lw": lw, "p": [v * py.sum() for v in pr], "pw": [py * jnp.sum(v) for v in pr],
                "ok": jnp.asarray(ok), "ids": [jnp.asarray(a[1]) for a in asked]}

    def relation(self, o, a):
        r = []
        for s in range(self.steps):
            r.append(("loss of step %d" % s, o["loss"][s], o["lw"][s]))
            r.append(("parameters after step %d" % s, o["got"][s], o["want"][s]))
            r.append(("mini-batch probabilities of step %d" % s, o["p"][s], o["pw"][s]))
            r.append(("mini-batches drawn from the whole data set", np.asarray(o["ids"][s], dtype=object), np.arange(self.N).astype(object)))
        r.append(("draws without replacement, one per step", o["ok"]))
        return r


def scenarios(tier):
    S = []
    T = tier == "thorough"

    def add(cls, name, *k, **kw):
        S.append((name, lambda: cls(name, *k, **kw)))

    two = fermi([(0, 1)], 3.0, [1.25])
    ring = fermi([(0, 1), (1, 2), (0, 2)], 2.5, [1.25, 0.5, 0.75])
    for w in ("step", "vstate"):
        add(ImagTime, w + "_hubbard2", w, two, 2, (1, 1))
        add(ImagTime, w + "_hubbard3", w, ring, 3, (1, 2))
        add(ImagTime, w + "_hubbard2_fast", w, two, 2, (1, 1), fast=True)
        add(ImagTime, w + "_hubbard2_chunk", w, two, 2, (1, 1), chunk_size=2)
        add(ImagTime, w + "_hubbard2_chunk_fast", w, two, 2, (1, 1), chunk_size=1, fast=True)
        add(ImagTime, w + "_chem2", w, chem(2), 2, (1, 1))
        add(ImagTime, w + "_chem2_fast", w, chem(2), 2, (1, 1), fast=True)
        add(ImagTime, w + "_heisenberg2", w, heisenberg(2, 1.5), 2)
        add(ImagTime, w + "_heisenberg4", w, heisenberg(4, 1.5), 4)
    add(ImagTime, "step_hubbard2_conn", "step", two, 2, (1, 1), fly=False)
    add(ImagTime, "step_hubbard2_chains", "step", two, 2, (1, 1), shape=(2, 2))
    add(ImagTime, "step_chem2_conn", "step", chem(2), 2, (1, 1), fly=False)
    add(ImagTime, "nested_hubbard2", "vstate", two, 2, (1, 1), taus=2)
    add(ImagTime, "nested_hubbard2_fast", "vstate", two, 2, (1, 1), taus=2, fast=True)
    add(ImagTime, "nested_hubbard2_chunk", "vstate", two, 2, (1, 1), taus=2, chunk_size=2)
    if T:
        add(ImagTime, "nested_chem2", "vstate", chem(2), 2, (1, 1), taus=2)
        add(ImagTime, "nested3_hubbard2", "vstate", two, 2, (1, 1), taus=3, fixed=[0.125, 0.0625, 0.25])
        add(ImagTime, "nested_hubbard3", "vstate", ring, 3, (1, 1), taus=2)
        add(ImagTime, "vstate_chem3", "vstate", chem(3), 3, (1, 2))
        add(ImagTime, "step_chem3", "step", chem(3), 3, (1, 2))
    for kind in ("rr", "rc", "cc"):
        add(Fitting, "fit_" + kind, kind)
        add(Fitting, "fit_%s_batch" % kind, kind, N=3, batch=2)
    add(Fitting, "fit_rr_params", "rr", P=2)
    add(Fitting, "fit_cc_params", "cc", P=2, N=2, batch=1)
    add(Fitting, "fit_rr_steps", "rr", N=2, batch=1, steps=2)
    return S
