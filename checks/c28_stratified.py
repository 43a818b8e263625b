"""C28: stratified states weight the deterministic set exactly and sample only its complement."""
import random

import flax.linen as nn

from checks.sr import *


class Table(nn.Module):
    """free log-amplitudes, one per configuration of +-1 spins"""

    L: int

    @nn.compact
    def __call__(self, x):
        t = self.param("t", nn.initializers.zeros, (2 ** self.L,), float)
        q = self.param("q", nn.initializers.zeros, (2 ** self.L,), float)
        i = ((x > 0).astype(int) * 2 ** jnp.arange(self.L)).sum(-1)
        return t[i] + 1j * q[i]


class Box(nk.hilbert.Spin):
    """spins whose random states come from a list, once it is set"""

    source = None

    def random_state(self, key=None, size=None, dtype=np.int8):
        if self.source is None:
            return super().random_state(key, size, dtype=dtype)
        shape = () if size is None else (size,) if isinstance(size, int) else tuple(size)
        n = int(np.prod(shape, dtype=int))
        return np.stack([self.source() for _ in range(n)]).reshape(shape + (self.size,)).astype(dtype)


class Start(nk.sampler.rules.LocalRule):
    """chains of the sampler itself start all up (the state replaces that start)"""

    def random_state(self, sampler, machine, parameters, state, rng):
        return jnp.ones((sampler.n_batches, sampler.hilbert.size), dtype=sampler.dtype)


def spins(k, L):
    return np.array([1 if k >> i & 1 else -1 for i in range(L)], dtype=np.int8)


class Stratified(Scenario):
    lockstep = False

    def __init__(self, name, L=2, det=(0,), chains=1, n=2, discard=0, sweeps=1, draws=2, init=1, rand=0, n_random=None, rand_norm=True, renormalize=True,
                 chunk_size=None):
        self.L, self.det, self.chains, self.n, self.discard, self.sweeps = L, det, chains, n, discard, sweeps
        self.rand_norm, self.renormalize, self.n_random, self.chunk_size = rand_norm, renormalize, n_random, chunk_size
        hi = 2 ** L - 1
        sp = {"t": Real(2 ** L, lo=0.1, hi=0.7), "q": Real(2 ** L)}
        self.nd, self.ni, self.nr = draws, init, rand
        if draws:
            sp["d"] = Int(draws, chains, dtype=np.int8, lo=0, hi=hi)
        if init:
            sp["i"] = Int(init, dtype=np.int8, lo=0, hi=hi)
        if rand:
            sp["r"] = Int(rand, dtype=np.int8, lo=0, hi=hi)
        Scenario.__init__(self, name, sp)
        self.functions = ["GPSKet.vqs.MCStateStratifiedSampling." + m for m in ("__init__", "sample_step", "samples_with_counts")]
        self.bound = ("%d spins, deterministic set %s, %d chain(s), %d samples, %d discarded, sweeps of %d, the first %d chain moves, %d initial and %d norm draws free "
                      "(then fixed), %s norm draws, rand_norm=%s, renormalize=%s" % (L, det, chains, n, discard, sweeps, draws, init, rand, n_random, rand_norm, renormalize))

    def run(self, t, q, d, i, r):
        from GPSKet.vqs import MCStateStratifiedSampling

        L, chains = self.L, self.chains
        comp = [k for k in range(2 ** L) if k not in self.det]
        seen = []

        class State(MCStateStratifiedSampling):
            verif_step = 0

            def sample(self, *, chain_length=None, n_samples=None, n_discard_per_chain=None):
                c = chain_length if chain_length is not None else n_samples // chains
                disc = self.n_discard_per_chain if n_discard_per_chain is None else n_discard_per_chain
                seen.append((np.array(self.sampler_state.σ), self.sampler.sweep_size, disc))
                rows = np.stack([self.verif_move(self.verif_step + k) for k in range(c)], 1)
                self.verif_step += c
                self._samples = jnp.asarray(rows)
                self.sampler_state = self.sampler_state.replace(σ=jnp.asarray(rows[:, -1]))
                return self._samples

            def verif_move(self, k):
                return np.stack([spins(int(d[k, c]) if k < len(d) else comp[(k + c) % len(comp)], L) for c in range(chains)])

        hi = Box(0.5, L)
        pos = {"i": 0, "r": 0}
        phase = "i"

        def source():
            vals = i if phase == "i" else r
            k = pos[phase]
            pos[phase] += 1
            return spins(int(vals[k]) if k < len(vals) else comp[k % len(comp)], L)

        det = np.stack([spins(k, L) for k in self.det])
        hi.__dict__["source"] = source
        sampler = nk.sampler.MetropolisSampler(hi, Start(), n_chains=chains, sweep_size=self.sweeps, dtype=np.int8)

        kw = {}
        if self.n_random is not None:
            kw["number_random_samples"] = self.n_random
        if not self.rand_norm:
            kw["rand_norm"] = False
        if not self.renormalize:
            kw["renormalize"] = False
        st = State(det, 2 ** L, sampler, Table(L), n_samples=self.n, n_discard_per_chain=self.discard, chunk_size=self.chunk_size,
                   variables={"params": {"t": t, "q": q}}, sampler_seed=0, **kw)
        phase = "r"
        s, w = st.samples_with_counts
        # reference
        p = [jnp.exp(2 * t[k]) for k in range(2 ** L)]
        k, cur = 0, []
        for c in range(chains):
            while True:
                v = int(i[k]) if k < len(i) else comp[k % len(comp)]
                k += 1
                if v not in self.det:
                    break
            cur.append(v)
        path, kept = [], []
        n_len = -(-self.n // chains)
        for m in range((self.discard + n_len) * self.sweeps):
            path.append(list(cur))
            for c in range(chains):
                v = int(d[m, c]) if m < len(d) else comp[(m + c) % len(comp)]
                if v not in self.det:
                    cur[c] = v
            if m >= self.discard * self.sweeps and (m + 1) % self.sweeps == 0:
                kept += list(cur)
        Zd = sum(p[v] for v in self.det)
        if not self.renormalize:
            Z = 1.0
        elif self.rand_norm:
            need = self.n_random if self.n_random is not None else n_len * chains
            got, k = [], 0
            while len(got) < need:
                v = int(r[k]) if k < len(r) else comp[k % len(comp)]
                k += 1
                if v not in self.det:
                    got.append(v)
            Z = Zd + len(comp) * sum(p[v] for v in got) / need
        else:
            Z = Zd + len(comp) * len(kept) / sum(1 / p[v] for v in kept)
        want = [jnp.zeros(()) for _ in p]
        for v in self.det:
            want[v] = want[v] + p[v] / Z
        for v in kept:
            want[v] = want[v] + (1 - Zd / Z) / len(kept)
        s = np.asarray(s)
        index = [sum(int(b > 0) << j for j, b in enumerate(row)) for row in s]
        have = [jnp.zeros(()) for _ in p]
        for k, v in enumerate(index):
            have[v] = have[v] + w[k]
        ok = [len(s) == len(self.det) + len(kept), len(w) == len(s), len(seen) == len(path),
              all(z[1] == 1 for z in seen), all(z[2] == 0 for z in seen),
              all(np.array_equal(z[0], np.stack([spins(v, L) for v in c])) for z, c in zip(seen, path))]
        return {"have": have, "want": want, "total": jnp.sum(w), "ok": np.array(ok)}

    def ints(self, a):
        return (np.asarray(a.get("d", np.zeros((0, self.chains), int))), np.asarray(a.get("i", np.zeros(0, int))), np.asarray(a.get("r", np.zeros(0, int))))

    def outs_real(self, a):
        o = self.run(jnp.asarray(a["t"]), jnp.asarray(a["q"]), *self.ints(a))
        return jax.tree_util.tree_map(np.asarray, o)

    def outs_py(self, eng, a):
        ints = self.ints(a)
        ok = []

        def f(t, q):
            with jax.ensure_compile_time_eval():
                o = self.run(t, q, *ints)
            ok.append(o.pop("ok"))
            return o

        jx, tree = jax.make_jaxpr(f, return_shape=True)(*[jnp.zeros(2 ** self.L)] * 2)
        it = jaxi.Interp(eng, unwind=self.unwind)
        it.fork_select = it.fork_cmp = True
        o = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(tree), it.run(jx, a["t"], a["q"]))
        o["ok"] = ok[-1]
        return o

    def relation(self, o, a):
        r = [("weight of configuration %d" % k, h, w) for k, (h, w) in enumerate(zip(o["have"], o["want"]))]
        r.append(("weights add up", o["total"], np.array(1.0)))
        r.append(("number of samples, chain restarted from the kept configurations, single moves", [bool(v) for v in o["ok"]]))
        return r


def scenarios(tier):
    S = []
    T = tier == "thorough"

    def add(name, *k, **kw):
        S.append((name, lambda: Stratified(name, *k, **kw)))

    add("uniform_norm", rand=1)
    add("uniform_norm_draws", rand=2, draws=1, init=0, n_random=2)
    add("uniform_norm_3", rand=3, draws=0, init=0, n_random=3)
    add("importance_norm", rand_norm=False)
    add("importance_norm_2", det=(1, 2), rand_norm=False, draws=3, n=3, init=0)
    add("normalised", renormalize=False)
    add("discard", discard=1, draws=3, init=0, rand_norm=False)
    add("sweeps", sweeps=2, draws=4, init=0, n=2, rand_norm=False)
    add("chains", chains=2, n=4, draws=2, init=0, det=(3,), rand_norm=False)
    add("chains_init", chains=2, n=2, draws=0, init=3, det=(0, 3), rand_norm=False)
    add("chunks", chunk_size=1, draws=2, init=0, rand_norm=False)
    add("three_spins", L=3, det=(0, 5, 6), draws=1, init=0, rand=1, n=2, n_random=2)
    if T:
        add("longer", draws=4, n=4, init=1, rand=1)
        add("sweeps_discard", sweeps=2, discard=1, draws=5, init=0, n=2, rand_norm=False)
        add("chains_sweeps", chains=2, n=4, sweeps=2, draws=3, init=0, rand_norm=False)
        add("three_spins_longer", L=3, det=(0, 5, 6), draws=3, init=0, rand=0, n=3, rand_norm=False)
    return S
