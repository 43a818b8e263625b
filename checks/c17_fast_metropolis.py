"""C17: the fast-update Metropolis sampler keeps chain, cache and probability consistent.

The sampler runs on an arbitrary wave function (one free complex log-amplitude per configuration, implementing the
fast-update protocol: its cache is the configuration it was computed for) with a rule that may propose to change any site
to any value (symbolic draw) and may return any detailed-balance correction.  Acceptance draws are symbolic reals, so the
paths are all accept/reject patterns over chains and steps.  The reference replays the chain from the definition:
accept iff u < |psi(x')/psi(x)|^p exp(correction)."""
import netket as nk
from flax import linen as nn
from netket.sampler import MetropolisRule
from netket.utils import struct

from checks.common import *
from symx import rng
from symx.harness import DrawScenario


class TableModel(nn.Module):
    L: int
    base: int
    first: int = 0
    step: int = 1
    apply_fast_update: bool = True

    def index(self, x):
        d = (jnp.asarray(x, jnp.int32) - self.first) // self.step
        return jnp.sum(d * np.array([self.base ** k for k in range(self.L)], np.int32), axis=-1)

    @nn.compact
    def __call__(self, x, cache_intermediates=False, update_sites=None):
        t = self.param("table", nn.initializers.normal(), (self.base ** self.L,), complex)
        if update_sites is not None or cache_intermediates:
            s = self.variable("intermediates_cache", "samples", lambda: None)
            w = self.variable("intermediates_cache", "weight", lambda: None)
        if update_sites is not None:
            x = apply_updates(s.value, x.astype(s.value.dtype), update_sites)
        out = t[self.index(x)]
        if update_sites is not None:
            # a quantity with further axes, carried through the cache: zero iff the cache is consistent
            out = out + (w.value[:, 0, 1] - t[self.index(s.value)])
        if cache_intermediates:
            s.value = x
            w.value = jnp.stack([jnp.stack([t[self.index(x)]] * 2, -1)] * 2, -1)
        return out


class AnySite(MetropolisRule):
    """sets one site per chain to one value"""
    corr: bool = struct.field(pytree_node=False)
    values: tuple = struct.field(pytree_node=False)
    L: int = struct.field(pytree_node=False)

    def __init__(self, corr, values, L):
        self.corr, self.values, self.L = corr, values, L

    def random_state(rule, sampler, machine, parameters, state, key):
        return jnp.full((sampler.n_chains, sampler.hilbert.size), rule.values[0], sampler.dtype)

    def transition(rule, sampler, machine, parameters, state, key, x):
        ka, kb = jax.random.split(key)
        site = jax.random.randint(ka, (x.shape[0],), 0, rule.L)
        val = jax.random.randint(kb, (x.shape[0],), 0, len(rule.values))
        new = jnp.asarray(rule.values, x.dtype)[val]
        y = jax.vmap(lambda c, s, v: c.at[s].set(v))(x, site, new)
        c = None
        if rule.corr:
            t = parameters["params"]["table"].imag  # any real function of the two configurations
            c = t[machine.index(x)] - 2 * t[machine.index(y)]
        return y, c, site[:, None]




class FastMetropolis(DrawScenario):
    validate = 3
    sample_runs = 0
    functions = ["GPSKet.sampler.metropolis_fast.MetropolisFastSampler._sample_next (through Sampler.sample)"]

    def __init__(self, name, kind="spin", L=2, chains=2, sweep=2, length=1, power=2, corr=False):
        self.kind, self.L, self.chains, self.sweep, self.length, self.power, self.corr = kind, L, chains, sweep, length, power, corr
        if kind == "spin":
            self.hi, self.vals, self.dt = nk.hilbert.Spin(0.5, L), (-1, 1), np.int8
            self.model = TableModel(L, 2, -1, 2)
        else:
            from GPSKet.hilbert import FermionicDiscreteHilbert
            self.hi, self.vals, self.dt = FermionicDiscreteHilbert(L), (0, 1, 2, 3), np.uint8
            self.model = TableModel(L, 4)
        self.nconf = len(self.vals) ** L
        Scenario.__init__(self, name, {"x": Int(chains, L, dtype=np.uint8, lo=0, hi=len(self.vals) - 1), "key": Key(1),
                                       "re": Real(self.nconf), "im": Real(self.nconf)}, self.call)
        self.order = None
        self.bound = "%s L=%d, %d chains, %d sample(s) of %d steps, machine_pow=%d, correction=%s" % (
            kind, L, chains, length, sweep, power, corr)

    def state_of(self, d):
        return tuple(self.vals[int(v)] for v in d)

    def idx(self, x):
        return sum(self.vals.index(int(v)) * len(self.vals) ** k for k, v in enumerate(x))

    def call(self, x, key, re, im):
        table = re + 1j * im
        from GPSKet.sampler.metropolis_fast import MetropolisFastSampler

        sa = MetropolisFastSampler(self.hi, AnySite(self.corr, self.vals, self.L), n_chains=self.chains, sweep_size=self.sweep,
                                   machine_pow=self.power, dtype=self.dt)
        v = {"params": {"table": table}}
        st = sa.init_state(self.model, {"params": {"table": jnp.zeros_like(table)}}, 0)
        st = st.replace(σ=jnp.asarray(self.vals, self.dt)[x], rng=key)
        st = sa.reset(self.model, v, state=st)
        y, new = sa.sample(self.model, v, state=st, chain_length=self.length)
        return {"samples": y, "final": new.σ, "accepted": new.n_accepted, "steps": new.n_steps, "log_prob": new.log_prob}

    def reference(self, x0, site, val, u, table, accept, ex):
        re, im = table
        x = [list(self.state_of(r)) for r in x0]
        acc = 0
        out = np.zeros((self.chains, self.length, self.L), dtype=int)
        t = 0
        for k in range(self.length):
            for s in range(self.sweep):
                for c in range(self.chains):
                    y = list(x[c])
                    y[site(t, c)] = self.vals[val(t, c)]
                    a, b = self.idx(x[c]), self.idx(y)
                    e = self.power * (re[b] - re[a])
                    if self.corr:
                        e = e + (im[a] - 2 * im[b])
                    if accept(u(t, c), ex(e)):
                        x[c] = y
                        acc += 1
                t += 1
            out[:, k] = np.array(x)
        lp = np.array([self.power * re[self.idx(r)] for r in x], dtype=object)
        return {"samples": out, "final": np.array(x), "accepted": acc, "steps": self.length * self.sweep * self.chains,
                "log_prob": lp}

    def groups(self):
        """names of the draws in order of use: acceptance draws, sites, values"""
        C, n = self.chains, self.length * self.sweep * self.chains
        us = list(self.draws.u)
        ints = list(self.draws.ints)
        if len(us) < n or len(ints) < 2 * n:
            return None
        if len(us) != n or len(ints) != 2 * n:
            raise poly.Unsupported("unexpected number of random draws: %d, %d" % (len(us), len(ints)))
        site, val = [], []
        for t in range(0, 2 * n, 2 * C):
            site += ints[t:t + C]
            val += ints[t + C:t + 2 * C]
        return us, site, val

    def outs_py(self, eng, args):
        o = super().outs_py(eng, args)
        for k in ("samples", "final", "accepted", "steps"):
            v = np.asarray(o[k])
            if v.dtype == object:
                f = [eng.concretise(q, True) if jaxi.isz3(q) else int(q) for q in v.reshape(-1)]
                v = np.array(f, dtype=int).reshape(v.shape)
            o[k] = v
        g = self.groups()
        if g is None:
            return {"fresh": False}
        us, site, val = self.order = g
        D, C = self.draws, self.chains
        it = self.interp

        def conc(nm):
            return eng.concretise(D.ints[nm], True)
        ref = self.reference(args["x"], lambda t, c: conc(site[t * C + c]), lambda t, c: conc(val[t * C + c]),
                             lambda t, c: D.u[us[t * C + c]], (args["re"], args["im"]),
                             lambda a, b: eng.branch(it.fcmp("lt", a, b)), poly.exp)
        return {"got": o, "ref": ref}

    def outs_real(self, a):
        o = super().outs_real(a)
        n = self.length * self.sweep * self.chains
        if sum(k[:2] == "u!" for k in rng.USED) < n or sum(k[:2] == "i!" for k in rng.USED) < 2 * n:
            return {"fresh": False}
        if self.order is None:
            return {"got": o, "ref": o}
        us, site, val = self.order
        C = self.chains
        T = rng.TABLE

        def i(nm, n):
            return int(T[nm]) if nm in T else rng._default(nm, n)
        ref = self.reference(a["x"], lambda t, c: i(site[t * C + c], self.L), lambda t, c: i(val[t * C + c], len(self.vals)),
                             lambda t, c: float(T.get(us[t * C + c], rng._default(us[t * C + c]))), (a["re"], a["im"]),
                             lambda p, q: p < q, np.exp)
        ref["log_prob"] = np.array(ref["log_prob"], dtype=float)
        return {"got": o, "ref": ref}

    def relation(self, o, a):
        if "fresh" in o:
            return [("every step of every chain uses random draws of its own", o["fresh"])]
        g, r = o["got"], o["ref"]

        def ints(v):
            return np.asarray(v).astype(int)
        res = []
        for k in ("samples", "final", "accepted", "steps"):
            x, y = ints(g[k]), ints(r[k])
            res.append(({"samples": "samples of the chain", "final": "stored configurations", "accepted": "number of accepted moves",
                         "steps": "number of moves"}[k], x.shape == y.shape and bool(np.array_equal(x, y))))
        res.append(("stored log-probabilities", g["log_prob"], r["log_prob"]))
        return res


def scenarios(tier):
    S = []

    def add(name, **kw):
        S.append((name, lambda: FastMetropolis(name, **kw)))
    add("spin_L2_c1_s2", L=2, chains=1, sweep=2)
    add("spin_L2_c2_s1", L=2, chains=2, sweep=1)
    add("spin_L2_c1_s1_len2", L=2, chains=1, sweep=1, length=2)
    add("spin_L2_c1_s2_corr", L=2, chains=1, sweep=2, corr=True)
    add("spin_L1_c2_s2", L=1, chains=2, sweep=2)
    add("spin_L1_c2_s1_len2_corr", L=1, chains=2, sweep=1, length=2, corr=True)
    add("spin_L1_c1_s3", L=1, chains=1, sweep=3, power=1)
    add("spin_L1_c3_s1", L=1, chains=3, sweep=1)
    add("fermion_L1_c1_s2", kind="fermion", L=1, chains=1, sweep=2)
    if tier != "quick":
        add("spin_L2_c2_s2", L=2, chains=2, sweep=2)
        add("spin_L2_c1_s3", L=2, chains=1, sweep=3)
        add("spin_L3_c1_s2", L=3, chains=1, sweep=2)
        add("fermion_L1_c2_s1_corr", kind="fermion", L=1, chains=2, sweep=1, corr=True)
    return S
