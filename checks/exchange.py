"""the exchange rule with updates executed with a symbolic random draw"""
import netket as nk

from checks.common import *
from symx import harness, rng
from symx.harness import DrawScenario


class Exchange(DrawScenario):
    """L sites on a chain (pbc or open) or explicit clusters; vals: local states"""
    functions = ["GPSKet.sampler.metropolis_fast.MetropolisFastExchange", "GPSKet.sampler.rules.exchange_with_update.ExchangeRuleWithUpdate.transition"]

    def __init__(self, name, L, vals=(-1, 1), batch=1, d_max=1, pbc=True, clusters=None, dtype=np.int8):
        self.L, self.vals, self.batch, self.d_max, self.pbc, self.clusters, self.dt = L, vals, batch, d_max, pbc, clusters, dtype
        Scenario.__init__(self, name, {"x": Int(batch, L, dtype=dtype, lo=min(vals), hi=max(vals)), "key": Key(3)}, self.call)
        self.bound = "exchange rule, %d sites, local states %s, batch %d, %s" % (
            L, vals, batch, "clusters %s" % (clusters,) if clusters else "chain with pbc=%s, d_max=%d" % (pbc, d_max))
        if clusters:
            self.allowed = {tuple(sorted(c)) for c in clusters}
        else:
            dist = lambda i, j: min(abs(i - j), L - abs(i - j)) if pbc else abs(i - j)
            self.allowed = {(i, j) for i in range(L) for j in range(i + 1, L) if dist(i, j) <= d_max}

    def assume(self, a):
        return [z3.Or([v == w for w in self.vals]) for v in np.asarray(a["x"]).reshape(-1)]

    def sampler(self):
        from GPSKet.hilbert import FermionicDiscreteHilbert
        from GPSKet.sampler import MetropolisFastExchange

        hi = nk.hilbert.Spin(0.5, self.L) if len(self.vals) == 2 else FermionicDiscreteHilbert(self.L)
        kw = dict(clusters=self.clusters) if self.clusters else dict(graph=nk.graph.Chain(self.L, pbc=self.pbc), d_max=self.d_max)
        return MetropolisFastExchange(hi, n_chains=self.batch, dtype=self.dt, **kw)

    def call(self, x, key):
        with jax.ensure_compile_time_eval():
            sa = self.sampler()
        y, corr, sites = sa.rule.transition(sa, None, None, None, key, x)
        r = {"y": y, "sites": sites}
        if corr is not None:
            r["corr"] = corr
        return r

    def conc(self, arr):
        arr = np.asarray(arr)
        if arr.dtype != object:
            return arr.astype(int)
        return np.array([[int(self.interp.eng.concretise(v, True)) if jaxi.isz3(v) else int(v) for v in row] for row in arr])
