"""the fermionic hopping rule executed with symbolic random draws"""
from checks.common import *
from symx import harness, rng
from symx.harness import DrawScenario


def off_pairs(L):
    return [(i, j) for i in range(L) for j in range(i + 1, L)]


def table(L, vals, pairs):
    """symmetric table with rows that sum to one; vals: one entry per allowed pair"""
    obj = isinstance(vals, np.ndarray) and vals.dtype == object
    if obj:
        T = np.empty((L, L), dtype=object)
        T[:] = Expr.const(0)
    else:
        T = jnp.zeros((L, L))
    for k, (i, j) in enumerate(pairs):
        if obj:
            T[i, j] = T[j, i] = vals[k]
        else:
            T = T.at[i, j].set(vals[k]).at[j, i].set(vals[k])
    for i in range(L):
        d = 1
        for j in range(L):
            if j != i:
                d = d - T[i, j]
        if obj:
            T[i, i] = d
        else:
            T = T.at[i, i].set(d)
    return T


class Hopping(DrawScenario):
    """L sites, n_elec, batch; hop: None (always hops), "sym" (symbolic hop probability); pairs: pairs with T>0, or None"""
    functions = ["GPSKet.sampler.rules.fermionic_hopping.transition_function",
                 "FermionicHoppingRule(WithUpdates).transition"]

    def __init__(self, name, L, n_elec, batch=1, hop=None, pairs=None, updates=True, dtype=np.uint8):
        self.L, self.n_elec, self.batch, self.hop, self.pairs, self.updates = L, n_elec, batch, hop, pairs, updates
        specs = {"x": Int(batch, L, dtype=dtype, lo=0, hi=3), "key": Key(3)}
        if hop == "sym":
            specs["h"] = Real(positive=True, lo=0.2, hi=0.8)
        if pairs is not None:
            specs["T"] = Real(len(pairs), positive=True, lo=0.5 / L, hi=0.9 / L)
        Scenario.__init__(self, name, specs, self.call)
        self.bound = "L=%d, n_elec=%s, batch=%d, hop probability %s, %s" % (
            L, n_elec, batch, "symbolic" if hop == "sym" else ("1" if hop is None else hop),
            "no table" if pairs is None else "symbolic symmetric table on pairs %s" % (pairs,))

    def assume(self, a):
        cs = []
        x = a["x"]
        if self.n_elec is not None:
            for b in range(self.batch):
                cs += sector(x[b], self.n_elec)
        if self.hop == "sym":
            h = z3.Real("h_")
            cs += [h > 0, h < 1]
        if self.pairs is not None:
            t = [z3.Real("T_%d" % k) for k in range(len(self.pairs))]
            cs += [v > 0 for v in t]
            for i in range(self.L):
                row = [t[k] for k, p in enumerate(self.pairs) if i in p]
                if row:
                    cs.append(z3.Sum(row) < 1)
        return cs

    def derive(self, a):
        a = dict(a)
        if self.pairs is not None:
            a["T"] = table(self.L, a["T"], self.pairs)
        return a

    def call(self, x, key, h=None, T=None):
        from GPSKet.sampler.rules.fermionic_hopping import FermionicHoppingRule, FermionicHoppingRuleWithUpdates

        kw = {}
        if h is not None:
            kw["hop_probability"] = h
        elif self.hop is not None:
            kw["hop_probability"] = self.hop
        if T is not None:
            kw["transition_probs"] = T
        if self.updates:
            y, corr, sites = FermionicHoppingRuleWithUpdates(**kw).transition(None, None, None, None, key, x)
            r = {"y": y, "sites": sites}
        else:
            y, corr = FermionicHoppingRule(**kw).transition(None, None, None, None, key, x)
            r = {"y": y}
        if corr is not None:
            r["corr"] = corr
        return r

    def conc(self, arr):
        """integers of this path as Python ints"""
        arr = np.asarray(arr)
        return np.array([[int(self.interp.eng.concretise(v)) if jaxi.isz3(v) else int(v) for v in row] for row in arr])
