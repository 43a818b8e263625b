"""Autoregressive models: builders shared by C12-C14, C25."""
from functools import partial

import netket as nk
from netket.utils import HashableArray

from checks.common import *


def count_fermions(spins):
    z = jnp.zeros(spins.shape[0])
    return jnp.stack([z, spins & 1, (spins & 2) / 2, z], axis=-1).astype(jnp.int32)


@partial(jax.vmap, in_axes=(0, None, None))
def renorm_fermions(n_spins, hilbert, index):
    """allow exactly the local states from which the sector can still be reached"""
    left = jnp.array(hilbert._n_elec, jnp.int32) - n_spins[1:3]
    rest = hilbert.size - index - 1
    occ = jnp.array([[0, 0], [1, 0], [0, 1], [1, 1]])
    after = left[None, :] - occ
    ok = jnp.all((after >= 0) & (after <= rest), axis=-1)
    return jnp.where(ok, 0.0, -jnp.inf)


def spin(L, sz=None):
    return nk.hilbert.Spin(0.5, L, total_sz=sz)


def masks_plaquettes(L):
    """causal filter: site i sees sites j < i at distance i - j"""
    pl = np.array([[(i - j) % L for j in range(L)] for i in range(L)])
    mk = np.array([[1 if 0 < j <= i else 0 for j in range(L)] for i in range(L)])
    return HashableArray(pl), HashableArray(mk)


def causal_masks(L):
    pl, mk = masks_plaquettes(L)
    return dict(plaquettes=pl, masks=mk)


class ARModel:
    """applies the public methods of an AR model with flat parameters"""

    def __init__(self, model, hilbert, dtype):
        self.model, self.hilbert = model, hilbert
        ex = np.asarray(hilbert.all_states())[:1].astype(dtype)
        v = model.init(jax.random.PRNGKey(0), ex)
        p = v["params"]
        self.leaves, self.tree = jax.tree_util.tree_flatten(p)
        self.names = ["p_" + "_".join(str(getattr(k, "key", k)) for k in path)
                      for path, _ in jax.tree_util.tree_flatten_with_path(p)[0]]
        self.extra = {k: v[k] for k in v if k != "params"}
        from GPSKet.sampler import ARDirectSampler

        # the initial cache the direct sampler starts from
        self.cache0 = jax.tree_util.tree_map(np.asarray, ARDirectSampler(hilbert)._init_cache(
            model, jnp.zeros_like(ex), jax.random.PRNGKey(1)))

    def specs(self):
        return param_specs(self.names, self.leaves)

    def vars(self, a):
        return {"params": jax.tree_util.tree_unflatten(self.tree, [a[n] for n in self.names]), **self.extra}

    def logpsi(self, a, x):
        return self.model.apply(self.vars(a), x, mutable=["cache", "intermediates_cache"])[0]

    def conditionals(self, a, x):
        return self.model.apply(self.vars(a), x, method=self.model.conditionals, mutable=["cache", "intermediates_cache"])[0]

    def stepwise(self, a, x):
        """one-site conditionals queried as the direct sampler does"""
        L = x.shape[-1]
        v = self.vars(a)
        v.pop("cache", None)
        cache = self.cache0
        ps = []
        cur = jnp.zeros_like(x)
        plaq = hasattr(self.model, "plaquettes")
        for i in range(L):
            arg = (i, np.asarray(self.model.masks, np.int32)[i], np.asarray(self.model.plaquettes, np.int32)[i]) if plaq else i
            p, mut = self.model.apply({**v, **({"cache": cache} if cache else {})}, cur, arg,
                                      method=self.model._conditional, mutable=["cache"])
            cache = mut["cache"] if "cache" in mut else None
            ps.append(p)
            cur = cur.at[:, i].set(x[:, i])
        return jnp.stack(ps, axis=1)


def sector_terms(x, hilbert, spin_sz=None, n_elec=None):
    if n_elec is not None:
        return sector(list(x), n_elec)
    if spin_sz is not None:
        t = z3.BitVecVal(0, 8)
        for v in x:
            t = t + v
        return [t == int(2 * spin_sz)]
    return []


def value_terms(xs, values):
    if len(values) == max(values) - min(values) + 1:
        return []
    return [z3.Or([v == q for q in values]) for v in xs]
