"""Helpers shared by the checks (public API of GPSKet / netket only)."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import z3

from symx import jaxi, poly
from symx.harness import Scenario, Real, Cplx, Int, Const, Key
from symx.poly import Expr


def apply_updates(x, occ, sites):
    """new configuration: entries of occ written at sites, the first listed
    occurrence of a site wins (reference semantics of the update protocol)"""
    for k in range(sites.shape[-1] - 1, -1, -1):
        x = jax.vmap(lambda c, s, o: c.at[s].set(o))(x, sites[:, k], occ[:, k].astype(x.dtype))
    return x


def bvsum_pop(xs, bit):
    """number of entries of xs with the given occupation bit, as a 8-bit term"""
    t = z3.BitVecVal(0, 8)
    for v in xs:
        w = v.size()
        b = z3.Extract(0, 0, z3.LShR(v, bit))
        t = t + z3.ZeroExt(7, b)
    return t


def sector(xs, n_elec):
    """constraints: occupation string xs has n_elec = (up, down) electrons"""
    return [bvsum_pop(xs, 0) == n_elec[0], bvsum_pop(xs, 1) == n_elec[1]]


def spin_sum(xs):
    """sum of +-1 entries as an 8-bit term"""
    t = z3.BitVecVal(0, 8)
    for v in xs:
        t = t + v
    return t


def first_entry(sites, k):
    """conditions under which entry k repeats an earlier listed site"""
    return z3.Or([sites[k] == sites[j] for j in range(k)]) if k else z3.BoolVal(False)


def sel(xs, site):
    """xs[site] as an ite chain"""
    r = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
        r = z3.If(site == i, xs[i], r)
    return r


def params_shapes(model, x):
    v = jax.eval_shape(lambda: model.init(jax.random.PRNGKey(0), x))
    return jax.tree_util.tree_map(lambda s: (s.shape, s.dtype), v)


def flat_params(model, x):
    """names, shapes, dtypes and treedef of a model's parameters"""
    v = model.init(jax.random.PRNGKey(0), x)
    p = v["params"]
    extra = {k: v[k] for k in v if k != "params"}
    leaves, tree = jax.tree_util.tree_flatten(p)
    names = []
    for path, _ in jax.tree_util.tree_flatten_with_path(p)[0]:
        names.append("p_" + "_".join(str(getattr(k, "key", k)) for k in path))
    return names, leaves, tree, extra


def param_specs(names, leaves):
    return {n: (Cplx(*l.shape) if jnp.issubdtype(l.dtype, jnp.complexfloating) else Real(*l.shape, dtype=l.dtype))
            for n, l in zip(names, leaves)}
