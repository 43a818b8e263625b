"""Generic scenario: amplitude through a cached update == amplitude from scratch."""
from checks.common import *


def update_scenario(model, hilbert, K=2, chain=0, batch=1, spin=False, n_elec=None, values=None, distinct=False,
                    fix_sites=None, mixed_double=False, same_sector=None, functions=(), hops=False, pre=None, mode="log",
                    real_dtype=None, max_paths=60000, site_range=None, fix_x=None, spin_sz=None):
    """x: symbolic old configuration, per update symbolic sites and occupancies.

    Repeated sites follow the documented protocol: the first occurrence carries
    the new occupancy, later ones the old occupancy (neutral)."""
    L = hilbert.size
    dt = np.int8 if spin else np.uint8
    if values is None:
        values = (-1, 1) if spin else (0, 1, 2, 3)
    lo, hi = min(values), max(values)
    nst = chain + 1
    ex = np.full((batch, L), values[0], dtype=dt)
    if n_elec is not None:
        ex[:, :] = 0
        for b in range(batch):
            for i in range(n_elec[0]):
                ex[b, i] += 1
            for i in range(n_elec[1]):
                ex[b, i] += 2
    if spin_sz is not None:
        ex[:, : L // 2 + int(spin_sz)] = 1
    names, leaves, tree, extra = flat_params(model, ex)
    specs = dict(param_specs(names, leaves))
    specs["x"] = Int(batch, L, dtype=dt, lo=lo, hi=hi)
    for s in range(nst):
        specs["occ%d" % s] = Int(batch, K, dtype=dt, lo=lo, hi=hi)
        if fix_sites is not None:
            specs["sites%d" % s] = Const(np.array([fix_sites] * batch, dtype=np.int64))
        else:
            specs["sites%d" % s] = Int(batch, K, dtype=np.int64, lo=0, hi=L - 1)

    def fn(**a):
        pars = {"params": jax.tree_util.tree_unflatten(tree, [a[n] for n in names]), **extra}
        x = a["x"]
        lp0, c = model.apply(pars, x, cache_intermediates=True, mutable="intermediates_cache")
        res = [(lp0, model.apply(pars, x))]
        cur = x
        for s in range(nst):
            occ, sites = a["occ%d" % s], a["sites%d" % s]
            plain = model.apply({**pars, **c}, occ, update_sites=sites)
            lp, c = model.apply({**pars, **c}, occ, cache_intermediates=True, update_sites=sites,
                                mutable="intermediates_cache")
            cur = apply_updates(cur, occ, sites)
            full = model.apply(pars, cur)
            res.append((plain, full))
            res.append((lp, full))
        return res

    def assume(a):
        cs = []
        x = a["x"]
        for b in range(batch):
            xs = list(x[b])
            if len(values) != hi - lo + 1:
                for v in xs:
                    cs.append(z3.Or([v == q for q in values]))
            if n_elec is not None:
                cs += sector(xs, n_elec)
            if spin_sz is not None:
                cs.append(spin_sum(xs) == int(2 * spin_sz))
            if fix_x is not None:
                cs += [xs[i] == int(fix_x[b][i]) for i in range(L)]
            cur = xs
            for s in range(nst):
                sites, occ = a["sites%d" % s][b], a["occ%d" % s][b]
                symsites = [z3.BitVecVal(int(t), 64) if not jaxi.isz3(t) else t for t in sites]
                if len(values) != hi - lo + 1:
                    for v in occ:
                        cs.append(z3.Or([v == q for q in values]))
                if distinct:
                    cs.append(z3.Distinct(*symsites) if K > 1 else z3.BoolVal(True))
                for k in range(K):
                    cs.append(z3.Implies(first_entry(symsites, k), occ[k] == sel(cur, symsites[k])))
                if mixed_double:
                    # up hop i->a then down hop j->b, as produced by a double excitation
                    cs += [symsites[0] != symsites[1], symsites[2] != symsites[3]]
                new = []
                for i in range(L):
                    e = cur[i]
                    for k in range(K - 1, -1, -1):
                        e = z3.If(symsites[k] == i, occ[k], e)
                    new.append(e)
                cur = new
                if n_elec is not None:
                    cs += sector(cur, n_elec)
                if spin_sz is not None:
                    cs.append(spin_sum(cur) == int(2 * spin_sz))
                if site_range is not None:
                    for k in range(K):
                        cs.append(symsites[k] <= site_range)
        return cs

    def relation(outs, a):
        r = []
        for i, (l, f) in enumerate(outs):
            r.append(("cached value" if i == 0 else ("update %d%s" % ((i + 1) // 2, "" if i % 2 else " (caching)")), l, f, mode))
        return r

    return Scenario("update", specs, fn, relation, assume, functions=list(functions), max_paths=max_paths,
                    bound="L=%d, local states=%s, batch=%d, %d update sites, chain of %d updates%s; parameters symbolic" % (
                        L, list(values), batch, K, nst, ", sector %s" % (n_elec,) if n_elec is not None else (", 2Sz=%d" % (2 * spin_sz) if spin_sz is not None else "")))
