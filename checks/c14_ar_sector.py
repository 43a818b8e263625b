"""C14: autoregressive models put weight exactly on the configurations of their Hilbert space."""
from checks.ar import *
from checks.c13_ar_normalised import make_model, model_functions


def completable(prefix, L, spin_sz, n_elec):
    """can the prefix be extended to a configuration of the sector?"""
    rest = L - len(prefix)
    if n_elec is not None:
        for b, n in ((0, n_elec[0]), (1, n_elec[1])):
            k = sum((v >> b) & 1 for v in prefix)
            if not (k <= n <= k + rest):
                return False
        return True
    if spin_sz is not None:
        s = sum(prefix)
        t = int(2 * spin_sz)
        return abs(t - s) <= rest and (t - s - rest) % 2 == 0
    return True


def scenario(kind, model, h, dtype, values, spin_sz=None, n_elec=None, outside=False):
    am = ARModel(model, h, dtype)
    L = h.size
    specs = dict(am.specs())
    specs["x"] = Int(1, L, dtype=dtype, lo=min(values), hi=max(values))

    def fn(**a):
        r = {"cond": am.conditionals(a, a["x"]), "logpsi": am.logpsi(a, a["x"])}
        if not outside:
            r["step"] = am.stepwise(a, a["x"])
        return r

    def assume(a):
        cs = value_terms(a["x"][0], values)
        s = sector_terms(a["x"][0], h, spin_sz, n_elec)
        if outside:
            cs.append(z3.Not(z3.And(s)))
        else:
            cs += s
        return cs

    def relation(o, a):
        x = [int(v) for v in np.asarray(a["x"])[0]]
        res = []
        if outside:
            return [("amplitude outside the sector vanishes", o["logpsi"][0], -np.inf, "log")]
        for which in ("cond", "step"):
            for i in range(L):
                for d, v in enumerate(values):
                    q = o[which][0, i, d]
                    if completable(x[:i] + [v], L, spin_sz, n_elec):
                        res.append(("reachable local state has weight (%s, site %d)" % (which, i), q, 0, "pos"))
                    else:
                        res.append(("unreachable local state has no weight (%s, site %d)" % (which, i), q, 0))
        lp = o["logpsi"][0]
        res.append(("amplitude inside the sector is non-zero",
                    poly.exp(poly.real(lp) * 2) if isinstance(lp, poly.Expr) else np.exp(2 * np.real(lp)), 0, "pos"))
        return res

    return Scenario("sector", specs, fn, relation, assume, functions=model_functions(kind),
                    bound="L=%d, local states %s, all configurations %s the sector; parameters symbolic" % (
                        L, list(values), "outside" if outside else "inside"))


def scenarios(tier):
    from GPSKet.hilbert import FermionicDiscreteHilbert

    out = []
    C, R = jnp.complex128, jnp.float64
    SV, FV = (-1, 1), (0, 1, 2, 3)

    def sp(name, kind, L, M, sz=None, outside=False, **kw):
        out.append((name, lambda: scenario(kind, make_model(kind, spin(L, sz), M, **kw), spin(L, sz), np.int8, SV,
                                           spin_sz=sz, outside=outside)))

    def fe(name, kind, L, n, M, **kw):
        h = FermionicDiscreteHilbert(L, n_elec=n)
        out.append((name, lambda: scenario(kind, make_model(
            kind, h, M, count_spins=count_fermions, renormalize_log_psi=renorm_fermions, **kw), h, np.uint8, FV, n_elec=n)))

    for kind in ("ar", "full", "plaq"):
        for L in (2, 3, 4):
            sp("%s_free_L%d" % (kind, L), kind, L, 1, dtype=R)
        sp("%s_sz0_L4" % kind, kind, 4, 1, sz=0, dtype=C)
        sp("%s_sz0_L6" % kind, kind, 6, 1, sz=0, dtype=R)
        sp("%s_sz0_L4_outside" % kind, kind, 4, 1, sz=0, outside=True, dtype=R)
        fe("%s_fermion_L3_n21" % kind, kind, 3, (2, 1), 1, dtype=R)
    sp("modphase_sz0_L4", "modphase", 4, 1, sz=0, dtype=R)
    sp("modphasefull_sz0_L4", "modphasefull", 4, 1, sz=0, dtype=R)
    if tier == "thorough":
        for kind in ("ar", "full", "plaq"):
            sp("%s_sz0_L8" % kind, kind, 8, 1, sz=0, dtype=R)
            sp("%s_free_L5" % kind, kind, 5, 1, dtype=R)
            fe("%s_fermion_L4_n22" % kind, kind, 4, (2, 2), 1, dtype=R)
    return out
