"""C13: autoregressive models are normalised, causal, and amplitude == product of conditionals."""
import netket as nk

from checks.ar import *


CLASSES = {"ar": "GPSKet.models.autoreg_qGPS.ARqGPS", "full": "GPSKet.models.autoreg_qGPS_full.ARqGPSFull",
       "plaq": "GPSKet.models.autoreg_plaquetteqGPS.ARPlaquetteqGPS",
       "modphase": "GPSKet.models.autoreg_qGPS.ARqGPSModPhase", "modphasefull": "GPSKet.models.autoreg_qGPS_full.ARqGPSModPhaseFull"}


def model_functions(k):
    b = CLASSES[k]
    mod = b.rsplit(".", 1)[0]
    return [b + "." + m for m in ("__call__", "conditionals", "_conditional")] + [
        mod + "._compute_conditional", "GPSKet.models.autoreg_qGPS._normalize", "GPSKet.models.autoreg_qGPS.gpu_cond"]


def make_model(kind, h, M, **kw):
    from GPSKet.models import ARqGPS, ARqGPSFull, ARPlaquetteqGPS, ARqGPSModPhase, ARqGPSModPhaseFull

    if kind == "ar":
        return ARqGPS(h, M, **kw)
    if kind == "full":
        return ARqGPSFull(h, M, **kw)
    if kind == "plaq":
        return ARPlaquetteqGPS(h, M, **causal_masks(h.size), **kw)
    if kind == "modphase":
        return ARqGPSModPhase(h, M, **kw)
    return ARqGPSModPhaseFull(h, M, apply_fast_update=False, **kw)


def cond_scenario(model, h, dtype, values, spin_sz=None, n_elec=None, functions=(), amplitude=True, stepwise=True):
    am = ARModel(model, h, dtype)
    pw = model.machine_pow
    L = h.size
    D = len(values)
    specs = dict(am.specs())
    specs["x"] = Int(1, L, dtype=dtype, lo=min(values), hi=max(values))
    specs["y"] = Int(1, L, dtype=dtype, lo=min(values), hi=max(values))
    specs["cut"] = Int(dtype=np.int64, lo=0, hi=L - 1)
    if L > 3:
        specs["cut"] = Const(np.int64(L // 2))

    def fn(**a):
        x, y, cut = a["x"], a["y"], a["cut"]
        # agrees with x on the sites before `cut`, with y from `cut` on
        mix = jnp.where(jnp.arange(L)[None, :] < cut, x, y)
        r = {"cond": am.conditionals(a, x), "mix": am.conditionals(a, mix)}
        if amplitude:
            r["logpsi"] = am.logpsi(a, x)
        if stepwise:
            r["step"] = am.stepwise(a, x)
        return r

    def assume(a):
        cs = []
        for q in ("x", "y"):
            cs += value_terms(a[q][0], values)
            cs += sector_terms(a[q][0], h, spin_sz, n_elec)
        # identical configurations on the context: only y's tail varies
        cut = np.asarray(a["cut"])[()]
        for i in range(L):
            if jaxi.isz3(cut):
                cs.append(z3.Implies(cut > i, a["y"][0][i] == a["x"][0][i]))
            elif i < int(cut):
                cs.append(a["y"][0][i] == a["x"][0][i])
        return cs

    def relation(o, a):
        x = np.asarray(a["x"])
        cut = int(np.asarray(a["cut"])[()])
        res = []
        c = o["cond"]
        for i in range(L):
            tot = c[0, i, 0]
            for d in range(1, D):
                tot = tot + c[0, i, d]
            res.append(("conditional of site %d sums to one" % i, tot, 1.0))
        for i in range(cut + 1):
            res.append(("conditional of site %d ignores later sites" % i, c[0, i], o["mix"][0, i]))
        if stepwise:
            res.append(("one-site conditionals agree", o["step"][0], c[0]))
        if amplitude:
            idx = [list(values).index(int(v)) for v in x[0]]
            p = c[0, 0, idx[0]]
            for i in range(1, L):
                p = p * c[0, i, idx[i]]
            lp = o["logpsi"][0]
            if isinstance(lp, poly.Expr):
                sq = poly.exp(poly.real(lp) * pw)
            else:
                sq = np.exp(pw * np.real(lp))
            res.append(("%s amplitude is the product of the conditionals" % ("squared" if pw == 2 else "power %d of the" % pw), sq, p))
        return res

    return Scenario("ar", specs, fn, relation, assume, functions=list(functions),
                    bound="L=%d, %d local states, all sector configurations, all alternative tails; parameters symbolic" % (L, D))


def norm_scenario(model, h, dtype, functions=()):
    """sum over the whole Hilbert space of the squared amplitude"""
    am = ARModel(model, h, dtype)
    pw = model.machine_pow
    states = np.asarray(h.all_states()).astype(dtype)
    specs = dict(am.specs())

    def fn(**a):
        return am.logpsi(a, jnp.asarray(states))

    def relation(o, a):
        tot = 0
        for lp in np.asarray(o).reshape(-1):
            tot = tot + (poly.exp(poly.real(lp) * pw) if isinstance(lp, poly.Expr) else np.exp(pw * np.real(lp)))
        return [("norm (exponent %d)" % pw, tot, 1.0)]

    return Scenario("norm", specs, fn, relation, functions=list(functions),
                    bound="L=%d, all %d configurations of the space summed; parameters symbolic" % (h.size, len(states)))


def scenarios(tier):
    from GPSKet.models.qGPS import get_sym_transformation_spin
    from GPSKet.hilbert import FermionicDiscreteHilbert

    out = []
    C, R = jnp.complex128, jnp.float64
    SV = (-1, 1)
    FV = (0, 1, 2, 3)
    def sp(name, kind, L, M, sz=None, **kw):
        out.append((name, lambda: cond_scenario(make_model(kind, spin(L, sz), M, **kw), spin(L, sz), np.int8, SV, spin_sz=sz,
                                                functions=model_functions(kind))))

    def fe(name, kind, L, n, M, **kw):
        h = FermionicDiscreteHilbert(L, n_elec=n)
        out.append((name, lambda: cond_scenario(
            make_model(kind, h, M, count_spins=count_fermions, renormalize_log_psi=renorm_fermions, **kw), h, np.uint8, FV,
            n_elec=n, functions=model_functions(kind))))

    def norm(name, kind, h, dt, M, **kw):
        out.append((name, lambda: norm_scenario(make_model(kind, h, M, **kw), h, dt, model_functions(kind))))

    for kind in ("ar", "full", "plaq"):
        sp("%s_spin_L4_free" % kind, kind, 4, 2 if kind == "ar" else 1, dtype=C)
        sp("%s_spin_L4_sz0" % kind, kind, 4, 2, sz=0, dtype=C)
        sp("%s_spin_L2_sz0" % kind, kind, 2, 2, sz=0, dtype=R)
        fe("%s_fermion_L3_n11" % kind, kind, 3, (1, 1), 1, dtype=R)
    sp("full_persite_L4_sz0", "full", 4, HashableArray(np.array([1, 2, 1, 2])), sz=0, dtype=C)
    sp("modphase_L4_sz0", "modphase", 4, 1, sz=0, dtype=R)
    sp("modphasefull_L4_sz0", "modphasefull", 4, 1, sz=0, dtype=R)
    fe("full_fermion_L3_n21", "full", 3, (2, 1), 2, dtype=C)
    norm("norm_ar_L4_sz0", "ar", spin(4, 0), np.int8, 1, dtype=C)
    norm("norm_full_L4_sz0", "full", spin(4, 0), np.int8, 1, dtype=C)
    norm("norm_plaq_L4_sz0", "plaq", spin(4, 0), np.int8, 1, dtype=R)
    tr = lambda L: get_sym_transformation_spin(nk.graph.Chain(L), True, True)
    norm("norm_full_L2_sym", "full", spin(2, 0), np.int8, 1, dtype=R, apply_symmetries=tr(2))
    norm("norm_ar_L4_sz0_sym", "ar", spin(4, 0), np.int8, 1, dtype=R, apply_symmetries=tr(4)[0])
    for kind in ("ar", "full", "plaq"):
        sp("%s_spin_L3_pow1" % kind, kind, 3, 1, dtype=C, machine_pow=1)
        norm("norm_%s_L2_sym_pow1" % kind, kind, spin(2, 0), np.int8, 1, dtype=R, machine_pow=1,
             apply_symmetries=tr(2) if kind == "full" else tr(2)[0])
    norm("norm_plaq_L4_sz0_sym", "plaq", spin(4, 0), np.int8, 1, dtype=R, apply_symmetries=tr(4)[0])
    if tier == "thorough":
        norm("norm_full_L4_free", "full", spin(4), np.int8, 1, dtype=R)
        norm("norm_ar_L4_free", "ar", spin(4), np.int8, 1, dtype=R)
        for kind in ("ar", "full", "plaq"):
            sp("%s_spin_L6_sz0" % kind, kind, 6, 1, sz=0, dtype=R)
            fe("%s_fermion_L4_n21" % kind, kind, 4, (2, 1), 1, dtype=R)
    return out
