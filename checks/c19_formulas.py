"""C19: model amplitudes equal their defining formulas.

Each model is evaluated on a symbolic configuration with symbolic parameters (real jaxpr); the reference is the textbook
formula written out over the same parameters (Leibniz determinant, Pfaffian expansion, products and sums)."""
import math

import netket as nk
from flax import linen as nn
from netket.utils import HashableArray

from checks.common import *

C, R = jnp.complex128, jnp.float64


def parity(p):
    p, s = list(p), 1
    for i in range(len(p)):
        for j in range(i + 1, len(p)):
            if p[i] > p[j]:
                s = -s
    return s


def det(m):
    """Leibniz"""
    n = len(m)
    t = 0
    for p in itertools.permutations(range(n)):
        q = parity(p)
        for i in range(n):
            q = q * m[i][p[i]]
        t = t + q
    return t


def pfaffian(m):
    n = len(m)
    if n == 0:
        return 1
    t = 0
    for j in range(1, n):
        keep = [k for k in range(n) if k not in (0, j)]
        t = t + (-1) ** (j - 1) * m[0][j] * pfaffian([[m[a][b] for b in keep] for a in keep])
    return t


def electrons(x):
    """sites of the up electrons, sites of the down electrons, in site order"""
    return [i for i, v in enumerate(x) if v & 1], [i for i, v in enumerate(x) if v & 2]


def fexp(v):
    return poly.exp(v) if isinstance(v, Expr) else np.exp(v)


def fsinh(v):
    return (fexp(v) - fexp(-1 * v)) * (poly.ONE / 2 if isinstance(v, Expr) else 0.5)


def amplitude(log):
    """amplitudes of an array of log-amplitudes"""
    log = np.asarray(log)
    if log.dtype == object:
        return jaxi.ew(lambda v: poly.exp(v), log)
    with np.errstate(all="ignore"):
        log = log.astype(complex)
        return np.where(np.isneginf(log.real), 0, np.exp(log))


def cs_half(angle, like):
    """cosine and sine of half an angle, exact if the parameters are symbolic"""
    if not isinstance(like, Expr):
        return math.cos(angle / 2), math.sin(angle / 2)
    e, f = poly.exp(Expr.const(angle / 2) * poly.I), poly.exp(Expr.const(-angle / 2) * poly.I)
    return (e + f) / 2, (e - f) / (2 * poly.I)


class Formula(Scenario):
    resolve = True
    """model.apply on x compared with ref(params, x)"""

    def __init__(self, name, model, ref, L, n_elec=None, values=(0, 1, 2, 3), dtype=np.uint8, batch=1, sz2=None, ex=None,
                 functions=(), first_quantised=None, fix=None):
        self.model, self.ref, self.L, self.n_elec, self.values, self.batch, self.sz2 = model, ref, L, n_elec, values, batch, sz2
        self.fq, self.fix = first_quantised, fix
        if ex is None:
            ex = np.full((batch, L), values[0], dtype=dtype)
            if n_elec is not None:
                ex[:] = 0
                for i in range(n_elec[0]):
                    ex[:, i] += 1
                for i in range(n_elec[1]):
                    ex[:, i] += 2
        self.names, leaves, self.tree, self.others = flat_params(model, ex)
        specs = dict(param_specs(self.names, leaves))
        specs["x"] = Int(batch, ex.shape[1], dtype=dtype, lo=min(values), hi=max(values))
        Scenario.__init__(self, name, specs, self.call)
        self.functions = list(functions)
        self.bound = "L=%d, %s, batch %d, all parameters" % (
            L, "n_elec=%s" % (n_elec,) if n_elec is not None else "local states %s%s" % (list(values), "" if sz2 is None else ", 2Sz=%d" % sz2), batch)

    def assume(self, a):
        cs = []
        for r in a["x"]:
            if self.n_elec is not None and not self.fq:
                cs += sector(list(r), self.n_elec)
            if len(self.values) != max(self.values) - min(self.values) + 1:
                cs += [z3.Or([v == q for q in self.values]) for v in r]
            if self.sz2 is not None:
                cs.append(spin_sum(list(r)) == self.sz2)
            if self.fq:
                up, dn = self.fq
                for i in range(len(r) - 1):
                    if i + 1 != up or dn is None:
                        cs.append(r[i] < r[i + 1])
                if dn is not None:
                    cs += [r[i] < self.L if i < up else z3.UGE(r[i], self.L) for i in range(len(r))]
            if self.fix is not None:
                cs += [r[i] == int(self.fix[i]) for i in range(len(self.fix))]
        return cs

    def pars(self, a):
        return {"params": jax.tree_util.tree_unflatten(self.tree, [a[n] for n in self.names]), **self.others}

    def call(self, x, **a):
        return self.model.apply(self.pars(a), x)

    def relation(self, o, a):
        x = np.asarray(a["x"])
        p = {n: a[n] for n in self.names}
        if x.dtype == object:
            raise poly.Unsupported("configuration not resolved")
        o = np.asarray(o)
        if o.shape != (self.batch,):
            return [("shape of the log-amplitudes", False)]
        want = np.empty(self.batch, dtype=object)
        for b in range(self.batch):
            want[b] = self.ref(p, [int(v) for v in x[b]])
        if o.dtype != object:
            want = want.astype(complex)
        return [("amplitude", amplitude(o), want)]


class ARFormula(Scenario):
    """autoregressive model compared with the normalised product of its local amplitudes (exponent p)

    `local(par, x, i)` lists the log-amplitudes of the local states of site i after x[:i]; None marks an excluded state."""
    resolve = True

    def __init__(self, name, model, h, local, L, values=(-1, 1), dtype=np.int8, sz2=None, n_elec=None, p=2, copies=None, phase=None,
                 normalize=True, batch=1, functions=()):
        from checks.ar import ARModel

        self.am, self.local, self.L, self.values, self.p, self.copies, self.phase = ARModel(model, h, dtype), local, L, values, p, copies, phase
        self.sz2, self.n_elec, self.normalize, self.batch = sz2, n_elec, normalize, batch
        specs = dict(self.am.specs())
        specs["x"] = Int(batch, L, dtype=dtype, lo=min(values), hi=max(values))
        Scenario.__init__(self, name, specs, lambda x, **a: self.am.logpsi(a, x))
        self.functions = list(functions)
        self.bound = "L=%d, %s, exponent %d, batch %d%s, all parameters" % (
            L, "n_elec=%s" % (n_elec,) if n_elec else "local states %s%s" % (list(values), "" if sz2 is None else ", 2Sz=%d" % sz2), p, batch,
            "" if copies is None else ", symmetrised")

    def assume(self, a):
        cs = []
        for r in a["x"]:
            if self.n_elec is not None:
                cs += sector(list(r), self.n_elec)
            if len(self.values) != max(self.values) - min(self.values) + 1:
                cs += [z3.Or([v == q for q in self.values]) for v in r]
            if self.sz2 is not None:
                cs.append(spin_sum(list(r)) == self.sz2)
        return cs

    def relation(self, o, a):
        x = np.asarray(a["x"])
        par = {n: a[n] for n in self.am.names}
        if x.dtype == object:
            raise poly.Unsupported("configuration not resolved")
        o = np.asarray(o)
        if o.shape != (self.batch,):
            return [("shape of the log-amplitudes", False)]
        rel = []
        re = lambda v: poly.real(v) if isinstance(v, Expr) else np.real(v)
        im = lambda v: poly.imag(v) if isinstance(v, Expr) else np.imag(v)
        for b in range(self.batch):
            xb = [int(v) for v in x[b]]
            mods, phis = 0, 0
            copies = self.copies(xb) if self.copies else [xb]
            for y in copies:
                num, den, phi = 0, 1, 0
                for i in range(self.L):
                    s = self.local(par, y, i)
                    own = s[self.values.index(y[i])]
                    num = num + re(own)
                    phi = phi + im(own)
                    if self.normalize:
                        den = den * sum(fexp(re(v) * self.p) for v in s if v is not None)
                mods = mods + fexp(num * self.p) / den
                phis = phi if len(copies) == 1 else phis + fexp(phi * (poly.I if isinstance(phi, Expr) else 1j))
            lo = o[b]
            rel.append(("modulus", fexp(re(lo) * self.p) * len(copies), mods))
            unit = lambda v: fexp(v * (poly.I if isinstance(v, Expr) else 1j))
            if self.phase is not None:
                phis = phis + self.phase(par, xb)
            if len(copies) == 1:
                rel.append(("phase", unit(im(lo)), unit(phis)))
        return rel


def build(tier):
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet import models as mo
    from GPSKet.models.pfaffian import PfaffianState, ZeroMagnetizationPfaffian

    S = []

    def add(name, f, *k, **kw):
        S.append((name, lambda: Formula(name, f() if callable(f) and not isinstance(f, nn.Module) else f, *k, **kw)))

    def H(L, n=None):
        return FermionicDiscreteHilbert(L, n_elec=n)

    def shifts(L):
        return lambda y: jnp.stack([(y + k) % L for k in range(L)], axis=-1)

    def cyc(L):
        """copies of an occupation string (last axis: symmetry)"""
        return lambda x: jnp.stack([jnp.roll(x, k, axis=-1) for k in range(L)], axis=-1)

    # ------------------------------------------------------------ Slater determinants
    SL = ["GPSKet.models.slater.Slater.__call__", "GPSKet.models.slater.occupancies_to_electrons"]

    def orb(p, m, L, n, shared=False, general=False, pre="p_", angle=None):
        """full matrix of orbitals, rows (site up, site down)"""
        N = n[0] + n[1]
        if general:
            return [[p[pre + "U"][m, i, j] for j in range(N)] for i in range(2 * L)]
        up, dn = p[pre + "U_up"], p[pre + ("U_up" if shared else "U_down")]
        c, s = (1, 0) if angle is None else cs_half(angle, up[m, 0, 0])
        M = [[0] * N for _ in range(2 * L)]
        for i in range(L):
            for j in range(n[0]):
                M[i][j] = up[m, i, j] * c
                M[L + i][j] = up[m, i, j] * s
            for j in range(n[1]):
                M[i][n[0] + j] = dn[m, i, j] * (-s)
                M[L + i][n[0] + j] = dn[m, i, j] * c
        return M

    def slater_terms(p, x, L, n, M=1, shared=False, general=False, sym=False, S2=None, pre="p_"):
        """{(m, s, t): weighted determinant}"""
        out = {}
        up, dn = electrons(x)
        for m in range(M):
            for s, (ang, w) in enumerate(S2 or [(None, 1)]):
                U = orb(p, m, L, n, shared, general, pre, ang)
                for t in range(L if sym else 1):
                    rows = [(i + t) % L for i in up] + [L + (i + t) % L for i in dn]
                    out[m, s, t] = det([U[r] for r in rows]) * w
        return out

    def slater_ref(L, n, **kw):
        return lambda p, x: sum(slater_terms(p, x, L, n, **kw).values())

    def slater(name, L, n, dtype=C, batch=1, sym=False, S2=None, M=1, shared=False, general=False):
        kw = dict(n_determinants=M, dtype=dtype, spin_symmetry_by_structure=shared, fixed_magnetization=not general,
                  init_fun=jax.nn.initializers.normal())
        if sym:
            kw["symmetries"] = shifts(L)
        if S2:
            kw["S2_projection"] = (HashableArray(np.array([a for a, _ in S2])), HashableArray(np.array([w for _, w in S2])))
        add(name, lambda: mo.Slater(H(L, n), **kw), slater_ref(L, n, M=M, shared=shared, general=general, sym=sym, S2=S2),
            L, n_elec=n, batch=batch, functions=SL)

    slater("slater_L3_n21", 3, (2, 1))
    slater("slater_L3_n22_shared", 3, (2, 2), shared=True)
    slater("slater_L4_n31_real", 4, (3, 1), dtype=R)
    slater("slater_L3_n21_general", 3, (2, 1), general=True, dtype=R)
    slater("slater_L2_n11_multi_general", 2, (1, 1), general=True, M=2)
    slater("slater_L3_n21_multi_sym", 3, (2, 1), M=2, sym=True, dtype=R)
    slater("slater_L2_n11_S2", 2, (1, 1), S2=[(0.5, 0.75), (1.25, 0.5)], dtype=R)
    slater("slater_L2_n11_batch2", 2, (1, 1), batch=2)
    slater("slater_L3_n20", 3, (2, 0), dtype=R)
    slater("slater_L3_n12", 3, (1, 2))
    slater("slater_L3_n12_general_batch2", 3, (1, 2), general=True, dtype=R, batch=2)
    slater("slater_L3_n02_general", 3, (0, 2), general=True, dtype=R)
    slater("slater_L2_n11_multi_general_sym", 2, (1, 1), general=True, M=2, sym=True, dtype=R)
    slater("slater_L3_n22_multi_shared_sym", 3, (2, 2), shared=True, M=2, sym=True, dtype=R)
    if tier != "quick":
        slater("slater_L4_n22_general", 4, (2, 2), general=True, dtype=R)
        slater("slater_L4_n22_S2", 3, (2, 1), S2=[(0.5, 0.75), (1.25, 0.5)], dtype=R)
        slater("slater_L5_n32", 5, (3, 2), dtype=R)

    # ------------------------------------------------------------ antisymmetric qGPS
    AS = ["GPSKet.models.asymm_qGPS.ASymmqGPS.__call__", "GPSKet.models.asymm_qGPS.ASymmqGPSProd.__call__"] + SL

    def asymm(name, L, n, M=1, sym=False, mode="kernel", coeffs=None, shared=False):
        cs = coeffs or [1.0] * M
        kw = dict(n_determinants=M, dtype=R, spin_symmetry_by_structure=shared)
        if sym:
            kw["apply_symmetries"] = shifts(L)

        def ref(p, x):
            t = slater_terms(p, x, L, n, M=M, shared=shared, sym=sym, pre="p_Slater_0_")
            T = L if sym else 1
            if mode == "prod":
                tot = 0
                for k in range(T):
                    q = 1
                    for m in range(M):
                        q = q * fsinh(t[m, 0, k])
                    tot = tot + q
                return tot
            lin = [sum(t[m, 0, k] * cs[m] for m in range(M)) for k in range(T)]
            return fsinh(sum(lin)) if mode == "kernel" else sum(fsinh(v) for v in lin)
        if mode == "prod":
            f = lambda: mo.ASymmqGPSProd(H(L, n), **kw)
        else:
            f = lambda: mo.ASymmqGPS(H(L, n), coeffs=HashableArray(np.array(cs)), symmetrization=mode, **kw)
        add(name, f, ref, L, n_elec=n, functions=AS)

    asymm("asymm_L2_n11", 2, (1, 1))
    asymm("asymm_L3_n11_kernel_sym", 3, (1, 1), sym=True)
    asymm("asymm_L2_n11_kernel_M2", 2, (1, 1), M=2, coeffs=[0.5, -2.0])
    asymm("asymm_L2_n11_projective_M2_sym", 2, (1, 1), M=2, sym=True, mode="projective", coeffs=[1.0, 0.5])
    asymm("asymm_L3_n11_projective_M2_sym", 3, (1, 1), M=2, sym=True, mode="projective", coeffs=[1.0, 0.5])
    asymm("asymm_L2_n11_prod_M3_sym", 2, (1, 1), M=3, sym=True, mode="prod")
    asymm("asymm_L2_n11_prod_shared", 2, (1, 1), M=1, mode="prod", shared=True)
    asymm("asymm_L3_n21_kernel_M2", 3, (2, 1), M=2, coeffs=[0.5, -2.0])
    asymm("asymm_L3_n12_prod_M3", 3, (1, 2), M=3, mode="prod")

    # ------------------------------------------------------------ Jastrow and products
    JA = ["GPSKet.models.jastrow.Jastrow.__call__", "GPSKet.models.jastrow.up_down_occupancies"]

    def jastrow_log(p, x, key, L, T=1):
        K = p[key]
        tot = 0
        for t in range(T):
            y = [x[(i - t) % L] for i in range(L)]
            for i in range(L):
                for j in range(L):
                    if not (y[i] & 1) and not (y[j] & 2):
                        tot = tot + K[i, j] + K[j, i]
        return tot if isinstance(tot, Expr) or not isinstance(tot, int) else tot * 1.0

    def E(v):
        return fexp(v) if not isinstance(v, float) else math.exp(v)

    def jastrow(name, L, n=None, dtype=C, batch=1, sym=False):
        kw = dict(apply_symmetries=cyc(L)) if sym else {}
        add(name, lambda: mo.Jastrow(H(L, n), dtype=dtype, **kw), lambda p, x: E(jastrow_log(p, x, "p_kernel", L, L if sym else 1)),
            L, n_elec=n, batch=batch, functions=JA)

    jastrow("jastrow_L3", 3)
    jastrow("jastrow_L3_real_sym", 3, dtype=R, sym=True)
    jastrow("jastrow_L2_batch2", 2, batch=2)
    jastrow("jastrow_L3_n12", 3, (1, 2))
    jastrow("jastrow_L2_sym_batch2", 2, batch=2, sym=True)

    def slater_jastrow(name, L, n, M=1, shared=True, general=False, ssym=False, jsym=False, dtype=R):
        kw = dict(n_determinants=M, dtype=dtype, spin_symmetry_by_structure=shared, fixed_magnetization=not general)
        if ssym:
            kw["slater_apply_symmetries"] = shifts(L)
        if jsym:
            kw["jastrow_apply_symmetries"] = cyc(L)
        add(name, lambda: mo.SlaterJastrow(H(L, n), **kw),
            lambda p, x: sum(slater_terms(p, x, L, n, M=M, shared=shared, general=general, sym=ssym, pre="p_Slater_0_").values())
            * E(jastrow_log(p, x, "p_Jastrow_0_kernel", L, L if jsym else 1)),
            L, n_elec=n, functions=["GPSKet.models.slater_jastrow.SlaterJastrow.__call__"] + SL + JA)

    slater_jastrow("slaterjastrow_L3_n11", 3, (1, 1))
    slater_jastrow("slaterjastrow_L3_n21_unrestricted", 3, (2, 1), shared=False, jsym=True)
    slater_jastrow("slaterjastrow_L2_n11_multi_sym", 2, (1, 1), M=2, ssym=True, dtype=C)
    slater_jastrow("slaterjastrow_L2_n11_general", 2, (1, 1), shared=False, general=True)
    slater_jastrow("slaterjastrow_L3_n12_general", 3, (1, 2), shared=False, general=True)
    slater_jastrow("slaterjastrow_L2_n11_both_sym", 2, (1, 1), shared=False, ssym=True, jsym=True)

    # ------------------------------------------------------------ qGPS
    QG = ["GPSKet.models.qGPS.qGPS.__call__"]

    def support_sum(e, d, L, M):
        tot = 0
        for m in range(M):
            q = 1
            for i in range(L):
                q = q * e[d[i], m, i]
            tot = tot + q
        return tot

    def qgps(name, L, M, kind="fermion", dtype=C, batch=1, sym=False, n=None, out=None):
        kw = {}
        if out:
            kw["out_transformation"] = lambda v: jnp.log(jnp.sum(v, axis=(-2, -1)))
        if sym:
            kw.update(syms=cyc(L), apply_fast_update=False)
        if kind == "fermion":
            hi, vals, dt = (lambda: H(L, n)), (0, 1, 2, 3), np.uint8
        elif kind == "spin":
            hi, vals, dt = (lambda: nk.hilbert.Spin(0.5, L)), (-1, 1), np.int8
        else:
            hi, vals, dt = (lambda: nk.hilbert.Spin(1, L)), (-2, 0, 2), np.int8

        def ref(p, x):
            d = [vals.index(v) for v in x]
            tot = sum(support_sum(p["p_epsilon"], [d[(i - t) % L] for i in range(L)], L, M) for t in range(L if sym else 1))
            return tot if out else fexp(tot)
        add(name, lambda: mo.qGPS(hi(), M, dtype=dtype, **kw), ref, L, n_elec=n, values=vals, dtype=dt, batch=batch, functions=QG)

    qgps("qgps_fermion_L3_M2", 3, 2)
    qgps("qgps_spin_L4_M2", 4, 2, kind="spin")
    qgps("qgps_spin_L3_sym", 3, 2, kind="spin", sym=True, dtype=R)
    qgps("qgps_spin1_L2_batch2", 2, 1, kind="spin1", batch=2)
    qgps("qgps_fermion_L2_out", 2, 2, out=True)

    def plaquette(name, L, M, pl, sym=False, dtype=C, kind="spin"):
        kw = dict(syms=cyc(L), apply_fast_update=False) if sym else {}
        vals, dt = ((-1, 1), np.int8) if kind == "spin" else ((0, 1, 2, 3), np.uint8)

        def ref(p, x):
            d = [vals.index(v) for v in x]
            tot = 0
            for t in range(L if sym else 1):
                y = [d[(i - t) % L] for i in range(L)]
                for k, q in enumerate(pl):
                    for m in range(M):
                        w = 1
                        for j, site in enumerate(q):
                            w = w * p["p_epsilon"][y[site], k, m, j]
                        tot = tot + w
            return fexp(tot)
        add(name, lambda: mo.PlaquetteqGPS(nk.hilbert.Spin(0.5, L) if kind == "spin" else H(L), M, HashableArray(np.array(pl)),
                                           dtype=dtype, **kw), ref, L, values=vals, dtype=dt,
            functions=["GPSKet.models.plaquetteqGPS.PlaquetteqGPS.__call__"])

    plaquette("plaquette_spin_L3", 3, 2, [[0, 1], [1, 2], [2, 0]])
    plaquette("plaquette_spin_L4_sym", 4, 1, [[2, 0, 1], [3, 1, 0]], sym=True, dtype=R)
    plaquette("plaquette_fermion_L3", 3, 1, [[2, 1]], kind="fermion")

    def slater_qgps(name, L, n, M=1, dets=1, shared=True, dtype=R):
        add(name, lambda: mo.SlaterqGPS(H(L, n), dtype=dtype, M=M, n_determinants=dets, spin_symmetry_by_structure=shared),
            lambda p, x: sum(slater_terms(p, x, L, n, M=dets, shared=shared, pre="p_Slater_0_").values())
            * fexp(support_sum(p["p_qGPS_0_epsilon"], x, L, M)), L, n_elec=n,
            functions=["GPSKet.models.slater_qGPS.SlaterqGPS.__call__"] + SL + QG)

    slater_qgps("slaterqgps_L3_n11", 3, (1, 1), M=2)
    slater_qgps("slaterqgps_L3_n12", 3, (1, 2), shared=False)
    slater_qgps("slaterqgps_L2_n11_multi", 2, (1, 1), dets=2, dtype=C)

    # ------------------------------------------------------------ segmented GPS
    def seg(name, L, M, n=None, sz2=None, dtype=C):
        def ref(p, x):
            e = p["p_epsilon"]
            tot = 0
            for m in range(M):
                q, u, d = 1, 0, 0
                for i, v in enumerate(x):
                    k = v if n is not None else (v + 1) // 2
                    q = q * e[k, m, i, u, d]
                    if n is not None:
                        u, d = u + (v & 1), d + (v >> 1)
                    else:
                        u, d = u + (v == 1), d + (v == -1)
                tot = tot + q
            return fexp(tot)
        fs = ["GPSKet.models.segmented_qGPS.SegGPS.__call__", "count_fermions", "count_spins"]
        if n is not None:
            add(name, lambda: mo.SegGPS(H(L, n), M, dtype=dtype), ref, L, n_elec=n, functions=fs)
        else:
            ex = np.array([[1] * ((L + sz2) // 2) + [-1] * ((L - sz2) // 2)], dtype=np.int8)
            add(name, lambda: mo.SegGPS(nk.hilbert.Spin(0.5, L, total_sz=sz2 / 2), M, dtype=dtype), ref, L, values=(-1, 1),
                dtype=np.int8, sz2=sz2, ex=ex, functions=fs)

    seg("seg_fermion_L3_n21", 3, 2, n=(2, 1))
    seg("seg_fermion_L3_n11_real", 3, 1, n=(1, 1), dtype=R)
    seg("seg_spin_L4_sz0", 4, 2, sz2=0)
    seg("seg_spin_L4_sz1", 4, 1, sz2=2)
    seg("seg_spin_L3_sz+", 3, 1, sz2=1)
    seg("seg_spin_L3_sz-", 3, 1, sz2=-1)
    seg("seg_spin_L5_sz-3", 5, 1, sz2=-3)

    # ------------------------------------------------------------ autoregressive qGPS
    from checks.ar import spin, masks_plaquettes, count_fermions, renorm_fermions

    def ar(name, kind, L, M, dtype=C, sz2=None, n=None, p=2, sym=False, normalize=True, batch=1, thorough=False):
        vals, dt = ((-1, 1), np.int8) if n is None else ((0, 1, 2, 3), np.uint8)
        mod = "GPSKet.models.autoreg_"
        cls = {"ar": "ARqGPS", "full": "ARqGPSFull", "persite": "ARqGPSFull", "plaq": "ARPlaquetteqGPS", "modphase": "ARqGPSModPhase",
               "modphasefull": "ARqGPSModPhaseFull"}[kind]
        where = mod + {"ar": "qGPS", "modphase": "qGPS", "plaq": "plaquetteqGPS"}.get(kind, "qGPS_full")
        kw = dict(dtype=dtype, machine_pow=p, normalize=normalize)
        if sym:
            copy = lambda x: jnp.stack([jnp.roll(x, k, axis=-1) for k in range(L)], axis=-1)
            kw["apply_symmetries"] = copy
        if n is not None:
            kw.update(count_spins=count_fermions, renormalize_log_psi=renorm_fermions)
        if kind in ("full", "persite", "modphasefull") and (sym or kind == "modphasefull"):
            kw["apply_fast_update"] = False
        pl, mk = [np.asarray(v) for v in masks_plaquettes(L)]
        if kind == "plaq":
            kw.update(plaquettes=HashableArray(pl), masks=HashableArray(mk))
        Ms = HashableArray(np.array(M)) if kind == "persite" else M

        def allowed(x, i, d):
            if sz2 is not None:
                c = [vals.index(v) for v in x[:i]].count(d)
                return c < L // 2
            if n is not None:
                for s in (0, 1):
                    left = n[s] - sum(v >> s & 1 for v in x[:i]) - (d >> s & 1)
                    if not 0 <= left <= L - i - 1:
                        return False
            return True

        def local(par, x, i):
            out = []
            y = [vals.index(v) for v in x]
            for d in range(len(vals)):
                tot = 0
                for m in range(M[i] if kind == "persite" else M):
                    q = 1
                    if kind in ("ar", "modphase"):
                        e = par["p_epsilon"]
                        for j in range(i):
                            q = q * e[y[j], m, j]
                        q = q * e[d, m, i]
                    elif kind in ("full", "modphasefull"):
                        e = par["p_epsilon"]
                        for j in range(i):
                            q = q * e[y[j], m, i * (i + 1) // 2 + j]
                        q = q * e[d, m, i * (i + 1) // 2 + i]
                    elif kind == "persite":
                        e = par["p_epsilon_%d" % i]
                        for j in range(i):
                            q = q * e[y[j], m, j]
                        q = q * e[d, m, i]
                    else:
                        e = par["p_epsilon"]
                        for j in range(L):
                            if mk[i][j]:
                                q = q * e[y[pl[i][j]], m, j]
                        q = q * e[d, m, 0]
                    tot = tot + q
                out.append(tot if allowed(x, i, d) else None)
            return out

        def phase(par, x):
            key = [k for k in par if "qgps" in k][0]
            return support_sum(par[key], [vals.index(v) for v in x], L, L)

        def make():
            h = spin(L, None if sz2 is None else sz2 / 2) if n is None else H(L, n)
            copies = (lambda x: [[x[(i - k) % L] for i in range(L)] for k in range(L)]) if sym else None
            return ARFormula(name, getattr(mo, cls)(h, Ms, **kw), h, local, L, vals, dt, sz2, n, p, copies,
                             phase if "modphase" in kind else None, normalize, batch,
                             functions=[where + "." + cls + ".__call__", where + "._compute_conditional", "GPSKet.models.autoreg_qGPS._normalize"])
        S.append((name, make))

    for kind in ("ar", "full", "plaq"):
        ar("%s_spin_L3_M2" % kind, kind, 3, 2, dtype=R)
        ar("%s_spin_L4_sz0" % kind, kind, 4, 1, sz2=0, batch=2, dtype=R)
        ar("%s_spin_L3_pow1" % kind, kind, 3, 1, p=1)
        ar("%s_spin_L3_unnormalised" % kind, kind, 3, 2, normalize=False)
        ar("%s_spin_L2_sym" % kind, kind, 2, 1, sym=True, dtype=R)
        ar("%s_spin_L2_sym_pow1" % kind, kind, 2, 1, sym=True, p=1, dtype=R)
        ar("%s_fermion_L3_n21" % kind, kind, 3, 1, n=(2, 1), dtype=R)
    ar("persite_spin_L3", "persite", 3, [2, 1, 2], dtype=R)
    ar("persite_spin_L4_sz0", "persite", 4, [1, 2, 1, 1], sz2=0, dtype=R)
    ar("modphase_spin_L3", "modphase", 3, 1, dtype=R)
    ar("modphasefull_spin_L3", "modphasefull", 3, 1, dtype=R)

    # ------------------------------------------------------------ backflow
    class Correction(nn.Module):
        """arbitrary configuration-dependent orbital correction"""
        L: int
        rows: int
        N: int
        T: int = 1
        dtype: type = R

        @nn.compact
        def __call__(self, x, cache_intermediates=False, update_sites=None):
            t = self.param("table", nn.initializers.normal(), (4 ** self.L, self.rows, self.N, self.T), self.dtype)
            return t[jnp.sum(jnp.asarray(x, jnp.int32) * np.array([4 ** k for k in range(self.L)], np.int32), axis=-1)]

    BF = ["GPSKet.models.backflow.Backflow.__call__", "GPSKet.models.slater.occupancies_to_electrons"]

    def bf_det(tab, x, L, n, O, shared, general, sym):
        tot = 0
        up, dn = electrons(x)
        k = sum(v * 4 ** i for i, v in enumerate(x))
        for t in range(L if sym else 1):
            def el(r, c):
                v = tab[k, r, c, t]
                return v + O[r][c] if O is not None else v
            ru, rd = [(i + t) % L for i in up], [(i + t) % L for i in dn]
            if general:
                rows = ru + [L + r for r in rd]
                tot = tot + det([[el(r, c) for c in range(n[0] + n[1])] for r in rows])
            else:
                off = 0 if shared else n[0]
                tot = tot + det([[el(r, c) for c in range(n[0])] for r in ru]) * det(
                    [[el(r, off + c) for c in range(n[1])] for r in rd])
        return tot

    def mean_field(L, n, shared, general, seed=0):
        rs = np.random.RandomState(seed)
        return np.round(rs.uniform(-2, 2, size=(2 * L if general else L, n[0] if shared else n[0] + n[1])) * 4) / 4

    def backflow(name, L, n, orbitals=True, shared=True, general=False, sym=False, batch=1, dtype=R):
        O = mean_field(L, n, shared, general) if orbitals else None
        rows, N = (2 * L if general else L), (n[0] if shared else n[0] + n[1])
        kw = dict(apply_symmetries=shifts(L)) if sym else {}
        add(name, lambda: mo.Backflow(H(L, n), Correction(L, rows, N, L if sym else 1, dtype),
                                      orbitals=None if O is None else HashableArray(O), spin_symmetry_by_structure=shared,
                                      fixed_magnetization=not general, **kw),
            lambda p, x: bf_det(p["p_correction_fun_table"], x, L, n, None if O is None else O.tolist(), shared, general, sym),
            L, n_elec=n, batch=batch, functions=BF)

    backflow("backflow_L2_n11", 2, (1, 1))
    backflow("backflow_L3_n22", 3, (2, 2))
    backflow("backflow_L3_n21_unrestricted", 3, (2, 1), shared=False)
    backflow("backflow_L2_n11_general", 2, (1, 1), shared=False, general=True, dtype=C)
    backflow("backflow_L3_n21_general_noorb", 3, (2, 1), shared=False, general=True, orbitals=False)
    backflow("backflow_L2_n11_noorb_sym", 2, (1, 1), orbitals=False, sym=True)
    backflow("backflow_L2_n11_sym_batch2", 2, (1, 1), sym=True, batch=2)
    backflow("backflow_L3_n12_unrestricted_noorb", 3, (1, 2), shared=False, orbitals=False)
    backflow("backflow_L3_n12_general", 3, (1, 2), shared=False, general=True)
    backflow("backflow_L3_n12_unrestricted", 3, (1, 2), shared=False)
    backflow("backflow_L2_n11_general_sym", 2, (1, 1), shared=False, general=True, sym=True)

    def backflow_jastrow(name, L, n, M=1, shared=True, general=False):
        Os = [mean_field(L, n, shared, general, 3 + m) for m in range(M)]
        rows, N = (2 * L if general else L), (n[0] if shared else n[0] + n[1])

        def ref(p, x):
            tot = 0
            for m in range(M):
                tab = [p[k] for k in p if "correction_fun_%d" % m in k and "Jastrow" not in k.split("correction")[0]]
                tot = tot + bf_det(tab[0], x, L, n, Os[m].tolist(), shared, general, False)
            return tot * E(jastrow_log(p, x, "p_Jastrow_0_kernel", L))
        add(name, lambda: mo.BackflowJastrow(H(L, n), tuple(HashableArray(o) for o in Os),
                                             tuple(Correction(L, rows, N) for _ in range(M)),
                                             spin_symmetry_by_structure=shared, fixed_magnetization=not general),
            ref, L, n_elec=n, functions=["GPSKet.models.backflow_jastrow.BackflowJastrow.__call__"] + BF + JA)

    backflow_jastrow("backflowjastrow_L2_n11", 2, (1, 1))
    backflow_jastrow("backflowjastrow_L2_n11_M2", 2, (1, 1), M=2)
    backflow_jastrow("backflowjastrow_L3_n21", 3, (2, 1), shared=False)
    backflow_jastrow("backflowjastrow_L2_n11_general", 2, (1, 1), shared=False, general=True)
    backflow_jastrow("backflowjastrow_L3_n12_M2", 3, (1, 2), M=2, shared=False)
    backflow_jastrow("backflowjastrow_L3_n12_general", 3, (1, 2), shared=False, general=True)

    def cpd(name, L, n, M, restricted=True, general=False, env=None, dtype=R, batch=1):
        kw = dict(environments=HashableArray(np.array(env))) if env else {}

        def ref(p, x):
            e = p["p_epsilon"]

            def phi(r, c):
                sites = env[r] if env else range(L)
                tot = 0
                for m in range(M):
                    q = 1
                    for k, s in enumerate(sites):
                        q = q * e[r, c, x[s], m, k]
                    tot = tot + q
                return tot
            up, dn = electrons(x)
            if general:
                rows = up + [L + i for i in dn]
                return det([[phi(r, c) for c in range(n[0] + n[1])] for r in rows])
            off = 0 if restricted else n[0]
            return det([[phi(r, c) for c in range(n[0])] for r in up]) * det([[phi(r, off + c) for c in range(n[1])] for r in dn])
        add(name, lambda: mo.CPDBackflow(H(L, n), M, dtype=dtype, restricted=restricted, fixed_magnetization=not general, **kw), ref,
            L, n_elec=n, batch=batch, functions=["GPSKet.models.cpd_backflow.CPDBackflow.__call__", "CPD_single_orbital"])

    cpd("cpd_L2_n11_M2", 2, (1, 1), 2, dtype=C)
    cpd("cpd_L3_n21_unrestricted", 3, (2, 1), 1, restricted=False)
    cpd("cpd_L2_n11_general", 2, (1, 1), 2, restricted=False, general=True)
    cpd("cpd_L3_n12_unrestricted", 3, (1, 2), 1, restricted=False)
    cpd("cpd_L3_n21_general", 3, (2, 1), 1, restricted=False, general=True)
    cpd("cpd_L3_n12_general", 3, (1, 2), 1, restricted=False, general=True)
    cpd("cpd_L3_n22", 3, (2, 2), 1)
    cpd("cpd_L3_n11_env", 3, (1, 1), 2, env=[[0, 1], [2, 1], [2, 0]])
    cpd("cpd_L3_n11_env_general_batch2", 2, (1, 1), 1, restricted=False, env=[[1], [0]], batch=2)

    # ------------------------------------------------------------ Pfaffians (first-quantised input)
    PF = ["GPSKet.models.pfaffian.log_pfaffian", "GPSKet.models.pfaffian.PfaffianState.__call__",
          "GPSKet.models.pfaffian.ZeroMagnetizationPfaffian.__call__"]

    def pf(name, L, Ne, dtype=R, zero=False, S2=None, sym=False, batch=1):
        def ref(p, y):
            tot = 0
            for ang, w in (S2 or [(0.0, 1)]):
                for t in range(L if sym else 1):
                    def F(a, b):
                        if not zero:
                            return p["p_F"][a, b]
                        c, s = cs_half(ang, p["p_f"][0, 0])
                        A = [[-c * s, c * c], [-s * s, c * s]][a // L][b // L]
                        return p["p_f"][a % L, b % L] * A
                    r = [(v // L) * L + (v % L + t) % L for v in y]
                    tot = tot + w * pfaffian([[F(a, b) - F(b, a) for b in r] for a in r])
            return tot
        kw = dict(dtype=dtype)
        if sym:
            kw["symmetries"] = lambda y: jnp.stack([(y // L) * L + (y % L + t) % L for t in range(L)], axis=-1)
        if zero:
            if S2:
                kw["S2_projection"] = (HashableArray(np.array([a for a, _ in S2])), HashableArray(np.array([w for _, w in S2])))
            f = lambda: ZeroMagnetizationPfaffian(L, **kw)
        else:
            f = lambda: PfaffianState(L, **kw)
        half = Ne // 2
        ex = np.array([list(range(half)) + [L + i for i in range(half)]] * batch, dtype=np.int64) if zero else np.array(
            [list(range(Ne))] * batch, dtype=np.int64)
        add(name, f, ref, L, values=tuple(range(2 * L)), dtype=np.int64, ex=ex, batch=batch, functions=PF,
            first_quantised=(half, half) if zero else (Ne, None))

    pf("pfaffian_L2_N2", 2, 2, batch=2)
    pf("pfaffian_L2_N4", 2, 4)
    pf("pfaffian_L3_N4", 3, 4)
    pf("pfaffian_L2_N2_complex", 2, 2, dtype=C)
    pf("pfaffian_zero_L3_N2", 3, 2, zero=True)
    pf("pfaffian_zero_L2_N2_S2", 2, 2, zero=True, S2=[(0.5, 0.75), (1.25, 0.5)])
    pf("pfaffian_zero_L3_N2_sym", 3, 2, zero=True, sym=True)
    pf("pfaffian_zero_L3_N4", 3, 4, zero=True)
    if tier != "quick":
        pf("pfaffian_L3_N6", 3, 6)
    return S


def scenarios(tier):
    return build(tier)
