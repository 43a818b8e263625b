"""C24: supervised qGPS learning predicts and fits what it defines."""
import io
import contextlib

import netket.utils.mpi
import scipy
import scipy.linalg
import scipy.optimize

from checks.common import *
from symx import npk, pyexec


class Comm:
    """one process"""

    def Bcast(self, *a, **k):
        pass

    def bcast(self, x, *a, **k):
        return x

    def allreduce(self, x, *a, **k):
        return x


def world():
    from netket.utils import mpi

    one = lambda x, *a, **k: x
    return [(np, npk.NP), (scipy, npk.SP), (scipy.linalg, npk.SP.linalg), (np.linalg, npk.NP.linalg), (mpi.MPI_py_comm, Comm()), (mpi.mpi_sum, one)]


class Learning(Scenario):
    """runs `go(M, np, inputs)` on the repository's module, symbolically or for real"""

    kind = "r"
    define_comps = True

    moderate = positive = False

    def order(self, eng, op, x, y):
        """moderate inputs: no symbolic quantity is below the code's lower or above its upper cut-offs"""
        if not self.moderate or x.sp is not None or y.sp is not None or x.is_const() == y.is_const():
            return None
        c = float((x if x.is_const() else y).const_value())
        if self.positive and c == 0 and y.is_const():
            eng.stats.assumptions.add("updated precisions gamma/|w|^2 are positive")
            return {"lt": False, "le": False, "gt": True, "ge": True, "eq": False, "ne": True}[op]
        if 0 < c <= 1e-9:
            less = not y.is_const()
        elif c >= 1e9:
            less = not x.is_const()
        else:
            return None
        eng.stats.assumptions.add("symbolic magnitudes lie between the code's cut-offs (1e-9 and 1e9)")
        return {"lt": less, "le": less, "gt": not less, "ge": not less, "eq": False, "ne": True}[op]

    def symarr(self, n, v):
        sp = self.specs.get(n)
        if isinstance(sp, (Real, Cplx)) or isinstance(v, np.ndarray) and v.dtype == object:
            cplx = isinstance(sp, Cplx) or isinstance(sp, Const) and np.iscomplexobj(sp.value)
            return npk.karr(v, complex if cplx else float)
        return v

    def outs_py(self, eng, a):
        from GPSKet.supervised import supervised_qgps as M

        with pyexec.patched(same=world()), contextlib.redirect_stdout(io.StringIO()):
            r = self.go(M, npk.NP, {n: self.symarr(n, v) for n, v in a.items()})
        return jax.tree_util.tree_map(lambda v: np.asarray(v) if isinstance(v, np.ndarray) else v, r)

    def outs_real(self, a):
        from GPSKet.supervised import supervised_qgps as M

        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            return self.go(M, np, {n: np.array(v) for n, v in self.derive(dict(a)).items()})


def dyadic(seed, *shape, cplx=False, zeros=False):
    r = np.random.RandomState(seed)
    v = r.randint(1, 8, shape) / 4 * r.choice([-1, 1], shape)
    if cplx:
        v = v + 1j * r.randint(-7, 8, shape) / 4
    return v


def product(eps, c, w, skip=None):
    """prod_j eps[c_j, w, j]"""
    t = 1
    for j in range(eps.shape[2]):
        if j != skip:
            t = t * eps[int(c[j]), w, j]
    return t


def features(eps, confs, refs, bias):
    """K[i][f], features in the order bond index, local state (and the bias)"""
    d, M, L = eps.shape
    K = []
    for c in confs:
        c = c if c.ndim == 2 else c[:, None]
        row = []
        for w in range(M):
            for s in range(d):
                t = 0
                for k in range(c.shape[1]):
                    if int(c[refs[w], k]) == s:
                        t = t + product(eps, c[:, k], w, refs[w])
                row.append(t)
        if bias:
            row.append(1)
        K.append(row)
    return K


def log_amplitude(eps, c):
    c = c if c.ndim == 2 else c[:, None]
    return sum(product(eps, c[:, k], w) for k in range(c.shape[1]) for w in range(eps.shape[1]))


def ref_list(ref, M):
    return [ref] * M if isinstance(ref, int) else list(ref)


CLASSES = {"exp": "QGPSLearningExp", "log": "QGPSLogSpaceFit", "gen": "QGPSGenLinMod"}


class Predict(Learning):
    """predictions and features along a history of reference sites, configurations and tensors"""

    def __init__(self, name, cls="log", d=2, M=1, L=2, N=1, T=0, refs=(0, 1), cplx=False, bias=False, buffer=False, eps_change=False, expand=False, concrete=False,
                 zero=False):
        self.cls, self.refs, self.bias, self.buffer, self.eps_change, self.expand, self.M = cls, refs, bias, buffer, eps_change, expand, M
        sh = (d, M, L)
        e = dyadic(1, *sh, cplx=cplx)
        if zero:
            e[0, 0, :] = 0
        sp = {"eps": Const(e) if concrete else Cplx(*sh) if cplx else Real(*sh), "x": Int(N, L, *((T,) if T else ()), lo=0, hi=d - 1)}
        if buffer:
            sp["x2"] = Int(N, L, *((T,) if T else ()), lo=0, hi=d - 1)
        if eps_change:
            sp["eps2"] = Cplx(*sh) if cplx else Real(*sh)
        Scenario.__init__(self, name, sp)
        self.functions = ["GPSKet.supervised.supervised_qgps.%s.predict" % CLASSES[cls]] + [
            "GPSKet.supervised.supervised_qgps.QGPSLearning." + f for f in ("set_kernel_mat", "kernel_mat_inner", "compute_site_prod", "update_site_prod", "update_site_prod_fast", "ref_sites")]
        self.bound = "%d sites, local dimension %d, bond %d, %d configurations (all), %d images, reference sites %s%s%s; %s site tensors" % (
            L, d, M, N, T or 1, list(refs), ", new tensors" if eps_change else "", ", reused buffer" if buffer else "", "listed" if concrete else "symbolic")

    def go(self, M, xp, a):
        kw = {} if self.cls == "gen" else {"complex_expand": self.expand}
        l = getattr(M, CLASSES[self.cls])(a["eps"], include_bias=self.bias, **kw)
        x = np.array(a["x"])
        out = {"p": [], "K": []}

        def look():
            out["p"].append(l.predict(x))
            out["K"].append(l.set_kernel_mat(x).copy())
        for r in self.refs:
            l.ref_sites = r if isinstance(r, int) else np.array(r)
            look()
        if self.buffer:
            np.copyto(x, a["x2"])
            look()
            l.ref_sites = 0
            look()
        if self.eps_change:
            l.epsilon = a["eps2"]
            look()
            l.ref_sites = 0
            look()
        return out

    def relation(self, o, a):
        hist = [(a["eps"], a["x"], ref_list(r, self.M)) for r in self.refs]
        if self.buffer:
            hist += [(a["eps"], a["x2"], hist[-1][2]), (a["eps"], a["x2"], [0] * self.M)]
        x = a["x2"] if self.buffer else a["x"]
        if self.eps_change:
            hist += [(a["eps2"], x, hist[-1][2]), (a["eps2"], x, [0] * self.M)]
        r = []
        assert len(hist) == len(o["p"])
        for k, (e, x, refs) in enumerate(hist):
            x = np.asarray(x)
            la = [log_amplitude(e, c) for c in x]
            want = la if self.cls == "log" else [poly.exp(v) if isinstance(v, Expr) else np.exp(v) for v in la]
            r.append(("prediction %d" % k, o["p"][k], np.array(want, dtype=object if isinstance(want[0], Expr) else complex)))
            K = features(e, x, refs, self.bias)
            r.append(("features %d" % k, o["K"][k], _arr(K)))
        return r


def _arr(x):
    x = np.array(x, dtype=object)
    if any(isinstance(v, Expr) for v in x.reshape(-1)):
        return x
    return x.astype(complex)


# ------------------------------------------------------------------ fits
def cj(v):
    return poly.conj(v) if isinstance(v, Expr) else np.conj(v)


def re(v):
    return poly.real(v) if isinstance(v, Expr) else np.real(v)


def ab2(v):
    return re(v * cj(v))


def ln(v):
    return poly.log(v) if isinstance(v, Expr) else np.log(v)


def ex(v):
    return poly.exp(v) if isinstance(v, Expr) else np.exp(v)


class Fit(Learning):
    """fit_step: the tensors at the reference sites minimise
        beta sum_i S_i |y_i - K_i (w - m) - K_i m|^2 + sum alpha |w - m|^2
    (real and imaginary parts of the weights have precision alpha/2 each when expanded)"""

    def __init__(self, name, cls="log", d=2, M=1, L=2, confs=None, refs=(0,), cplx=False, expand=False, bias=False, weighted=False, prior=None, sym=("y",),
                 zero_eps=False, zero_amp=False, noise=0.25, opt=None, grow=None, rvm=False, iterate=1, N=None, seed=3, precomputed=False, reweight=False, moderate=True, positive=False, strong=1, late=False, off=()):
        self.cls, self.refs, self.cplx, self.expand, self.bias, self.weighted, self.prior = cls, refs, cplx, expand, bias, weighted, prior
        self.M, self.opt, self.grow, self.rvm, self.iterate, self.d, self.L, self.precomputed, self.reweight = M, opt, grow, rvm, iterate, d, L, precomputed, reweight
        r = np.random.RandomState(seed)
        confs = np.array(confs if confs is not None else list(itertools.product(range(d), repeat=L)), dtype=np.uint8)
        N = len(confs)
        self.N = N
        e = dyadic(seed + 1, d, M, L, cplx=cplx)
        if zero_eps:
            e[0, 0, -1] = 0
        F = M * d
        nf = F * (2 if expand else 1)
        na = nf + (2 if expand else 1) * bias
        sp = {"eps": Const(e), "x": Const(confs)}
        self.zero_amp = zero_amp
        pick = lambda n, spec, val: spec if n in sym else Const(val)
        self.late, self.off = late, off
        self.noiseless = cls == "exp" and noise == 0
        self.moderate, self.positive = moderate, positive
        if cls == "log":
            sp["y"] = pick("y", Cplx(N) if cplx else Real(N), dyadic(seed + 2, N, cplx=cplx))
            if "y0" in sym:
                sp["y0"] = Cplx(1) if cplx else Real(1)
        else:
            if "y0" in sym:
                sp["y0"] = Real(1, lo=0.1, hi=0.9)
            # amplitudes s * exp(t), s = +-1 (or a complex phase exp(i q))
            sp["t"] = pick("y", Real(N, lo=0.1, hi=0.9), np.array([(-1.0) ** i for i in range(N)]))
            if cplx:
                sp["q"] = pick("y", Real(N, lo=0.1, hi=0.9), dyadic(seed + 5, N))
        sp["a"] = pick("alpha", Real(L, nf, positive=True, lo=0.5, hi=1.5), np.abs(dyadic(seed + 3, L, nf)) * strong)
        if bias:
            sp["ab"] = pick("alpha", Real(na - nf, positive=True, lo=0.5, hi=1.5), np.abs(dyadic(seed + 9, na - nf)))
        if weighted:
            sp["w"] = pick("w", Real(N, positive=True, lo=0.5, hi=1.5), np.abs(dyadic(seed + 4, N)))
        if reweight:
            sp["rw"] = pick("w", Real(N, positive=True, lo=0.5, hi=1.5), np.abs(dyadic(seed + 6, N)))
        sp["n"] = pick("noise", Real(lo=0.3, hi=0.9), np.array(noise))
        if prior is not None:
            sp["m"] = pick("m", Real(), np.array(float(prior)))
        Scenario.__init__(self, name, sp)
        self.functions = ["GPSKet.supervised.supervised_qgps.%s.%s" % (CLASSES[cls], f) for f in ("fit_step" if grow is None else "fit_step_growing_RVM", "setup_fit")] + [
            "GPSKet.supervised.supervised_qgps.QGPSLearning." + f for f in ("setup_fit_alpha_dep", "opt_alpha_beta", "update_epsilon_with_weights", "alpha_mat_ref_sites")]
        self.bound = "%d sites, local dimension %d, bond %d, %d data points, reference sites %s, %s%s tensors%s%s%s%s; symbolic: %s" % (
            L, d, M, N, list(refs), "complex" if cplx else "real", " (expanded)" if expand else "", ", bias" if bias else "", ", weighted" if weighted else "",
            ", prior mean" if prior is not None else "", ", growing RVM" if grow is not None else "", ", ".join(sym))

    def derive(self, a):
        # squares: every non-negative precision, weight and noise
        b = dict(a)
        if "y0" in b:
            k = "y" if self.cls == "log" else "t"
            b[k] = np.concatenate([b.pop("y0"), np.asarray(b[k])[1:]])
        for k in ("a", "ab", "w", "rw"):
            if k in b:
                b[k] = b[k] * b[k]
        if not isinstance(self.specs["n"], Const):
            b["n"] = np.array(ex(np.asarray(b["n"])[()]), dtype=object if isinstance(np.asarray(b["n"])[()], Expr) else float)
        return b

    def amps(self, xp, a):
        if self.cls == "log":
            return a["y"]
        v = xp.exp(a["t"])
        if self.cplx:
            return v * xp.exp(1j * a["q"])
        s = np.array([-1.0 if i % 2 and self.cls == "exp" else 1.0 for i in range(self.N)])
        if self.zero_amp:
            s[0] = 0.0
        return v * s

    def build(self, M, xp, a):
        kw = {} if self.cls == "gen" else {"complex_expand": self.expand}
        if self.precomputed:
            kw["K"] = _arr2(xp, features(np.asarray(a["eps"]), np.asarray(a["x"]), ref_list(self.refs[0], self.M), False), self.cplx)
        l = getattr(M, CLASSES[self.cls])(a["eps"], include_bias=self.bias, init_noise_tilde=2.0 if self.late else _scalar(a["n"]), **kw)
        if self.late:
            l.noise_tilde = _scalar(a["n"])
        if self.precomputed:
            l.alpha_mat = a["a"][0].copy()
        else:
            l.alpha_mat = a["a"].copy()
        if self.bias:
            l.alpha_bias = a["ab"].copy()
        if self.reweight:
            l.noise_reweighting = a["rw"].copy()
        return l

    def fit(self, l, a, y, ref):
        kw = {"weightings": a.get("w")}
        if self.prior is not None:
            kw["prior_mean"] = _scalar(a["m"])
        if self.grow is not None:
            l.fit_step_growing_RVM(a["x"], y, ref, self.grow, **kw)
            return
        if self.cls == "exp":
            kw.update(opt_alpha=self.opt is not None and "alpha" in self.opt, opt_noise=False, max_alpha_iterations=self.iterate, rvm=self.rvm)
        else:
            o = self.opt or ()
            kw.update(opt_alpha="alpha" in o, max_alpha_beta_iterations=self.iterate, rvm=self.rvm)
            kw["opt_noise" if self.cls == "log" else "opt_beta"] = "noise" in o
        l.fit_step(a["x"], y, ref, **kw)

    def go(self, M, xp, a):
        l = self.build(M, xp, a)
        y = self.amps(xp, a)
        before = None if "w" not in a else a["w"].copy()
        out = {"eps": [], "bias": [], "alpha": [], "noise": [], "pred": [], "amat": []}
        out["dead"], out["pruned"] = [], []
        for ref in self.refs:
            dead, pruned = self.masks(l, a, ref)
            out["dead"].append(dead)
            out["pruned"].append(pruned)
            self.fit(l, a, y, ref if isinstance(ref, int) else np.array(ref))
            out["eps"].append(l.weights.copy() if self.precomputed else l.epsilon.copy())
            out["bias"].append(l.bias.copy())
            out["amat"].append(l.alpha_mat.copy())
            out["alpha"].append(l.alpha_bias.copy())
            out["noise"].append(l.noise_tilde)
            out["pred"].append(xp.zeros(1) if self.precomputed else l.predict(a["x"]))
        if before is not None:
            out["w"] = [before, a["w"]]
        return out

    # ---- specification
    def masks(self, l, a, ref):
        """weights the data do not determine (they keep their value), and precisions beyond the cut-off"""
        K = features(np.asarray(a["eps"] if self.precomputed else l.epsilon), np.asarray(a["x"]), ref_list(ref, self.M), self.bias)
        y, S = self.data(a, K, l.noise_tilde)
        dead = []
        for f in range(len(K[0])):
            t = 0
            for i in range(self.N):
                if not (self.zero_amp and i == 0):
                    t = t + ab2(K[i][f]) * (S[i] if self.cls == "exp" else a["w"][i] if "w" in a else 1)
            dead.append(bool(t <= l.kern_cutoff))
        al = self.precision(np.asarray(l.alpha_mat), l.alpha_bias, ref)
        return np.array(dead), np.array([[bool(v >= l.alpha_cutoff) for v in row] for row in al])

    def precision(self, amat, abias, ref):
        """precision of every weight: list over (part, feature) with the bias last in each part"""
        d, M = self.d, self.M
        parts = 2 if self.expand else 1
        refs = ref_list(ref, M)
        out = []
        for p in range(parts):
            row = [amat[p * d * M + w * d + s] if self.precomputed else amat[refs[w], p * d * M + w * d + s] for w in range(M) for s in range(d)]
            if self.bias:
                row.append(abias[p])
            out.append(row)
        return out

    def weight_list(self, eps, bias, ref, m):
        refs = ref_list(ref, self.M)
        if self.precomputed:
            F = self.d * self.M
            w = [eps[k] + (1j * eps[F + k] if self.expand else 0) for k in range(F)]
        else:
            w = [eps[s, b, refs[b]] - m for b in range(self.M) for s in range(self.d)]
        if self.bias:
            w.append(bias[0])
        return w

    def data(self, a, K, noise):
        """targets y_i - K_i m and precisions S_i of the data"""
        m = _scalar(a["m"]) if self.prior is not None else 0
        xp = None
        N, F = self.N, self.d * self.M
        y, S = [], []
        for i in range(N):
            s = 1
            if self.cls == "log":
                t = a["y"][i]
                s = 1 / noise
            else:
                t, mod2 = a["t"][i], None
                mod2 = ex(2 * t)
                if self.cplx:
                    t = t + 1j * a["q"][i]
                if "rw" in a:
                    mod2 = mod2 / a["rw"][i]
                s = 1 if self.noiseless else 1 / ln(1 + noise / mod2)
            if "w" in a:
                s = s * a["w"][i]
            for f in range(F):
                t = t - m * K[i][f]
            y.append(t)
            S.append(s)
        return y, S

    def relation(self, o, a):
        r = []
        eps, bias = a["eps"], np.zeros(1)
        amat, abias = a["a"], a.get("ab")
        amat = np.asarray(amat)
        if self.precomputed:
            amat = amat[0]
        noise = _scalar(a["n"])
        m = _scalar(a["m"]) if self.prior is not None else 0
        for k, ref in enumerate(self.refs):
            refs = ref_list(ref, self.M)
            K = features(np.asarray(eps), np.asarray(a["x"]), refs, self.bias)
            y, S = self.data(a, K, noise)
            used_a, used_b = (o["amat"][k], o["alpha"][k]) if self.grow is not None else (amat, abias)
            al = self.precision(np.asarray(used_a), used_b, ref)
            new = o["eps"][k]
            w = self.weight_list(new, o["bias"][k], ref, m)
            nw = len(w)
            res = []
            for i in range(self.N):
                t = y[i]
                for f in range(nw):
                    t = t - K[i][f] * w[f]
                res.append(t)
            for f in range(nw):
                col = [K[i][f] for i in range(self.N)]
                if bool(o["dead"][k][f]):
                    # no data on this weight: it keeps its value
                    if not self.precomputed and f < self.d * self.M:
                        b, s = divmod(f, self.d)
                        r.append(("weight %d without data is kept (step %d)" % (f, k), new[s, b, refs[b]], eps[s, b, refs[b]]))
                    continue
                g = 0
                for i in range(self.N):
                    if self.zero_amp and i == 0:
                        # limit of S log|amplitude| for a vanishing amplitude
                        g = g + cj(col[i]) * (-0.5)
                        continue
                    g = g + cj(col[i]) * S[i] * res[i]
                if self.expand:
                    for part, al_, gg, ww in (("real", al[0][f], re(g), re(w[f])), ("imaginary", al[1][f], re(-1j * g), re(-1j * w[f]))):
                        if _isinf(al_) or self.grow is None and bool(o["pruned"][k][0 if part == "real" else 1][f]):
                            r.append(("%s part of a weight without support vanishes (step %d)" % (part, k), ww, 0.0))
                        else:
                            r.append(("%s part of weight %d is optimal (step %d)" % (part, f, k), gg, al_ * 0.5 * ww))
                elif _isinf(al[0][f]) or self.grow is None and bool(o["pruned"][k][0][f]):
                    r.append(("a weight without support vanishes (step %d)" % k, w[f], 0.0))
                else:
                    r.append(("weight %d is optimal (step %d)" % (f, k), g, al[0][f] * w[f]))
            if not self.precomputed:
                for s, b, j in itertools.product(range(self.d), range(self.M), range(self.L)):
                    if j != refs[b]:
                        r.append(("tensors of other sites stay (step %d)" % k, new[s, b, j], eps[s, b, j]))
                la = [log_amplitude(np.asarray(new), np.asarray(c)) + (o["bias"][k][0] if self.bias else 0) for c in np.asarray(a["x"])]
                r.append(("prediction after the fit (step %d)" % k, o["pred"][k], _arr([v if self.cls == "log" else ex(v) for v in la])))
            if self.opt is None and self.grow is None:
                r.append(("precisions unchanged", o["amat"][k], _arr(amat)))
                if self.bias:
                    r.append(("bias precision unchanged", o["alpha"][k], _arr(abias)))
                r.append(("noise unchanged", _arr([o["noise"][k]]), _arr([noise])))
            elif self.opt is not None:
                r += self.evidence_step(o, a, k, ref, K, y, S, al, w, amat, noise)
            if not self.precomputed:
                eps, bias = np.asarray(new), o["bias"][k]
            amat, abias, noise = np.asarray(o["amat"][k]), o["alpha"][k], o["noise"][k]
        if "w" in o:
            r.append(("the caller's weightings are untouched", o["w"][1], o["w"][0]))
        return r

    def evidence_step(self, o, a, k, ref, K, y, S, al, w, amat, noise):
        """one fixed-point step of the evidence maximisation:
        gamma_f = 1 - alpha_f Sigma_ff, alpha_f = gamma_f/|w_f|^2 (or the common sum gamma/sum |w|^2),
        beta = (N - sum gamma)/sum weights |residual|^2"""
        nw = len(w)
        parts = 2 if self.expand else 1
        n = nw * parts
        A = np.empty((n, n), dtype=object)
        col = lambda f, i: K[i][f % nw] * (1j if f >= nw else 1)
        for f in range(n):
            for g in range(n):
                t = 0
                for i in range(self.N):
                    v = cj(col(f, i)) * S[i] * col(g, i)
                    t = t + (re(v) if self.expand else v)
                A[f, g] = t
            A[f, f] = A[f, f] + (al[0][f] if not self.expand else al[f // nw][f % nw] * 0.5)
        live = [f for f in range(n) if not bool(o["dead"][k][f % nw]) and not bool(o["pruned"][k][f // nw][f % nw])]
        A = A[np.ix_(live, live)]
        if any(isinstance(v, Expr) for v in A.reshape(-1)):
            inv = np.asarray(npk.inv(A))
        else:
            inv = np.linalg.inv(A.astype(complex))
        ww = {f: (w[f] if not self.expand else re(w[f % nw] * (1 if f < nw else -1j))) for f in live}
        gam = {f: 1 - al[f // nw][f % nw] * re(inv[p, p]) * (0.5 if self.expand else 1) for p, f in enumerate(live)}
        r = []
        newa = self.precision(np.asarray(o["amat"][k]), o["alpha"][k], ref)
        tot = sum(gam.values())
        den = sum(ab2(v) for v in ww.values())
        if "alpha" in self.opt:
            for f in range(n):
                got = newa[f // nw][f % nw]
                if self.rvm:
                    if f in gam:
                        r.append(("new precision %d" % f, got * ab2(ww[f]), gam[f]))
                    else:
                        r.append(("precision without data stays %d" % f, got, al[f // nw][f % nw]))
                else:
                    r.append(("new common precision %d" % f, got * den, tot))
        if "noise" in self.opt:
            err, N = 0, 0
            for i in range(self.N):
                t = y[i]
                for f in range(nw):
                    t = t - K[i][f] * w[f]
                c = a["w"][i] if "w" in a else 1
                err = err + c * ab2(t)
                N = N + c
            r.append(("new noise", _arr([o["noise"][k] * (N - tot * (0.5 if self.expand else 1))]), _arr([err])))
        return r


class Evidence(Fit):
    """the evidence of a fit and its derivatives, for the Gaussian model
        y ~ N(K w, 1/S), w ~ N(0, 1/alpha)  (complex: circular Gaussians; expanded: alpha/2 for either part)"""

    rtol = 1e-4

    def __init__(self, name, *k, deriv=True, value=True, **kw):
        Fit.__init__(self, name, *k, **kw)
        self.deriv, self.value = deriv, value
        self.functions = ["GPSKet.supervised.supervised_qgps.%s.%s" % (CLASSES[self.cls], f) for f in ("setup_fit", "log_marg_lik", "log_marg_lik_noise_der")] + [
            "GPSKet.supervised.supervised_qgps.QGPSLearning." + f for f in ("setup_fit_alpha_dep", "log_marg_lik_alpha_der")]

    def derive(self, a):
        b = Fit.derive(self, a)
        if not isinstance(self.specs["a"], Const):
            # positive precisions
            b["a"] = jaxi.ew(ex, np.asarray(a["a"])) if np.asarray(a["a"]).dtype == object else np.exp(a["a"])
        return b

    def go(self, M, xp, a):
        l = self.build(M, xp, a)
        y = self.amps(xp, a)
        kw = {"weightings": a.get("w")}
        if self.prior is not None:
            kw["prior_mean"] = _scalar(a["m"])
        for f in self.off:
            l.alpha_mat[self.refs[0], f] = np.inf
        l.setup_fit(a["x"], y, self.refs[0], **kw)
        out = {}
        if self.value:
            v = l.log_marg_lik()
            # the same fit to vanishing data (amplitudes 1)
            k = self.build(M, xp, a)
            for f in self.off:
                k.alpha_mat[self.refs[0], f] = np.inf
            k.setup_fit(a["x"], y * 0 if self.cls == "log" else y * 0 + 1, self.refs[0], weightings=a.get("w"))
            v0 = k.log_marg_lik()
            out["value"] = np.array([v0])
            if self.cls == "log" or self.noiseless:
                out["quad"] = np.array([v - v0])
        if self.deriv:
            out["noise"] = np.array([l.log_marg_lik_noise_der()])
            out["alpha"] = l.log_marg_lik_alpha_der()
        return out

    def relation(self, o, a):
        refs = ref_list(self.refs[0], self.M)
        n = _scalar(a["n"])
        K = features(np.asarray(a["eps"]), np.asarray(a["x"]), refs, self.bias)
        y, S = self.data(a, K, n)
        al = self.precision(np.asarray(a["a"]), a.get("ab"), self.refs[0])
        nf = len(K[0])
        parts = 2 if self.expand else 1
        live = [f for f in range(nf * parts) if f not in self.off]
        F = len(live)
        col = lambda f, i: K[i][live[f] % nf] * (1j if live[f] >= nf else 1)
        # precision matrix of the weights
        A = np.empty((F, F), dtype=object)
        G = [np.empty((F, F), dtype=object) for _ in range(self.N)]
        half = 0.5 if self.expand else 1
        for f, g in itertools.product(range(F), range(F)):
            t = 0
            for i in range(self.N):
                v = cj(col(f, i)) * col(g, i)
                v = re(v) if self.expand else v
                G[i][f, g] = v
                t = t + S[i] * v
            A[f, g] = t + (al[live[f] // nf][live[f] % nf] * half if f == g else 0)
        rhs = []
        for f in range(F):
            t = 0
            for i in range(self.N):
                v = cj(col(f, i)) * S[i] * y[i]
                t = t + (re(v) if self.expand else v)
            rhs.append(t)
        sym = any(isinstance(v, Expr) for v in A.reshape(-1))
        inv = np.asarray(npk.inv(A)) if sym else np.linalg.inv(A.astype(complex))
        w = [sum(inv[f, g] * rhs[g] for g in range(F)) for f in range(F)]
        res = []
        for i in range(self.N):
            t = y[i]
            for f in range(F):
                t = t - col(f, i) * w[f]
            res.append(t)
        c = [a["w"][i] if "w" in a else 1 for i in range(self.N)]
        # scale: 1/2 for real data; in the expanded case every determinant is a real one
        sc = 1 if self.cplx else 0.5
        r = []
        flat = [al[f // nf][f % nf] for f in live]
        if self.value:
            if self.cls == "log" or self.noiseless:
                t = 0
                for i in range(self.N):
                    t = t - re(cj(y[i]) * S[i] * res[i])
                r.append(("evidence against that of vanishing data", o["quad"], _arr([t * sc])))
            S1 = S
            if self.cls == "exp" and not self.noiseless:
                S1 = [c[i] / ln(1 + n * (a["rw"][i] if "rw" in a else 1)) for i in range(self.N)]
                A = np.array([[sum(S1[i] * G[i][f, g] for i in range(self.N)) + (flat[f] * half if f == g else 0) for g in range(F)] for f in range(F)], dtype=object)
                sym = any(isinstance(v, Expr) for v in A.reshape(-1))
            t = 0
            for i in range(self.N):
                # log(pi/beta_i), beta_i the precision without the multiplicity
                t = t - c[i] * ln((PI if self.cplx else 2 * PI) / (S1[i] / c[i]))
            d = npk.det(A) if sym else np.linalg.det(A.astype(complex)).real
            e = 0
            for v in flat:
                e = e + ln(v * half)
            t = t + (e - ln(re(d))) * half
            # as a probability density
            if not (self.noiseless and self.expand):
                r.append(("evidence", _arr([ex(2 * o["value"][0])]), _arr([ex(2 * (t * sc))])))
        if self.deriv:
            # d evidence/d alpha = (1/alpha - Sigma - |w|^2)/2
            for f in range(F):
                g = 1 / flat[f] - re(inv[f, f]) * half - ab2(w[f])
                r.append(("derivative with the precision %d" % live[f], o["alpha"][live[f]], g * (sc if not self.expand else 0.5)))
            # d/dnoise through the data precisions S_i = c_i s_i
            t = 0
            for i in range(self.N):
                if self.cls == "log":
                    ds = -1 / (n * n)
                else:
                    m2 = ex(2 * a["t"][i])
                    if "rw" in a:
                        m2 = m2 / a["rw"][i]
                    s1 = S[i] / c[i]
                    ds = -s1 * s1 / (m2 + n)
                tr = sum(inv[f, g] * G[i][g, f] for f in range(F) for g in range(F))
                t = t + c[i] * ds / (S[i] / c[i]) - c[i] * ds * re(tr) * half - c[i] * ds * ab2(res[i])
            r.append(("derivative with the noise", o["noise"], _arr([t * sc])))
        return r


PI = np.pi


class Sparsity(Fit):
    """compute_sparsity_quantities: s = k^H C^-1 k, q = k^H C^-1 y, C the covariance of the data without the feature"""

    def __init__(self, name, *k, **kw):
        Fit.__init__(self, name, *k, **kw)
        self.functions = ["GPSKet.supervised.supervised_qgps.QGPSLearningExp.compute_sparsity_quantities"]

    def go(self, M, xp, a):
        l = self.build(M, xp, a)
        am = l.alpha_mat
        for f in self.off:
            am[self.refs[0], f] = np.inf
        l.setup_fit(a["x"], self.amps(xp, a), self.refs[0], weightings=a.get("w"))
        s, q, S, Q = l.compute_sparsity_quantities()
        return {"s": s, "q": q}

    def relation(self, o, a):
        K = features(np.asarray(a["eps"]), np.asarray(a["x"]), ref_list(self.refs[0], self.M), self.bias)
        y, S = self.data(a, K, _scalar(a["n"]))
        al = self.precision(np.asarray(a["a"]), a.get("ab"), self.refs[0])
        nf, half = len(K[0]), 0.5 if self.expand else 1
        al = [v * half for row in al for v in row]
        F = len(al)
        part = re if self.expand else (lambda v: v)
        r = []
        for f in range(F):
            use = [g for g in range(F) if g != f and g not in self.off]
            ip = lambda u, v: part(sum(cj(u(i)) * S[i] * v(i) for i in range(self.N)))
            col = lambda g: lambda i: K[i][g % nf] * (1j if g >= nf else 1)
            A = np.array([[ip(col(g), col(h)) + (al[g] if g == h else 0) for h in use] for g in use], dtype=object)
            if use:
                inv = np.asarray(npk.inv(A)) if any(isinstance(v, Expr) for v in A.reshape(-1)) else np.linalg.inv(A.astype(complex))
            s, q = ip(col(f), col(f)), ip(col(f), lambda i: y[i])
            for p, g in enumerate(use):
                for t, h in enumerate(use):
                    s = s - ip(col(f), col(g)) * inv[p, t] * ip(col(h), col(f))
                    q = q - ip(col(f), col(g)) * inv[p, t] * ip(col(h), lambda i: y[i])
            r.append(("sparsity of feature %d" % f, o["s"][f], s))
            r.append(("quality of feature %d" % f, o["q"][f], q))
        return r


class Errors(Fit):
    """the reported training errors: sums of (weighted) squared moduli of the deviations"""

    def __init__(self, name, *k, **kw):
        Fit.__init__(self, name, *k, **kw)
        self.functions = ["GPSKet.supervised.supervised_qgps.QGPSLearning." + f for f in ("squared_error", "squared_error_log_space")]

    def go(self, M, xp, a):
        l = self.build(M, xp, a)
        y = self.amps(xp, a)
        out = {"e": np.array([l.squared_error(a["x"], y, weightings=a.get("w"))])}
        if self.cls == "exp":
            out["l"] = np.array([l.squared_error_log_space(a["x"], y if self.cplx else abs(y), weightings=a.get("w"))])
        if "w" in a:
            out["w"] = a["w"]
        return out

    def relation(self, o, a):
        la = [log_amplitude(np.asarray(a["eps"]), np.asarray(c)) for c in np.asarray(a["x"])]
        q = a.get("q")
        if isinstance(np.asarray(o["e"])[0], Expr):
            lift = lambda v: v if isinstance(v, Expr) else Expr.const(v)
            la = [lift(v) for v in la]
            q = None if q is None else [lift(v) for v in q]
        e = l = 0
        for i in range(self.N):
            c = a["w"][i] if "w" in a else 1
            if self.cls == "log":
                e = e + c * ab2(la[i] - a["y"][i])
                continue
            t = a["t"][i] + (1j * q[i] if self.cplx else 0)
            e = e + c * ab2(ex(la[i]) - ex(t) * (-1 if i % 2 and not self.cplx else 1))
            l = l + c * ab2(la[i] - t)
        # (complex amplitudes: the moduli of differences of exponentials stay with the real case)
        r = [] if self.cplx and self.cls == "exp" else [("squared error", o["e"], _arr([e]))]
        if self.cls == "exp":
            r.append(("squared error of the logarithms", o["l"], _arr([l])))
        if "w" in o:
            r.append(("the caller's weightings are untouched", o["w"], _arr(a["w"])))
        return r


class Iterated(Fit):
    """n iterations of the precision (and noise) updates in one fit are n fits of one iteration each"""

    def go(self, M, xp, a):
        y = self.amps(xp, a)
        ref = self.refs[0]
        out = []
        for times, each in ((1, self.iterate), (self.iterate, 1)):
            l = self.build(M, xp, a)
            n, self.iterate = self.iterate, each
            try:
                for _ in range(times):
                    self.fit(l, a, y, ref)
            finally:
                self.iterate = n
            out.append([l.weights.copy() if self.precomputed else l.epsilon.copy(), l.bias.copy(), l.alpha_mat.copy(), l.alpha_bias.copy(), np.array([l.noise_tilde])])
        return {"o": out}

    def relation(self, o, a):
        return [("%s after %d iterations" % (n, self.iterate), u, v) for n, u, v in zip(("weights", "bias", "precisions", "bias precision", "noise"), *o["o"])]


class NoiseSearch(Fit):
    """fit_step(opt_noise=True): the optimiser gets minus the evidence and its derivative, as
    functions of log noise alone, and the fit is the one for the noise it returns"""

    def __init__(self, name, **kw):
        Fit.__init__(self, name, "exp", **kw)
        self.specs["z"] = Real(lo=0.1, hi=0.9)
        self.names = list(self.specs) if hasattr(self, "names") else None
        self.functions = ["GPSKet.supervised.supervised_qgps.QGPSLearningExp." + f for f in ("fit_step", "setup_fit", "setup_fit_noise_dep", "log_marg_lik", "log_marg_lik_noise_der")]

    def go(self, M, xp, a):
        l = self.build(M, xp, a)
        y = self.amps(xp, a)
        z = xp.array([_scalar(a["z"])])
        rec = {}

        def minimize(f, x0, jac=None, bounds=None, callback=None, options=None):
            rec["x0"] = x0
            x0 = xp.array([x0])
            first = f(x0)
            f(z)
            jac(z)
            rec["again"] = f(x0) - first
            rec["jac"] = jac(x0)[0]

            class R:
                x = z
            return R

        old = M.sp, getattr(M, "spo", None)
        M.sp = _Sp(old[0], minimize)
        M.spo = _Sp(old[1], minimize)
        try:
            l.fit_step(a["x"], y, self.refs[0], opt_alpha=False, opt_noise=True, weightings=a.get("w"))
        finally:
            M.sp, M.spo = old
        k = self.build(M, xp, a)
        k.setup_fit(a["x"], y, self.refs[0], weightings=a.get("w"))
        rec["der"] = k.log_marg_lik_noise_der()
        k.noise_tilde = xp.exp(z)[0]
        k.fit_step(a["x"], y, self.refs[0], opt_alpha=False, opt_noise=False, weightings=a.get("w"))
        return {"rec": [np.array([rec[v]]) for v in ("x0", "again", "jac", "der")], "eps": [l.epsilon, k.epsilon], "noise": [np.array([l.noise_tilde])], "amat": l.alpha_mat}

    def relation(self, o, a):
        n = _scalar(a["n"])
        x0, again, jac, der = o["rec"]
        return [("the search starts from the current noise", x0, _arr([ln(n)])),
                ("the objective depends on the noise only", again, _arr([0.0])),
                ("derivative with respect to log noise", jac, -der * n),
                ("noise after the search", o["noise"][0], _arr([ex(_scalar(a["z"]))])),
                ("the fit is the one for that noise", o["eps"][0], o["eps"][1]),
                ("precisions stay", o["amat"], a["a"])]


class _Sp:
    def __init__(self, real, minimize):
        self.real, self.optimize = real, self
        self.minimize = minimize

    def __getattr__(self, n):
        return getattr(self.real, n)


class GenLin(Fit):
    """generalised linear model: one fit is a (damped) Newton step on
        1/2 (beta sum_i c_i |psi_i - exp(K_i w)|^2 + sum alpha |w|^2)"""

    def __init__(self, name, gamma=None, minimize=False, twice=False, **kw):
        self.gamma, self.minimize, self.twice = gamma, minimize, twice
        Fit.__init__(self, name, "gen", **kw)
        if gamma:
            self.specs["g"] = Real()
        self.functions = ["GPSKet.supervised.supervised_qgps.QGPSGenLinMod." + f for f in ("fit_step", "setup_fit", "setup_fit_alpha_dep")]

    def amps(self, xp, a):
        return a["t"] + 1j * a["q"] if self.cplx else a["t"]

    def go(self, M, xp, a):
        l = self.build(M, xp, a)
        y = self.amps(xp, a)
        before = None if "w" not in a else a["w"].copy()
        kw = {"weightings": a.get("w"), "opt_alpha": False, "opt_beta": False}
        if self.prior is not None:
            kw["prior_mean"] = _scalar(a["m"])
        rec = {}
        if self.gamma:
            def linesearch(f, g, w, d):
                rec["ls"] = d.copy()
                return (_scalar(a["g"]),)
            kw["linesearch_fun"] = linesearch
        if self.minimize:
            def minimize(f, w, jac=None, hess=None):
                rec["jac"], rec["hess"], rec["start"] = jac(w), hess(w), w.copy()

                class R:
                    x = w.copy()
                return R
            kw["minimize_fun"] = minimize
        l.fit_step(a["x"], y, self.refs[0], **kw)
        out = {"eps": [l.epsilon.copy()], "bias": [l.bias.copy()], "noise": [np.array([l.noise_tilde])], "rec": {k: v for k, v in rec.items()}, "amat": l.alpha_mat.copy()}
        if self.twice:
            l.fit_step(a["x"], y, self.refs[0], **kw)
            out["eps"].append(l.epsilon.copy())
            out["bias"].append(l.bias.copy())
        if before is not None:
            out["w"] = [before, a["w"]]
        return out

    def relation(self, o, a):
        refs = ref_list(self.refs[0], self.M)
        n = _scalar(a["n"])
        m = _scalar(a["m"]) if self.prior is not None else 0
        K = features(np.asarray(a["eps"]), np.asarray(a["x"]), refs, self.bias)
        nf, F0 = len(K[0]), self.d * self.M
        al = self.precision(np.asarray(a["a"]), a.get("ab"), self.refs[0])
        parts = 2 if self.expand else 1
        F = nf * parts
        half = 0.5 if self.expand else 1
        col = lambda f, i: K[i][f % nf] * (1j if f >= nf else 1)
        part = lambda v: [re(x) for x in v] + [re(-1j * x) for x in v] if self.expand else v
        r = []
        old_e, old_b = a["eps"], np.zeros(1)
        g = _scalar(a["g"]) if self.gamma else 1
        for step in range(len(o["eps"])):
            old = part(self.weight_list(np.asarray(old_e), old_b, self.refs[0], m))
            new = part(self.weight_list(np.asarray(o["eps"][step]), o["bias"][step], self.refs[0], m))
            grad = [al[f // nf][f % nf] * half * old[f] for f in range(F)]
            H = [[(al[f // nf][f % nf] * half if f == h else 0) for h in range(F)] for f in range(F)]
            for i in range(self.N):
                e = 0
                for f in range(F):
                    e = e + col(f, i) * old[f]
                for f in range(F0):
                    e = e + m * K[i][f]
                psi = ex(e)
                t = a["t"][i] + (1j * a["q"][i] if self.cplx else 0)
                c = (a["w"][i] if "w" in a else 1) / n
                for f in range(F):
                    grad[f] = grad[f] - c * re(col(f, i) * psi * cj(t - psi))
                    for h in range(F):
                        H[f][h] = H[f][h] + c * re(col(f, i) * psi * cj(col(h, i) * psi) - col(f, i) * col(h, i) * psi * cj(t - psi))
            for f in range(F):
                v = grad[f] * g
                for h in range(F):
                    v = v + H[f][h] * (new[h] - old[h])
                r.append(("Newton step, equation %d (step %d)" % (f, step), v, 0.0))
            if step == 0 and self.minimize:
                r.append(("gradient of the objective", o["rec"]["jac"], _arr(grad)))
                r.append(("Hessian of the objective", o["rec"]["hess"], _arr(H)))
                r.append(("starting weights", o["rec"]["start"], _arr(old)))
            for s, b, j in itertools.product(range(self.d), range(self.M), range(self.L)):
                if j != refs[b]:
                    r.append(("tensors of other sites stay", o["eps"][step][s, b, j], old_e[s, b, j]))
            old_e, old_b = o["eps"][step], o["bias"][step]
        r.append(("noise stays", o["noise"][0], _arr([n])))
        r.append(("precisions stay", o["amat"], a["a"]))
        if "w" in o:
            r.append(("the caller's weightings are untouched", o["w"][1], o["w"][0]))
        return r


def _scalar(v):
    v = np.asarray(v)[()]
    return v


def _arr2(xp, K, cplx):
    if any(isinstance(v, Expr) for r in K for v in r):
        return npk.karr(K, complex if cplx else float)
    return np.array(K, dtype=complex if cplx else float)


def _iszero(v):
    return v.is_zero() if isinstance(v, Expr) else v == 0


def _isinf(v):
    return v.sp is not None if isinstance(v, Expr) else np.isinf(v)


def scenarios(tier):
    S = []
    T = tier == "thorough"

    def add(cls, name, *k, **kw):
        S.append((name, lambda: cls(name, *k, **kw)))

    for c in ("log", "exp", "gen"):
        add(Predict, "predict_" + c, c)
    add(Predict, "predict_L3", L=3, refs=(0, 2, 1, 0))
    add(Predict, "predict_M2", M=2, refs=(0, (0, 1), (1, 0), 1))
    add(Predict, "predict_sym", T=2)
    add(Predict, "predict_batch", N=2)
    add(Predict, "predict_d4", d=4)
    add(Predict, "predict_bias", "exp", bias=True)
    add(Predict, "predict_cplx", cplx=True, concrete=True)
    add(Predict, "predict_cplx_expand", "exp", cplx=True, concrete=True, expand=True, bias=True)
    add(Predict, "predict_zero", M=2, L=3, concrete=True, zero=True, refs=(1, (0, 2), 1))
    add(Predict, "predict_buffer", buffer=True)
    add(Predict, "predict_eps", eps_change=True)

    add(Fit, "log_y", "log")
    add(Fit, "log_all", "log", sym=("y", "alpha", "w", "noise", "m"), weighted=True, prior=0.5, moderate=False)
    add(Fit, "log_M2", "log", M=2, refs=((0, 1),), weighted=True)
    add(Fit, "log_bias", "log", bias=True, weighted=True, prior=0.5)
    add(Fit, "log_cplx", "log", cplx=True, weighted=True)
    add(Fit, "log_expand", "log", cplx=True, expand=True, weighted=True)
    add(Fit, "log_expand_bias", "log", cplx=True, expand=True, bias=True, prior=0.5)
    add(Fit, "log_missing", "log", confs=[[0, 0], [0, 1]])
    add(Fit, "log_steps", "log", refs=(0, 1, 0), weighted=True, sym=("y0",))
    add(Fit, "log_steps_M2", "log", M=2, L=3, refs=((0, 1), (2, 1)), confs=[[0, 0, 0], [0, 1, 1], [1, 0, 1]], weighted=True, sym=("y0",))
    add(Fit, "log_zero_eps", "log", M=2, zero_eps=True, refs=(0, 1), sym=("y0",))
    add(Fit, "log_pre", "log", precomputed=True, weighted=True)
    add(Fit, "log_pre_expand", "log", precomputed=True, cplx=True, expand=True)
    for tag, kw in (("", {}), ("_rvm", {"rvm": True})):
        add(Fit, "log_alpha" + tag, "log", opt=("alpha",), weighted=True, **kw)
        add(Fit, "log_alpha_noise" + tag, "log", opt=("alpha", "noise"), weighted=True, **kw)
        add(Fit, "log_alpha_bias" + tag, "log", opt=("alpha", "noise"), bias=True, **kw)
        add(Fit, "log_alpha_cplx" + tag, "log", opt=("alpha", "noise"), cplx=True, **kw)
        add(Fit, "log_alpha_expand" + tag, "log", opt=("alpha", "noise"), cplx=True, expand=True, sym=("y0",), **kw)
    two, three = [[0, 0], [1, 1]], [[0, 0], [0, 1], [1, 1]]
    add(Fit, "exp_y", "exp")
    add(Fit, "exp_all", "exp", sym=("y", "w", "noise", "m"), weighted=True, prior=0.5)
    add(Fit, "exp_M2", "exp", M=2, confs=two, refs=((0, 1),), weighted=True)
    add(Fit, "exp_bias", "exp", bias=True, confs=two, weighted=True, prior=0.5, sym=("y0",))
    add(Fit, "exp_cplx", "exp", cplx=True, confs=two, weighted=True, sym=("y0",))
    add(Fit, "exp_expand", "exp", cplx=True, expand=True, confs=two, weighted=True, sym=("y0",))
    add(Fit, "exp_reweight", "exp", reweight=True)
    add(Fit, "exp_alpha", "exp", opt=("alpha",), confs=two, weighted=True, sym=("y0",), positive=True)
    add(Fit, "exp_alpha_rvm", "exp", opt=("alpha",), confs=two, rvm=True, sym=("y0",), positive=True)
    add(Evidence, "evidence_log", "log", sym=("y", "noise"))
    add(Evidence, "evidence_log_bias", "log", bias=True, sym=("y", "noise"), confs=three)
    add(Evidence, "evidence_log_weighted", "log", weighted=True, sym=("y", "w"), value=False)
    add(Evidence, "evidence_log_alpha", "log", sym=("y0", "alpha"), confs=three)
    add(Evidence, "evidence_log_cplx", "log", cplx=True, sym=("y0", "noise"), confs=two)
    add(Evidence, "evidence_log_expand", "log", cplx=True, expand=True, sym=("y0", "noise"), confs=two)
    add(Evidence, "evidence_exp", "exp", sym=("y0",), confs=two)
    add(Evidence, "evidence_exp_quad", "exp", sym=("y", "m"), prior=0.5, weighted=True, noise=0.0, deriv=False)
    add(Evidence, "evidence_exp_quad_expand", "exp", sym=("y",), noise=0.0, cplx=True, expand=True, deriv=False)
    add(Evidence, "evidence_exp_noise", "exp", sym=("noise",), confs=three)
    add(Evidence, "evidence_exp_weighted", "exp", weighted=True, sym=("w",), confs=two, value=False)
    add(Evidence, "evidence_exp_reweight", "exp", reweight=True, sym=("w",), confs=two)
    add(Evidence, "evidence_exp_cplx", "exp", cplx=True, sym=("y0",), confs=two)
    add(Evidence, "evidence_exp_expand", "exp", cplx=True, expand=True, sym=("y0",), confs=two)
    add(Evidence, "evidence_log_off", "log", sym=("y", "noise"), off=(0,))
    add(Evidence, "evidence_exp_off", "exp", sym=("y0",), off=(0,), confs=two)
    add(Evidence, "evidence_exp_off_expand", "exp", cplx=True, expand=True, sym=("y0",), off=(0, 3), confs=two)
    add(Fit, "log_late_noise", "log", late=True, sym=("y", "noise"))
    add(Fit, "exp_late_noise", "exp", late=True, sym=("y0", "noise"), confs=two)
    for tag, kw in (("", {}), ("_rvm", {"rvm": True})):
        add(Iterated, "iterate" + tag, "log", opt=("alpha", "noise"), iterate=2, sym=("y0",), confs=two, positive=True, **kw)
        add(Iterated, "iterate_pre" + tag, "log", opt=("alpha", "noise"), iterate=2, sym=("y0",), precomputed=True, confs=two, positive=True, **kw)
        add(Iterated, "iterate_pre_alpha" + tag, "log", opt=("alpha",), iterate=2, sym=("y0",), precomputed=True, confs=two, positive=True, **kw)
        add(Iterated, "iterate_bias" + tag, "log", opt=("alpha",), iterate=2, sym=("y0",), bias=True, confs=two, positive=True, **kw)
    add(Errors, "errors_log", "log", weighted=True, sym=("y", "w"))
    add(Errors, "errors_log_cplx", "log", cplx=True)
    add(Errors, "errors_exp", "exp", weighted=True, sym=("y",), confs=three)
    add(Errors, "errors_exp_cplx", "exp", cplx=True, sym=("y0", "w"), weighted=True, confs=two)
    add(NoiseSearch, "noise_search", confs=two, sym=("y0",))
    add(NoiseSearch, "noise_search_weighted", confs=two, sym=("noise",), weighted=True)
    add(GenLin, "gen_y", sym=("y",))
    add(GenLin, "gen_steps", sym=("y0",), twice=True, confs=two)
    add(GenLin, "gen_prior", sym=("y", "w"), weighted=True, prior=0.5, confs=three)
    add(GenLin, "gen_bias", sym=("y",), bias=True, confs=three)
    add(GenLin, "gen_M2", M=2, refs=((0, 1),), sym=("y",), confs=three)
    add(GenLin, "gen_line", sym=("y",), gamma=True, confs=three)
    add(GenLin, "gen_minimize", sym=("y",), minimize=True, weighted=True, confs=three)
    add(GenLin, "gen_cplx", sym=("y0",), cplx=True, expand=True, confs=two, strong=16)
    add(GenLin, "gen_cplx_minimize", sym=("y0",), cplx=True, expand=True, minimize=True, confs=two, weighted=True, strong=16)
    add(Fit, "grow_log", "log", grow=0, prior=0.5, weighted=True)
    add(Fit, "grow_exp", "exp", grow=0, prior=0.5, weighted=True, confs=two)
    add(Fit, "grow_expand", "log", grow=0, cplx=True, expand=True, prior=0.5)
    add(Fit, "grow_step", "log", grow=1, d=1, sym=("y0",))
    add(Sparsity, "sparsity_log", "log", bias=True, weighted=True, confs=three)
    add(Sparsity, "sparsity_log_M2", "log", M=2, off=(1,), confs=three)
    add(Sparsity, "sparsity_expand", "log", cplx=True, expand=True, weighted=True, confs=two)
    add(Sparsity, "sparsity_expand_off", "log", cplx=True, expand=True, off=(2,), confs=two)
    add(Sparsity, "sparsity_expand_exp", "exp", cplx=True, expand=True, sym=("y0",), confs=two)
    add(Sparsity, "sparsity_exp", "exp", sym=("y",), confs=two)
    return S
