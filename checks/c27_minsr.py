"""C27: the minSR driver's update is the regularised SR solution S^-1 F computed in sample space."""
from checks.sr import *


def inverse(A):
    """adjugate / determinant, for matrices up to 4x4"""
    n = A.shape[0]

    def det(rows, cols):
        if len(rows) == 1:
            return A[rows[0], cols[0]]
        return sum((-1) ** k * A[rows[0], c] * det(rows[1:], cols[:k] + cols[k + 1:]) for k, c in enumerate(cols))

    if n == 1:
        return 1 / A
    full = tuple(range(n))
    d = det(full, full)
    adj = [[(-1) ** (i + j) * det(full[:j] + full[j + 1:], full[:i] + full[i + 1:]) for j in range(n)] for i in range(n)]
    return jnp.stack([jnp.stack(r) for r in adj]) / d


class MinSR(Scenario):
    """solver: 'b' returns the right-hand side (update = F), 'A' applies the kernel (update = S F),
    'reg' solves with the kernel shifted by lam (update = (S + lam)^-1 F), 'default' is the driver's own
    least-squares solver (update = the solution d of S d = F of least norm)"""

    lockstep = False

    def __init__(self, name, kind, P=2, N=2, chains=None, chunk=None, solver="b", weights=False, holomorphic=None, mode=None, Ereal=False):
        self.lin = Linear(kind, P)
        self.N, self.chains, self.chunk, self.solver, self.weights = N, chains, chunk, solver, weights
        self.holomorphic, self.mode = holomorphic, mode
        sh = ((chains,) if chains else ()) + (N,)
        sp = {"x": Real(*sh, self.lin.F), "e": Real(*sh) if Ereal else Cplx(*sh)}
        sp.update(self.lin.pspec())
        if solver == "reg":
            sp["lam"] = Real(positive=True)
        if weights:
            sp["c"] = Real(N, positive=True)
        Scenario.__init__(self, name, sp, self.call)
        self.functions = ["GPSKet.driver.minSR.minSRVMC._forward_and_backward", "GPSKet.driver.minSR.minSRVMC.__init__", "GPSKet.driver.minSR._statistics"]
        self.bound = "%d parameter(s) (%s%s), %s samples%s, chunk size %s, solver %s" % (
            P, kind, ", holomorphic" if holomorphic else "", "x".join(map(str, sh)), " with weights" if weights else "", chunk,
            {"b": "identity", "A": "kernel product", "reg": "shifted inverse", "default": "the default least squares"}[solver])

    def call(self, x, e, p, lam=None, c=None):
        from GPSKet.driver import minSRVMC

        lin = self.lin
        n = int(np.prod(x.shape[:-1]))
        # squares so that the weights' roots are polynomials; any positive weights of sum one
        wt = jnp.ones(n) / n if c is None else c ** 2 / (c ** 2).sum()
        st = StubState(lin, lin.params(p), [(x, e)], self.chunk)
        if c is not None:
            st.samples_with_counts = (x, wt)
        if self.solver == "b":
            sol = lambda A, b: b
        elif self.solver == "A":
            sol = lambda A, b: A @ b
        elif self.solver == "reg":
            sol = lambda A, b: inverse(A + lam * jnp.eye(A.shape[0])) @ b
        kw = {"solver": sol} if self.solver != "default" else {}
        kw.update({"mode": self.mode} if self.mode else {"holomorphic": self.holomorphic})
        with jax.ensure_compile_time_eval(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            drv = minSRVMC(Ham(), optax.sgd(0.5), variational_state=st, **kw)
            drv.advance(1)
        got = lin.flat(st.parameters)
        # reference in parameter space
        xs, es = x.reshape(-1, lin.F), e.reshape(-1)
        if self.holomorphic:
            O = lin.split(xs)
        else:
            O = lin.jac(xs)
        if self.mode == "real":
            O = O.real
        O = O - jnp.einsum("n,nk->k", wt, O)
        m = (wt * es).sum()
        E = es - m
        F = jnp.einsum("n,nk,n->k", wt, O.conj(), E)
        S = jnp.einsum("n,nk,nl->kl", wt, O.conj(), O)
        if not self.holomorphic:
            F, S = F.real, S.real
        if self.solver == "default":
            # an equation for the update (there are at least as many samples as needed for S of full rank)
            d = (p - got) / 0.5
            d = d if self.holomorphic else lin.to_real(d)
            return {"got": S @ d, "want": F, "en": drv.energy.mean, "ew": m}
        d = F if self.solver == "b" else S @ F if self.solver == "A" else inverse(S + lam * jnp.eye(len(F))) @ F
        want = p - 0.5 * (d if self.holomorphic else lin.from_real(d))
        return {"got": got, "want": want, "en": drv.energy.mean, "ew": m}

    def relation(self, o, a):
        return [("updated parameters", o["got"], o["want"]), ("energy", o["en"], o["ew"])]


def scenarios(tier):
    S = []

    def add(name, *k, **kw):
        S.append((name, lambda: MinSR(name, *k, **kw)))

    add("rr", "rr")
    add("rr_chains", "rr", chains=2)
    add("rr_kernel", "rr", solver="A")
    add("rr_kernel_chains", "rr", chains=2, solver="A", P=1)
    add("rr_kernel_chunks", "rr", N=4, chunk=2, solver="A", P=1)
    add("rr_chunks_chains", "rr", N=2, chains=3, chunk=2, solver="A", P=1)
    add("rr_reg", "rr", solver="reg", P=1)
    add("rr_reg_2", "rr", solver="reg", P=2, Ereal=True)
    add("rr_weights", "rr", weights=True, solver="A", P=1)
    add("rr_weights_chunks", "rr", N=4, weights=True, chunk=2, P=1)
    add("cc_holo", "cc", holomorphic=True)
    add("cc_holo_kernel", "cc", holomorphic=True, solver="A", P=1)
    add("cc_holo_reg", "cc", holomorphic=True, solver="reg", P=1)
    add("cc_holo_kernel_3", "cc", holomorphic=True, solver="A", P=1, N=3)
    add("cc_holo_kernel_P2", "cc", holomorphic=True, solver="A", P=2, N=2)
    add("rr_default", "rr", solver="default", P=1)
    add("cc_holo_default", "cc", holomorphic=True, solver="default", P=1)
    add("cc_holo_default_3", "cc", holomorphic=True, solver="default", P=1, N=3)
    add("rc_complex_default", "rc", solver="default", P=1)
    add("cc_holo_chains", "cc", holomorphic=True, chains=2, P=1)
    add("cc_holo_weights", "cc", holomorphic=True, weights=True, P=1)
    add("cc_complex", "cc")
    add("cc_complex_kernel", "cc", P=1, solver="A")
    add("cc_complex_reg", "cc", P=1, solver="reg")
    add("rc_complex", "rc")
    add("rc_complex_kernel", "rc", P=1, solver="A")
    add("rc_complex_reg", "rc", P=1, solver="reg")
    add("rc_complex_chunks", "rc", P=1, N=4, chunk=2, solver="A")
    add("rc_complex_weights", "rc", P=1, weights=True, solver="A")
    add("rc_realmode", "rc", P=1, mode="real", solver="A")
    add("cr", "cr", P=1, solver="A")
    if tier == "thorough":
        add("rr_default_3", "rr", solver="default", P=2, N=3, Ereal=True)
        add("cc_complex_default", "cc", solver="default", P=1)
    return S
