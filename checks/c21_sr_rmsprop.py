"""C21: SR with RMSProp regularisation takes the step its linear system defines; the geometric tensors agree with it."""
from checks.sr import *


def times(A, b):
    return A @ b


def times_tuple(A, b):
    return A @ b, None


def rhs(A, b):
    return b


class Driver(Scenario):
    """the driver runs `steps` optimisation steps on a fresh set of symbolic samples each"""

    lockstep = False

    def __init__(self, name, kind, P=2, N=2, chains=1, steps=1, solver=times, chunk_size=None, mode=None, schedule=False, history=False, Ereal=False):
        self.lin = Linear(kind, P)
        self.N, self.chains, self.steps, self.solver, self.chunk, self.mode = N, chains, steps, solver, chunk_size, mode
        self.schedule, self.history = schedule, history
        sp = {}
        for t in range(steps):
            sp["x%d" % t] = Real(chains, N, self.lin.F)
            sp["e%d" % t] = Real(chains, N) if Ereal else Cplx(chains, N)
        sp.update(self.lin.pspec())
        sp.update(shift=Real(steps), decay=Real(lo=0.2, hi=0.8, positive=True), eps=Real(positive=True), init=Real(positive=True))
        Scenario.__init__(self, name, sp, self.call)
        self.functions = ["GPSKet.driver.VMC_SRRMSProp.VMC_SRRMSProp._forward_and_backward", "GPSKet.driver.VMC_SRRMSProp.SRRMSProp"]
        self.bound = "%d parameter(s) (%s), %d chain(s) of %d samples, %d step(s), solver %s, chunk size %s" % (
            P, kind, chains, N, steps, getattr(solver, "__name__", solver), chunk_size)

    def call(self, p, shift, decay, eps, init, **a):
        from GPSKet.driver import VMC_SRRMSProp

        lin = self.lin
        data = [(a["x%d" % t], a["e%d" % t]) for t in range(self.steps)]
        st = StubState(lin, lin.params(p), data, self.chunk)
        kw = {} if self.solver is None else {"linear_solver_fn": self.solver}
        d = (lambda t: jnp.take(shift, t)) if self.schedule else shift[0]
        drv = VMC_SRRMSProp(Ham(), optax.sgd(0.5), diag_shift=d, decay=decay, eps=eps, initial_scale=init, variational_state=st,
                            jacobian_mode=self.mode, **kw)
        got, want, en, ew = [], [], [], []
        q, ema = p, init * jnp.ones(lin.nreal)
        mode = self.mode or ("real" if lin.kind in ("rr", "cr") else "complex")
        for t in range(self.steps):
            drv.advance(1)
            got.append(lin.flat(st.parameters))
            en.append(drv.energy.mean)
            x, E = data[t][0].reshape(-1, lin.F), data[t][1].reshape(-1)
            S, g = sr_terms(lin, x, E, mode == "real")
            ema = decay * ema + (1 - decay) * g ** 2
            A = S + (shift[t] if self.schedule else shift[0]) * jnp.diag(jnp.sqrt(ema / (1 - decay ** (t + 1))) + eps)
            r = (self.solver or solve2)(A, g)
            q = q - 0.5 * lin.from_real(r[0] if isinstance(r, tuple) else r)
            want.append(q)
            ew.append(E.mean())
        return {"got": got, "want": want, "en": en, "ew": ew}

    def relation(self, o, a):
        r = []
        for t in range(self.steps):
            r.append(("parameters after step %d" % t, o["got"][t], o["want"][t]))
            r.append(("energy of step %d" % t, o["en"][t], o["ew"][t]))
        return r


class DefaultSolver(Driver):
    """the driver's default solver on one parameter and two samples with features (f, 0), energies (e, 0), no shift"""

    def __init__(self, name):
        Driver.__init__(self, name, "rr", P=1, N=2, solver=None, Ereal=True)
        Scenario.__init__(self, name, {"f": Real(), "e": Real(), "p": Real(1)}, self.one)
        self.bound = "one parameter, two samples, default (conjugate-gradient) solver, no shift"

    def one(self, f, e, p):
        x = jnp.stack([f, 0 * f]).reshape(1, 2, 1)
        E = jnp.stack([e, 0 * e]).reshape(1, 2)
        o = self.call(p, jnp.zeros(1), 0.5, 1.0, 0.0, x0=x, e0=E)
        S, g = sr_terms(self.lin, x[0], E[0])
        return {"Sdp": S @ (2 * (p - o["got"][0])), "g": g}

    def relation(self, o, a):
        return [("the step solves the linear system", o["Sdp"], o["g"])]


def mul_solver(A, b, x0=None, **kw):
    """stands for a linear solver: applies the operator, so that every entry of the system shows"""
    return A @ b, None


def unique_state(lin, params, x, counts, **kw):
    from GPSKet.vqs import MCStateUniqueSamples

    class U(StubState, MCStateUniqueSamples):
        __init__ = StubState.__init__
        samples = StubState.samples
        parameters = None
        hilbert = model_state = chunk_size = _apply_fun = model = None
        n_samples = n_samples_per_rank = n_parameters = variables = local_estimators = reset = None
        samples_with_counts = property(lambda s: (s.data[0][0], s.data[0][1]))
        __repr__ = object.__repr__

    return U(lin, params, [(x, counts)], **kw)


def full_state(lin, params, x, p, **kw):
    class U(StubState, nk.vqs.FullSumState):
        __init__ = StubState.__init__
        samples = parameters = _all_states = None
        hilbert = model_state = chunk_size = _apply_fun = model = None
        n_samples = n_samples_per_rank = n_parameters = variables = local_estimators = reset = None
        __repr__ = object.__repr__

        def probability_distribution(self):
            return self.data[0][1]

    u = U(lin, params, [(x, p)], **kw)
    u._all_states = x
    return u


def metric(lin, x, w, real_mode=False):
    """Re <dO_k* dO_l> with weights w"""
    O = lin.jac(x)
    if real_mode:
        O = O.real
    O = O - jnp.einsum("n,nk->k", w, O)
    return jnp.einsum("n,nk,nl->kl", w, O.conj(), O).real


class Tensor(Scenario):
    """both geometric tensors: dense form, products with trees and vectors, solves"""

    lockstep = False

    def __init__(self, name, kind, cls, P=2, N=4, weights=None, shift=0.25, mode=None, chunk_size=None, kw=None, chains=None):
        self.lin, self.cls, self.weights, self.shift, self.mode, self.chunk, self.kw = Linear(kind, P), cls, weights, shift, mode, chunk_size, kw or {}
        self.N, self.chains = N, chains
        n = self.lin.nreal
        sp = {"x": Real(*((chains,) if chains else ()), N, self.lin.F), "nu": Real(n, positive=True), "v": Real(n), "eps": Real(positive=True)}
        sp.update(self.lin.pspec())
        if weights:
            sp["w"] = Real(N - 1, positive=True, lo=0.1, hi=0.3)
        Scenario.__init__(self, name, sp, self.call)
        self.functions = ["GPSKet.optimizer.qgt.%s" % cls, "GPSKet.optimizer.qgt.%sT.__matmul__" % cls, "GPSKet.optimizer.qgt.%sT.to_dense" % cls,
                          "GPSKet.optimizer.qgt.%sT._solve" % cls]
        self.bound = "%d parameter(s) (%s), %d samples%s, mode %s, shift %s" % (P, kind, N, " with weights" if weights else "", mode, shift)

    def call(self, x, nu, v, eps, p, w=None):
        import GPSKet.optimizer.qgt as G

        lin = self.lin
        par = lin.params(p)
        xs = x.reshape(-1, lin.F)
        n = xs.shape[0]
        if w is None:
            st, wt = StubState(lin, par, [(x, None)], self.chunk), jnp.ones(n) / n
        else:
            wt = jnp.concatenate([w, 1 - w.sum(keepdims=True)])
            st = (unique_state if self.weights == "unique" else full_state)(lin, par, x, wt, chunk_size=self.chunk)
        kw = dict(self.kw)
        if self.mode is not None:
            kw["mode"] = self.mode
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            A = getattr(G, self.cls)(st, lin.params(lin.from_real(nu)), diag_shift=self.shift, eps=eps, **kw)
        real_mode = lin.kind in ("rr", "cr") or self.mode == "real"
        ref = (1 - self.shift) * metric(lin, xs, wt, real_mode) + self.shift * jnp.diag(jnp.sqrt(nu) + eps)
        tree = lin.params(lin.from_real(v))
        o = {"tree": lin.to_real(lin.flat(A @ tree)), "ref": ref @ v}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s, _ = A.solve(mul_solver, tree)
        o["solve"] = lin.to_real(lin.flat(s))
        if self.cls == "QGTJacobianDenseRMSProp" or not lin.cparams:
            o["vec"] = A @ v
            o["dense"] = A.to_dense()
            o["mat"] = ref
        elif self.kw.get("holomorphic"):
            # complex parameters: the columns are the images of the unit vectors
            P = lin.flat(par).shape[0]
            o["dense"] = A.to_dense()
            o["cols"] = jnp.stack([lin.flat(A @ lin.params(jnp.asarray(np.eye(P)[i], complex))) for i in range(P)], axis=1)
        return o

    def relation(self, o, a):
        r = [("product with a parameter tree", o["tree"], o["ref"]), ("operator seen by the solver", o["solve"], o["ref"])]
        if "cols" in o:
            r.append(("columns of the dense matrix", o["dense"], o["cols"]))
        if "vec" in o:
            r += [("product with a vector", o["vec"], o["ref"]), ("dense matrix", o["dense"], o["mat"])]
        return r


class Preconditioner(Scenario):
    """SRRMSProp called on successive gradients"""

    lockstep = False

    def __init__(self, name, kind, P=1, N=4, steps=2, qgt=None, schedule=False, kw=None):
        self.lin, self.steps, self.qgt, self.schedule, self.kw, self.N = Linear(kind, P), steps, qgt, schedule, kw or {}, N
        sp = {"x": Real(N, self.lin.F), "decay": Real(lo=0.2, hi=0.8, positive=True), "eps": Real(positive=True)}
        for t in range(steps):
            sp["g%d" % t] = Real(self.lin.nreal)
        if not self.lin.cparams:
            sp["init"] = Real(positive=True)
        sp.update(self.lin.pspec())
        Scenario.__init__(self, name, sp, self.call)
        self.functions = ["GPSKet.optimizer.SRRMSProp.__call__", "GPSKet.optimizer.SRRMSProp.lhs_constructor"]
        self.bound = "%d parameter(s) (%s), %d samples, %d steps, %s" % (P, kind, N, steps, qgt or "default tensor")

    def call(self, x, decay, eps, p, init=0.0, **g):
        import GPSKet.optimizer as GO

        lin = self.lin
        st = StubState(lin, lin.params(p), [(x, None)])
        kw = dict(self.kw)
        if self.qgt:
            kw["qgt"] = getattr(GO.qgt, self.qgt)
        d = [0.25, 0.125, 0.5]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pre = GO.SRRMSProp(lin.params(p), solver=mul_solver, diag_shift=(lambda t: d[t]) if self.schedule else d[0], decay=decay, eps=eps,
                               initial_scale=init, **kw)
            got = [lin.to_real(lin.flat(pre(st, lin.params(lin.from_real(g["g%d" % t])), t))) for t in range(self.steps)]
        want = []
        nu = init * jnp.ones(lin.nreal)
        S = metric(lin, x, jnp.ones(self.N) / self.N, lin.kind in ("rr", "cr"))
        for t in range(self.steps):
            r = g["g%d" % t]
            nu = decay * nu + (1 - decay) * r ** 2
            s = d[t] if self.schedule else d[0]
            want.append((1 - s) * (S @ r) + s * (jnp.sqrt(nu / (1 - decay ** (t + 1))) + eps) * r)
        return {"got": got, "want": want}

    def relation(self, o, a):
        return [("system solved at step %d" % t, o["got"][t], o["want"][t]) for t in range(self.steps)]


class DenseTensor:
    def __init__(self, M):
        self.M = M

    def to_dense(self):
        return self.M


class Dense(Scenario):
    """the dense SR preconditioner hands its solver the dense tensor and the ravelled gradient"""

    lockstep = False

    def __init__(self, name, kind="rr", P=2, default=False):
        self.lin, self.default = Linear(kind, P), default
        sp = {"M": Cplx(P, P) if kind[0] == "c" else Real(P, P), "g": Cplx(P) if kind[0] == "c" else Real(P)}
        Scenario.__init__(self, name, sp, self.call)
        self.functions = ["GPSKet.optimizer.SRDense.__call__"] + (["GPSKet.optimizer.solvers.pinv"] if default else [])
        self.bound = "%d parameter(s) (%s)%s" % (P, kind, ", default solver" if default else "")

    def call(self, M, g):
        import GPSKet.optimizer as GO

        lin = self.lin
        if self.default:
            M = M + jnp.conj(M).T
        qgt = lambda vs: DenseTensor(M)
        pre = GO.SRDense(qgt) if self.default else GO.SRDense(qgt, solver=solve2)
        x = M @ lin.flat(pre(None, lin.params(g)))
        # the default solver is a pseudo-inverse: normal equations
        return {"x": M @ x, "g": M @ g} if self.default else {"x": x, "g": g}

    def relation(self, o, a):
        return [("solution of the dense system", o["x"], o["g"])]


def scenarios(tier):
    S = []

    def add(cls, name, *k, **kw):
        S.append((name, lambda: cls(name, *k, **kw)))

    add(Driver, "driver_rr", "rr")
    add(Driver, "driver_rr_b", "rr", solver=rhs)
    add(Driver, "driver_rr_chains", "rr", chains=2, solver=rhs)
    add(Driver, "driver_rr_solve", "rr", solver=solve2)
    add(DefaultSolver, "driver_rr_cg")
    add(Driver, "driver_rc", "rc")
    add(Driver, "driver_cc", "cc", P=1)
    add(Driver, "driver_cc_b", "cc", P=2, solver=rhs)
    add(Driver, "driver_cr", "cr", P=1)
    add(Driver, "driver_rr_chunk", "rr", N=4, chunk_size=2, solver=rhs)
    add(Driver, "driver_tuple", "rr", P=1, solver=times_tuple)
    add(Driver, "driver_two_steps", "rr", P=1, steps=2, schedule=True)
    J, F = "QGTJacobianDenseRMSProp", "QGTOnTheFlyRMSProp"
    for kind in ("rr", "rc", "cc", "cr"):
        P = 2 if kind[0] == "r" else 1
        add(Tensor, "dense_" + kind, kind, J, P=P)
        add(Tensor, "otf_" + kind, kind, F, P=P)
    add(Tensor, "dense_cc_2", "cc", J, P=2)
    add(Tensor, "otf_cc_2", "cc", F, P=2)
    add(Tensor, "otf_cc_holomorphic", "cc", F, P=1, kw={"holomorphic": True})
    add(Tensor, "dense_rc_mode", "rc", J, P=2, mode="complex")
    add(Tensor, "dense_rc_realmode", "rc", J, P=2, mode="real")
    add(Tensor, "dense_rr_chains", "rr", J, P=2, N=2, chains=2)
    add(Tensor, "otf_rr_chains", "rr", F, P=2, N=2, chains=2)
    add(Tensor, "dense_rr_chunk", "rr", J, P=2, N=4, chunk_size=2)
    add(Tensor, "dense_rr_unique", "rr", J, P=2, N=3, weights="unique")
    add(Tensor, "dense_rc_unique", "rc", J, P=1, N=2, weights="unique")
    add(Tensor, "dense_cc_fullsum", "cc", J, P=1, N=2, weights="full")
    add(Tensor, "dense_rr_shift0", "rr", J, P=2, shift=0.0)
    add(Tensor, "dense_rr_shift1", "rr", J, P=2, shift=1.0)
    for kind in ("rr", "rc", "cc"):
        add(Preconditioner, "precond_" + kind, kind)
        add(Preconditioner, "precond_otf_" + kind, kind, qgt=F)
    add(Preconditioner, "precond_schedule", "rr", schedule=True)
    add(Preconditioner, "precond_two_params", "rr", P=2)
    add(Dense, "srdense_rr")
    add(Dense, "srdense_cc", "cc")
    add(Dense, "srdense_rr_1", P=1)
    add(Dense, "srdense_default", P=1, default=True)
    add(Dense, "srdense_default_rr2", "rr", P=2, default=True)
    add(Dense, "srdense_default_cc2", "cc", P=2, default=True)
    add(Tensor, "otf_cc_holomorphic_2", "cc", F, P=2, kw={"holomorphic": True})
    return S
