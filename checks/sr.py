"""Stand-in variational states whose log-derivatives and local energies are free symbols (C21, C22, C26, C27).

log psi(x) = sum_k p_k f_k(x); a "sample" is the row of its features f_k(x), so every Jacobian is reached."""
import types

import netket as nk
import optax
import warnings

from checks.common import *


class Linear:
    """parameters {a: (1,), b: (P-1,)}; kind: rr real->real, rc real->complex, cr complex->real, cc complex->complex (holomorphic)"""

    def __init__(self, kind, P):
        self.kind, self.P = kind, P
        self.F = P if kind == "rr" else 2 * P

    def split(self, x):
        if self.kind == "rr":
            return x
        return x[:, :self.P] + 1j * x[:, self.P:]

    def apply(self, variables, x, *k, **kw):
        p = variables["params"]
        q = jnp.concatenate([p["a"], p["b"]]) if self.P > 1 else p["a"]
        out = self.split(x) @ q
        return out.real if self.kind == "cr" else out

    def params(self, q):
        return {"a": q[:1], "b": q[1:]} if self.P > 1 else {"a": q[:1]}

    def flat(self, p):
        q = jnp.concatenate([p["a"], p["b"]]) if self.P > 1 else p["a"]
        return q

    @property
    def cparams(self):
        return self.kind[0] == "c"

    @property
    def nreal(self):
        return 2 * self.P if self.cparams else self.P

    def jac(self, x):
        """log-derivatives with respect to the real components (re..., im...) of the parameters"""
        z = self.split(x)
        if self.cparams:
            z = jnp.concatenate([z, 1j * z], axis=1)
        if self.kind == "cr":
            z = z.real
        return z

    def to_real(self, q):
        return jnp.concatenate([q.real, q.imag]) if self.cparams else q

    def from_real(self, r):
        return r[:self.P] + 1j * r[self.P:] if self.cparams else r

    def specs(self, n, name="x"):
        return {name: Real(*(n if isinstance(n, tuple) else (n,)), self.F)}

    def pspec(self):
        return {"p": Cplx(self.P) if self.cparams else Real(self.P)}


class StubState:
    """what the drivers and geometric tensors use of a Monte Carlo state; the data changes with every reset()"""

    def __init__(self, model, params, data, chunk_size=None):
        self.lin, self.parameters, self.data = model, params, data
        self.chunk_size = chunk_size
        self.k = -1
        self.hilbert = "H"
        self.model_state = {}
        self._apply_fun = model.apply
        self._model = self.model = model

    def reset(self):
        self.k += 1

    @property
    def variables(self):
        return {"params": self.parameters, **self.model_state}

    @property
    def samples(self):
        return self.data[max(self.k, 0) % len(self.data)][0]

    def local_estimators(self, op, **kw):
        assert op.hilbert == self.hilbert
        return self.data[max(self.k, 0) % len(self.data)][1]

    @property
    def n_parameters(self):
        return nk.jax.tree_size(self.parameters)

    @property
    def n_samples(self):
        return int(np.prod(self.samples.shape[:-1]))

    n_samples_per_rank = n_samples


class Ham:
    hilbert = "H"

    def collect(self):
        return self


def sr_terms(lin, x, E, real_mode=False):
    """(S, g): metric and energy gradient with respect to the real parameter components, S_kl = Re<dO_k* dO_l>, g_k = 2 Re<dO_k* dE>"""
    O = lin.jac(x)
    if real_mode:
        O = O.real
        E = E.real
    N = O.shape[0]
    O = O - O.sum(0) / N
    E = E - E.sum() / N
    S = jnp.einsum("nk,nl->kl", O.conj(), O) / N
    g = 2 * jnp.einsum("nk,n->k", O.conj(), E) / N
    return S.real, g.real


def solve2(A, b):
    """explicit inverse of a 1x1 or 2x2 system"""
    if A.shape[0] == 1:
        return b / A[0]
    det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    return jnp.stack([A[1, 1] * b[0] - A[0, 1] * b[1], A[0, 0] * b[1] - A[1, 0] * b[0]]) / det
