"""C08: the ASEP generator: rates, probability conservation, hermiticity flag."""
import netket as nk

from checks.c01_hubbard_conn import ConnScenario
from checks.fermions import *
from symx import pyexec

NAMES = ("lambd", "alpha", "beta", "gamma", "delta", "p", "q")


def expo(v):
    return poly.exp(v) if isinstance(v, Expr) else np.exp(v)


def asep(x, a):
    """outgoing tilted rates of configuration x (first/last site reservoirs, nearest-neighbour hops)"""
    x = tuple(int(v) for v in x)
    L = len(x)
    w = {k: np.asarray(a[k], dtype=object)[()] for k in NAMES}
    up, dn = expo(w["lambd"]), expo(-w["lambd"])
    d = {}

    def move(y, rate, tilt):
        add(d, tuple(y), rate * tilt)
        add(d, x, -rate)

    for site, inj, inj_t, ext, ext_t in ((0, "alpha", up, "gamma", dn), (L - 1, "beta", dn, "delta", up)):
        y = list(x)
        y[site] = 1 - y[site]
        if x[site] == 0:
            move(y, w[inj], inj_t)
        else:
            move(y, w[ext], ext_t)
    for i in range(L - 1):
        if x[i] != x[i + 1]:
            y = list(x)
            y[i], y[i + 1] = y[i + 1], y[i]
            if x[i]:
                move(y, w["p"], up)
            else:
                move(y, w["q"], dn)
    return d


class AsepConn(ConnScenario):
    def run(self, a):
        r = super().run(a)
        r["hermitian"] = np.asarray(bool(self.make_op(a).is_hermitian))
        return r

    def relation(self, o, a):
        res = super().relation(o, a)
        x = tuple(int(v) for v in np.asarray(a["x"])[0])
        sec = int(o["sections"][0])
        if self.zero:
            tot = 0.0
            for m in o["mels"][:sec]:
                tot = tot + m
            res.append(("probability is conserved", tot, 0.0))
        if bool(o["hermitian"]):
            for y, m in asep(x, a).items():
                res.append(("reported Hermitian implies symmetric", m, asep(y, a)[x]))
        return res


def scenarios(tier):
    from GPSKet.operator.hamiltonian.asep import AsymmetricSimpleExclusionProcess as Op

    out = []
    fns = ["GPSKet.operator.hamiltonian.asep.AsymmetricSimpleExclusionProcess." + m for m in (
        "__init__", "is_hermitian", "get_conn_flattened", "_get_conn_flattened_kernel")] + [
        "GPSKet.operator.asep." + m for m in ("apply_creation", "apply_annihilation", "apply_hopping", "apply_particle_hole")]

    def sc(name, L, B=1, zero=False, dtype=np.int8, herm=None, same=None):
        def build():
            h = nk.hilbert.Qubit(L)
            specs = {"x": Int(B, L, dtype=dtype, lo=0, hi=1)}
            for k in NAMES:
                specs[k] = Real(positive=k != "lambd", lo=0.2, hi=0.9)
            if zero:
                specs["lambd"] = Const(0.0)
            if same is not None:
                for k in NAMES[1:]:
                    specs[k] = Const(same)
            if same is None and not zero:
                specs["p"] = Real(positive=True, lo=0.2, hi=0.9)

            def make(a):
                g = lambda v: v if isinstance(v, Expr) else np.asarray(v)[()] if np.asarray(v).dtype == object else float(np.asarray(v)[()])
                return Op(h, **{k: g(a[k]) for k in NAMES})
            s = AsepConn(make, lambda x, a: asep(x, a), specs, L, B, None, padded=True, functions=fns,
                         bound="L=%d, all configurations, batch %d, %s" % (L, B, "all rates %s" % same if same else
                               "all rates symbolic%s" % (", lambda = 0" if zero else " and lambda symbolic")))
            s.zero = zero
            return s
        out.append((name, build))

    for L in (1, 2, 3, 4):
        sc("L%d" % L, L)
        sc("L%d_lambda0" % L, L, zero=True)
    sc("L2_batch2", 2, B=2)
    sc("L2_batch3", 2, B=3)
    sc("L3_equal_rates", 3, zero=True, same=0.5)
    sc("L3_uint8", 3, dtype=np.uint8)
    sc("L5", 5)
    if tier == "thorough":
        sc("L6", 6)
        sc("L7_lambda0", 7, zero=True)
        sc("L3_batch2", 3, B=2)
    return out
