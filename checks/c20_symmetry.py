"""C20: symmetrised models are invariant under their symmetry group; the inverse operations describe the changed copies.

Group elements are enumerated independently of the library (permutations of the sites that preserve the edges); the solver
chooses configuration and group element, the parameters are symbolic."""
import netket as nk
from netket.utils import HashableArray

from checks.common import *
from checks.ar import ARModel, spin, causal_masks


def graph_of(name):
    if name.startswith("chain"):
        return nk.graph.Chain(int(name[5]), pbc=not name.endswith("o"))
    if name == "square":
        return nk.graph.Square(2, pbc=False)
    if name == "star":
        return nk.graph.Graph(edges=[(0, 1), (0, 2), (0, 3)])
    if name == "paw":
        return nk.graph.Graph(edges=[(0, 1), (1, 2), (0, 2), (2, 3)])
    if name == "complete3":
        return nk.graph.Graph(edges=[(0, 1), (1, 2), (0, 2)])
    raise KeyError(name)


def group(g):
    n = g.n_nodes
    E = {frozenset(e) for e in g.edges()}
    return [p for p in itertools.permutations(range(n)) if {frozenset(p[i] for i in e) for e in E} == E]


class Invariance(Scenario):
    """log-amplitude of x and of its image under group element g, f"""

    def __init__(self, name, build, gname, aut, flip, functions, ar=False, batch=1, modulus=False):
        from GPSKet.models import get_sym_transformation_spin

        self.g = graph_of(gname)
        self.modulus = modulus  # the phase of a ModPhase model is, by its documentation, a plain (unsymmetrised) qGPS
        self.L = self.g.n_nodes
        self.perms = group(self.g) if aut else [tuple(range(self.L))]
        self.flip = flip
        if ar and flip:
            # autoregressive models apply the symmetries to the +-1 values rather than to the local indices 0/1
            s0, s1 = get_sym_transformation_spin(self.g, aut, False)

            def inverse(o, s):
                occ, sites = s1(o, s)
                return jnp.concatenate((occ, -occ), axis=-1), jnp.concatenate((sites, sites), axis=-1)

            syms = (lambda x: jnp.concatenate((s0(x), -s0(x)), axis=-1)), inverse
        else:
            syms = get_sym_transformation_spin(self.g, aut, flip)
        self.hi = spin(self.L)
        self.model = build(self.hi, syms)
        ex = np.full((1, self.L), -1, dtype=np.int8)
        if ar:
            m = ARModel(self.model, self.hi, np.int8)
            self.names, leaves, self.apply = m.names, m.leaves, lambda a, x: m.logpsi(a, x)
        else:
            self.names, leaves, tree, others = flat_params(self.model, ex)
            self.apply = lambda a, x: self.model.apply({"params": jax.tree_util.tree_unflatten(tree, [a[n] for n in self.names]),
                                                        **others}, x)
        specs = dict(param_specs(self.names, leaves))
        specs.update(x=Int(batch, self.L, dtype=np.int8, lo=-1, hi=1), g=Int(dtype=np.uint8, lo=0, hi=len(self.perms) - 1),
                     f=Int(dtype=np.uint8, lo=0, hi=1 if flip else 0))
        Scenario.__init__(self, name, specs, self.call)
        self.functions = ["GPSKet.models.qGPS.get_sym_transformation_spin"] + functions
        self.bound = "%s (%d sites, %d automorphisms), spin flip %s, all group elements and configurations" % (
            gname, self.L, len(self.perms), flip)

    def assume(self, a):
        return [v != 0 for v in np.asarray(a["x"]).reshape(-1)]

    def call(self, x, g, f, **a):
        P = jnp.asarray(np.array(self.perms))
        y = jnp.take(x, P[g], axis=-1)
        y = jnp.where(f == 1, -y, y)
        part = jnp.real if self.modulus else (lambda v: v)
        return {"x": part(self.apply(a, x)), "y": part(self.apply(a, y))}

    def relation(self, o, a):
        return [("amplitude of an equivalent configuration", o["y"], o["x"], "log")]


class Copies(Scenario):
    """the copies are the images under the group; the inverse operations say which entries of each copy change"""

    def __init__(self, name, gname, aut, flip, K=2):
        from GPSKet.models import get_sym_transformation_spin

        self.g = graph_of(gname)
        self.L = self.g.n_nodes
        self.perms = group(self.g) if aut else [tuple(range(self.L))]
        self.flip, self.K = flip, K
        self.sym, self.inv = get_sym_transformation_spin(self.g, aut, flip)
        Scenario.__init__(self, name, {"x": Int(self.L, dtype=np.int32, lo=0, hi=1), "s": Int(K, dtype=np.int32, lo=0, hi=self.L - 1),
                                       "o": Int(K, dtype=np.int32, lo=0, hi=1)}, self.call)
        self.functions = ["GPSKet.models.qGPS.get_sym_transformation_spin"]
        self.bound = "%s (%d sites), flip %s, any %d distinct updated sites" % (gname, self.L, flip, K)

    def assume(self, a):
        return [z3.Distinct(*a["s"])] if self.K > 1 else []

    def call(self, x, s, o):
        new = apply_updates(x[None], o[None], s[None])[0]
        occ, sites = self.inv(o, s)
        return {"old": self.sym(x), "new": self.sym(new), "occ": occ, "sites": sites}

    def relation(self, o, a):
        o = {k: np.asarray(v) for k, v in o.items()}
        T = len(self.perms) * (2 if self.flip else 1)
        shapes = [o["old"].shape, o["new"].shape, o["occ"].shape, o["sites"].shape]
        if shapes != [(self.L, T), (self.L, T), (self.K, T), (self.K, T)]:
            return [("shapes of the copies", False)]
        o = {k: v.astype(int) for k, v in o.items()}
        x = [int(v) for v in a["x"]]
        want = sorted(tuple(x[p[i]] for i in range(self.L)) for p in self.perms)
        if self.flip:
            want = sorted(want + [tuple(1 - v for v in w) for w in want])
        rel = [("copies are the images under the group", sorted(tuple(int(v) for v in o["old"][:, t]) for t in range(T)) == want)]
        ok = True
        for t in range(T):
            y = list(o["old"][:, t])
            for k in range(self.K):
                if not 0 <= o["sites"][k, t] < self.L:
                    ok = False
                    break
                y[o["sites"][k, t]] = o["occ"][k, t]
            ok = ok and y == list(o["new"][:, t])
        rel.append(("inverse operations describe the changed copies", ok))
        return rel


def scenarios(tier):
    from GPSKet import models as mo

    S = []
    Cx = jnp.complex128

    def inv(name, build, *k, **kw):
        S.append((name, lambda: Invariance(name, build, *k, **kw)))

    def q(hi, syms):
        return mo.qGPS(hi, 2, dtype=Cx, syms=syms)

    Q = ["GPSKet.models.qGPS.qGPS.__call__"]
    for g in ("chain3", "chain4", "chain4o", "square", "star", "paw"):
        for aut in (True, False):
            for flip in (True, False):
                if aut or g == "chain3":
                    S.append(("copies_%s_%d%d" % (g, aut, flip), lambda g=g, aut=aut, flip=flip: Copies("", g, aut, flip)))
    S.append(("copies_chain4_K1", lambda: Copies("", "chain4", True, True, K=1)))
    inv("qgps_chain3", q, "chain3", True, True, Q)
    inv("qgps_chain4", q, "chain4", True, True, Q)
    inv("qgps_chain4_noflip", q, "chain4", True, False, Q)
    inv("qgps_chain4o", q, "chain4o", True, True, Q)
    inv("qgps_paw", q, "paw", True, True, Q)
    inv("qgps_star", lambda hi, s: mo.qGPS(hi, 1, dtype=Cx, syms=s), "star", True, False, Q)
    inv("qgps_chain3_fliponly", q, "chain3", False, True, Q, batch=2)
    inv("qgps_chain3_logsum", lambda hi, s: mo.qGPS(hi, 2, dtype=Cx, syms=s, out_transformation=lambda a: jnp.log(
        jnp.sum(a, axis=(-2, -1)))), "chain3", True, True, Q)
    PQ = ["GPSKet.models.plaquetteqGPS.PlaquetteqGPS.__call__"]
    inv("plaquette_chain3", lambda hi, s: mo.PlaquetteqGPS(hi, 2, HashableArray(np.array([[0, 1]])), dtype=Cx, syms=s), "chain3", True, True, PQ)
    inv("plaquette_chain4", lambda hi, s: mo.PlaquetteqGPS(hi, 1, HashableArray(np.array([[0, 1], [3, 0]])), dtype=Cx, syms=s),
        "chain4", True, True, PQ)
    AR = ["GPSKet.models.autoreg_qGPS.ARqGPS.__call__"]
    for g, aut, flip in (("chain2o", True, True), ("chain3", True, False), ("chain3", False, True)):
        nm = "%s_%d%d" % (g, aut, flip)
        inv("arqgps_" + nm, lambda hi, s: mo.ARqGPS(hi, 1, dtype=jnp.float64, apply_symmetries=s[0]), g, aut, flip, AR, ar=True)
        inv("arfull_" + nm, lambda hi, s: mo.ARqGPSFull(hi, 1, dtype=jnp.float64, apply_symmetries=s), g, aut, flip,
            ["GPSKet.models.autoreg_qGPS_full.ARqGPSFull.__call__"], ar=True)
        inv("arplaquette_" + nm, lambda hi, s: mo.ARPlaquetteqGPS(hi, 1, dtype=jnp.float64, apply_symmetries=s[0], **causal_masks(hi.size)),
            g, aut, flip, ["GPSKet.models.autoreg_plaquetteqGPS.ARPlaquetteqGPS.__call__"], ar=True)
    for g, aut, flip in (("chain2o", True, True), ("chain3", True, False)):
        nm = "%s_%d%d" % (g, aut, flip)
        inv("armodphase_" + nm, lambda hi, s: mo.ARqGPSModPhase(hi, 1, dtype=jnp.float64, apply_symmetries=s[0]), g, aut, flip,
            ["GPSKet.models.autoreg_qGPS.ARqGPSModPhase.__call__"], ar=True, modulus=True)
        inv("armodphasefull_" + nm, lambda hi, s: mo.ARqGPSModPhaseFull(hi, 1, dtype=jnp.float64, apply_symmetries=s), g, aut, flip,
            ["GPSKet.models.autoreg_qGPS_full.ARqGPSModPhaseFull.__call__"], ar=True, modulus=True)
    if tier != "quick":
        for g in ("chain5", "chain6"):
            S.append(("copies_%s" % g, lambda g=g: Copies("", g, True, True)))
            inv("qgps_" + g, q, g, True, True, Q)
        inv("arqgps_chain4_10", lambda hi, s: mo.ARqGPS(hi, 1, dtype=jnp.float64, apply_symmetries=s[0]), "chain4", True, False, AR, ar=True)
    return S
