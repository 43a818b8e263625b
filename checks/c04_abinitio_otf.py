"""C04: on-the-fly ab-initio local energies equal the explicit sum over connected configurations."""
from checks.energy import *


class AbInitioEnergy(EnergyScenario):
    def derive(self, a):
        a["h"] = np.asarray(a["hv"])[self.H]
        a["eri"] = np.asarray(a["ev"])[self.E]
        return a


def ab_scenario(cls, make_op, L, n_elec, fast=False, chunk_size=None, functions=(), zero=None):
    from GPSKet.hilbert import FermionicDiscreteHilbert

    hi = FermionicDiscreteHilbert(L, n_elec=n_elec)
    H, nh, E, ne = integrals(L)
    if zero is not None:
        # keep only the orbits for which zero(p, q, r, s) / zero(p, q) is false
        H, nh, E, ne = thin(L, H, E, zero)
    specs = {"x": Int(L, dtype=np.uint8, lo=0, hi=3), "hv": Real(nh), "ev": Real(ne)}
    s = cls(specs, hi, make_op(hi), Table(L, 4, fast=fast), lambda x, a: ab_initio(x, a["h"], a["eri"]),
            assume_x=lambda x: sector(list(x), n_elec), chunk_size=chunk_size, functions=functions,
            bound="L=%d, n_elec=%s, fast_update=%s, chunk_size=%s%s; all symmetric integrals and all amplitudes symbolic" % (
                L, n_elec, fast, chunk_size, ", sparsity pattern with %d non-zero orbits" % ne if zero else ""))
    s.H, s.E = H, E
    return s


def thin(L, H, E, zero):
    hk, ek = {}, {}
    H2, E2 = np.zeros_like(H), np.zeros_like(E)
    for ix in np.ndindex(*H.shape):
        H2[ix] = -1 if zero(*ix) else hk.setdefault(H[ix], len(hk))
    for ix in np.ndindex(*E.shape):
        E2[ix] = -1 if zero(*ix) else ek.setdefault(E[ix], len(ek))
    # the pattern must respect the index symmetry
    for full, thinned in ((H, H2), (E, E2)):
        for o in np.unique(full):
            assert len(np.unique(thinned[full == o])) == 1
    return H2, max(1, len(hk)), E2, max(1, len(ek))


def scenarios(tier):
    from GPSKet.operator.hamiltonian import AbInitioHamiltonianOnTheFly

    out = []
    fns = ["GPSKet.operator.hamiltonian.ab_initio." + f for f in (
        "local_en_on_the_fly", "get_local_kernel", "get_local_kernel_arguments", "get_parity_multiplicator_hop", "AbInitioHamiltonian.__init__")]

    def sc(name, L, n, **kw):
        out.append((name, lambda: ab_scenario(AbInitioEnergy, lambda hi: (lambda a: AbInitioHamiltonianOnTheFly(hi, a["h"], a["eri"])),
                                              L, n, functions=fns, **kw)))

    for fast in (False, True):
        f = "_fast" if fast else ""
        sc("L2_n11" + f, 2, (1, 1), fast=fast)
        for n in ((1, 1), (2, 1), (1, 2), (2, 2)):
            sc("L3_n%d%d" % n + f, 3, n, fast=fast)
        sc("L3_n11_chunk1" + f, 3, (1, 1), fast=fast, chunk_size=1)
        sc("L4_n22" + f, 4, (2, 2), fast=fast)
    sc("L4_n13", 4, (1, 3))
    sc("L4_n31_fast", 4, (3, 1), fast=True)
    sc("L5_n41", 5, (4, 1))
    sc("L5_n14_fast", 5, (1, 4), fast=True)
    sc("L4_n33", 4, (3, 3))
    sc("L5_n32", 5, (3, 2))
    if tier == "thorough":
        sc("L5_n22_fast", 5, (2, 2), fast=True)
        sc("L5_n33", 5, (3, 3))
        sc("L6_n22", 6, (2, 2))
    return out
