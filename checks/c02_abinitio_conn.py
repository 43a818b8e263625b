"""C02: AbInitioHamiltonian.get_conn_flattened is the second-quantised Hamiltonian."""
from checks.c01_hubbard_conn import ConnScenario
from checks.fermions import *


class AbInitioConn(ConnScenario):
    def derive(self, a):
        a["h"] = np.asarray(a["hv"])[self.H]
        a["eri"] = np.asarray(a["ev"])[self.E]
        return a


def scenarios(tier):
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.operator.hamiltonian import AbInitioHamiltonian

    out = []
    fns = ["GPSKet.operator.hamiltonian.ab_initio.AbInitioHamiltonian." + m for m in (
        "__init__", "get_conn_flattened", "_get_conn_flattened_kernel")] + ["GPSKet.operator.fermion.apply_hopping"]

    def sc(name, L, n_elec, B=1, padded=True):
        def build():
            hi = FermionicDiscreteHilbert(L, n_elec=n_elec)
            H, nh, E, ne = integrals(L)
            specs = {"x": Int(B, L, dtype=np.uint8, lo=0, hi=3), "hv": Real(nh), "ev": Real(ne)}
            s = AbInitioConn(lambda a: AbInitioHamiltonian(hi, a["h"], a["eri"]),
                             lambda x, a: ab_initio(x, a["h"], a["eri"]), specs, L, B, n_elec, padded=padded, functions=fns,
                             bound="L=%d, n_elec=%s, batch %d; all real symmetric one-electron and 8-fold symmetric two-electron integrals" % (L, n_elec, B))
            s.H, s.E = H, E
            return s
        out.append((name, build))

    sc("L2_n11", 2, (1, 1))
    sc("L2_n11_batch2", 2, (1, 1), B=2)
    sc("L2_n10_batch3", 2, (1, 0), B=3)
    sc("L2_n20", 2, (2, 0))
    for nu in range(4):
        for nd in range(4):
            if (nu, nd) != (0, 0):
                sc("L3_n%d%d" % (nu, nd), 3, (nu, nd))
    sc("L4_n21", 4, (2, 1))
    sc("L4_n22", 4, (2, 2))
    sc("L4_n13", 4, (1, 3))
    sc("L5_n41", 5, (4, 1))
    sc("L4_n33", 4, (3, 3))
    sc("L4_n02", 4, (0, 2))
    sc("L5_n22", 5, (2, 2))
    sc("L5_n32", 5, (3, 2))
    sc("L4_n21_batch2", 4, (2, 1), B=2)
    if tier == "thorough":
        sc("L5_n33", 5, (3, 3))
        sc("L5_n44", 5, (4, 4))
        sc("L6_n22", 6, (2, 2))
        sc("L6_n33", 6, (3, 3))
    return out
