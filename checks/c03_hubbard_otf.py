"""C03: on-the-fly Hubbard local energies equal the explicit sum over connected configurations."""
from checks.energy import *


def scenarios(tier):
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.operator.hamiltonian import FermiHubbardOnTheFly

    out = []
    fns = ["GPSKet.operator.hamiltonian.hubbard." + f for f in ("local_en_on_the_fly", "get_local_kernel", "get_local_kernel_arguments",
           "FermiHubbard.__init__")] + ["GPSKet.operator.hamiltonian.ab_initio.get_parity_multiplicator_hop"]

    def sc(name, L, edges, n_elec=None, fast=False, chunk_size=None):
        def build():
            h = FermionicDiscreteHilbert(L, n_elec=n_elec)
            specs = {"x": Int(L, dtype=np.uint8, lo=0, hi=3), "U": Real(), "t": Real(len(edges))}
            return EnergyScenario(
                specs, h, lambda a: FermiHubbardOnTheFly(h, edges, U=a["U"], t=list(a["t"])), Table(L, 4, fast=fast),
                lambda x, a: hubbard(x, edges, list(a["t"]), a["U"]),
                assume_x=(lambda x: sector(list(x), n_elec)) if n_elec else None, chunk_size=chunk_size, functions=fns,
                bound="L=%d, edges %s, %s, fast_update=%s, chunk_size=%s; U, t_e and every amplitude symbolic" % (
                    L, edges, "all configurations" if n_elec is None else "sector %s" % (n_elec,), fast, chunk_size))
        out.append((name, build))

    full = lambda L: [(i, j) for i in range(L) for j in range(i + 1, L)]
    for fast in (False, True):
        f = "_fast" if fast else ""
        sc("L2_full" + f, 2, full(2), fast=fast)
        sc("L3_full" + f, 3, full(3), fast=fast)
        sc("L3_reversed" + f, 3, [(j, i) for i, j in full(3)], fast=fast)
        sc("L3_repeated" + f, 3, [(0, 1), (1, 0), (0, 2)], fast=fast)
        sc("L4_n22_full" + f, 4, full(4), n_elec=(2, 2), fast=fast)
        sc("L4_n13_ring" + f, 4, [(i, (i + 1) % 4) for i in range(4)], n_elec=(1, 3), fast=fast)
        sc("L3_chunk1" + f, 3, [(0, 2), (1, 2)], fast=fast, chunk_size=1)
        sc("L2_chunk2" + f, 2, [(0, 1)], fast=fast, chunk_size=2)
    sc("L3_no_edges", 3, [])
    sc("L5_n32_long", 5, [(0, 4), (3, 1)], n_elec=(3, 2))
    sc("L5_n41_long_fast", 5, [(0, 4), (3, 0)], n_elec=(4, 1), fast=True)
    sc("L5_n14_long", 5, [(4, 0), (0, 3)], n_elec=(1, 4))
    sc("L5_n33_full", 5, full(5), n_elec=(3, 3))
    if tier == "thorough":
        sc("L4_full", 4, full(4))
        sc("L4_full_fast", 4, full(4), fast=True)
        sc("L5_n32_full_fast", 5, full(5), n_elec=(3, 2), fast=True)
        sc("L6_n33_full", 6, full(6), n_elec=(3, 3))
        sc("L6_n33_ring_fast", 6, [(i, (i + 1) % 6) for i in range(6)], n_elec=(3, 3), fast=True)
    return out
