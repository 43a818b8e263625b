"""C12: fully variational autoregressive qGPS, cached update == full evaluation."""
import netket as nk
from netket.utils import HashableArray

from checks.common import *
from checks.ar import count_fermions, renorm_fermions, spin
from checks.fastupdate import update_scenario


def scenarios(tier):
    from GPSKet.models import ARqGPSFull
    from GPSKet.models.qGPS import get_sym_transformation_spin
    from GPSKet.hilbert import FermionicDiscreteHilbert

    out = []
    C, R = jnp.complex128, jnp.float64
    F = ["GPSKet.models.autoreg_qGPS_full.ARqGPSFull.__call__", "GPSKet.models.autoreg_qGPS_full._conditionals",
         "GPSKet.models.autoreg_qGPS_full._compute_conditional", "GPSKet.models.autoreg_qGPS._normalize"]

    def sp(name, L, M, sz=None, K=2, chain=0, batch=1, distinct=False, **kw):
        h = spin(L, sz)
        out.append((name, lambda: update_scenario(ARqGPSFull(h, M, **kw), h, K=K, chain=chain, spin=True, batch=batch,
                                                  distinct=distinct, spin_sz=sz, functions=F)))

    def fe(name, L, n, M, K=2, chain=0, mixed=False, **kw):
        h = FermionicDiscreteHilbert(L, n_elec=n)
        out.append((name, lambda: update_scenario(
            ARqGPSFull(h, M, count_spins=count_fermions, renormalize_log_psi=renorm_fermions, **kw),
            h, K=K, chain=chain, n_elec=n, mixed_double=mixed, functions=F)))

    sp("spin_L4_free", 4, 1, dtype=C)
    sp("spin_L4_sz0_K2", 4, 2, sz=0, dtype=C)
    sp("spin_L4_sz0_chain", 4, 1, sz=0, chain=1, distinct=True, dtype=R)
    sp("spin_L4_persite", 4, HashableArray(np.array([1, 2, 1, 1])), sz=0, dtype=R)
    sp("spin_L2_persite_chain", 2, HashableArray(np.array([1, 2])), sz=0, chain=1, dtype=C)
    sp("spin_L4_unnormalised", 4, 1, sz=0, chain=0, dtype=C, normalize=False)
    sp("spin_L4_K1_chain", 4, 1, K=1, chain=1, dtype=C)
    sp("spin_L2_sz0_sym", 2, 1, sz=0, dtype=R, apply_symmetries=get_sym_transformation_spin(nk.graph.Chain(2), True, True))
    sp("spin_L2_sz0_batch2", 2, 1, sz=0, batch=2, dtype=C)
    fe("fermion_L3_n11", 3, (1, 1), 1, dtype=R)
    fe("fermion_L3_n11_K4", 3, (1, 1), 1, K=4, mixed=True, dtype=C)
    fe("fermion_L2_n11_chain", 2, (1, 1), 2, chain=1, dtype=C)
    if tier == "thorough":
        sp("spin_L4_sz0_chain2", 4, 2, sz=0, chain=1, dtype=C)
        sp("spin_L6_sz0", 6, 1, sz=0, dtype=R, distinct=True)
        sp("spin_L4_sz0_sym", 4, 1, sz=0, dtype=R, apply_symmetries=get_sym_transformation_spin(nk.graph.Chain(4), True, True))
        fe("fermion_L3_n21_chain", 3, (2, 1), 1, chain=1, dtype=R)
    return out
