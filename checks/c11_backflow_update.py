"""C11: CPD backflow cached updates equal full evaluation."""
import jax.numpy as jnp

from checks.common import *
from checks.fastupdate import update_scenario


def scenarios(tier):
    from GPSKet.models import CPDBackflow
    from GPSKet.hilbert import FermionicDiscreteHilbert

    out = []
    F = ["GPSKet.models.cpd_backflow.CPDBackflow.__call__", "GPSKet.models.cpd_backflow.CPD_with_cache",
         "GPSKet.models.cpd_backflow.CPD_single_orbital", "GPSKet.models.slater.occupancies_to_electrons"]

    def cpd(name, L, n, M, K=2, chain=0, mixed=False, batch=1, **kw):
        h = FermionicDiscreteHilbert(L, n_elec=n)
        out.append((name, lambda: update_scenario(CPDBackflow(h, M, **kw), h, K=K, chain=chain, n_elec=n,
                                                  mixed_double=mixed, batch=batch, functions=F)))

    C, R = jnp.complex128, jnp.float64
    cpd("L2_n11_M2_restricted", 2, (1, 1), 2, dtype=C)
    cpd("L3_n11_M1_restricted", 3, (1, 1), 1, dtype=R)
    cpd("L3_n11_M2_K1", 3, (1, 1), 2, K=1, dtype=C)
    cpd("L2_n11_M1_chain", 2, (1, 1), 1, chain=1, dtype=C)
    cpd("L2_n11_M2_unrestricted", 2, (1, 1), 2, dtype=R, restricted=False)
    cpd("L3_n21_M1_unrestricted", 3, (2, 1), 1, dtype=R, restricted=False)
    cpd("L3_n12_M1_unrestricted", 3, (1, 2), 1, dtype=R, restricted=False)
    cpd("L3_n21_M1_generalized", 3, (2, 1), 1, dtype=R, restricted=False, fixed_magnetization=False)
    cpd("L2_n11_M1_generalized_chain", 2, (1, 1), 1, chain=1, dtype=R, restricted=False, fixed_magnetization=False)
    cpd("L3_n11_M1_generalized", 3, (1, 1), 1, dtype=R, restricted=False, fixed_magnetization=False)
    cpd("L3_n11_K4_double", 3, (1, 1), 1, K=4, mixed=True, dtype=R)
    cpd("L2_n11_batch2", 2, (1, 1), 1, batch=2, dtype=R)
    if tier == "thorough":
        cpd("L3_n21_M2_unrestricted", 3, (2, 1), 2, dtype=R, restricted=False)
        cpd("L4_n11_M1_K4_double", 4, (1, 1), 1, K=4, mixed=True, dtype=R)
        cpd("L3_n22_M1_restricted", 3, (2, 2), 1, dtype=R)
        cpd("L3_n11_M1_chain", 3, (1, 1), 1, chain=1, dtype=R)
    return out
