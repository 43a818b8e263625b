"""C10: Slater / Slater-qGPS cached updates equal full evaluation (incl. sign)."""
import numpy as np
import jax
import jax.numpy as jnp
from netket.utils import HashableArray

from checks.common import *
from checks.fastupdate import update_scenario


def scenarios(tier):
    from GPSKet.models import Slater, SlaterqGPS
    from GPSKet.hilbert import FermionicDiscreteHilbert

    out = []

    def add(name, f):
        out.append((name, f))

    def ferm(L, n):
        return FermionicDiscreteHilbert(L, n_elec=n)

    S = "GPSKet.models.slater.Slater.__call__"
    O = "GPSKet.models.slater.occupancies_to_electrons"
    F = [S, O]

    def sl(L, n, K=2, chain=0, mixed=False, batch=1, fix_x=None, fix_sites=None, **kw):
        h = ferm(L, n)
        return lambda: update_scenario(Slater(h, **kw), h, K=K, chain=chain, n_elec=n, mixed_double=mixed, batch=batch, fix_x=fix_x, fix_sites=fix_sites,
                                       distinct=(K == 2 and not mixed and chain > 0), functions=F)

    C = jnp.complex128
    R = jnp.float64
    shift = lambda L: (lambda y: jnp.stack([(y + k) % L for k in range(L)], axis=-1))
    for ct in (True, False):
        add("L3_n21_K2_real_ct%d" % ct, sl(3, (2, 1), dtype=R, constant_time_updates=ct))
        add("L3_n11_K2_chain_ct%d" % ct, sl(3, (1, 1), dtype=C, chain=1, constant_time_updates=ct))
        add("L3_n21_K2_generalized_ct%d" % ct, sl(3, (2, 1), dtype=R, fixed_magnetization=False,
                                                  constant_time_updates=ct))
        add("L3_n22_K4_double_ct%d" % ct, sl(3, (2, 2), K=4, mixed=True, dtype=R, constant_time_updates=ct,
                                             spin_symmetry_by_structure=True))
        add("L2_n11_K3_repeated_chain_ct%d" % ct, sl(2, (1, 1), K=3, dtype=R, chain=1, constant_time_updates=ct))
    add("L4_n31_K2", sl(4, (3, 1), dtype=R))
    add("L3_n21_K2_chain_real", sl(3, (2, 1), dtype=R, chain=1))
    add("L4_n31_K2_chain", sl(4, (3, 1), dtype=R, chain=1, fix_x=[[0, 1, 3, 1]]))
    for ct in (True, False):
        add("L2_n11_generalized_chain_ct%d" % ct, sl(2, (1, 1), dtype=R, chain=1, fixed_magnetization=False, constant_time_updates=ct))
    add("L3_n21_K4_chain", sl(3, (2, 1), K=4, mixed=True, dtype=R, chain=1, fix_x=[[0, 3, 1]], fix_sites=[1, 2, 0, 1]))
    add("L2_n11_multidet_chain", sl(2, (1, 1), dtype=C, n_determinants=2, chain=1))
    add("L3_n11_sym_translation", sl(3, (1, 1), dtype=R, symmetries=shift(3), chain=0))
    add("L2_n11_sym_translation_chain", sl(2, (1, 1), dtype=R, symmetries=shift(2), chain=1))
    add("L2_n11_S2proj", sl(2, (1, 1), dtype=R, chain=0, out_transformation=lambda x: x, S2_projection=(
        HashableArray(np.array([0.5, 1.25])), HashableArray(np.array([0.75, 0.5])))))
    add("L2_n11_batch2", sl(2, (1, 1), dtype=R, batch=2))
    add("slater_qgps_L3_n11", lambda: update_scenario(
        SlaterqGPS(ferm(3, (1, 1)), dtype=R, M=2), ferm(3, (1, 1)), K=2, n_elec=(1, 1),
        functions=F + ["GPSKet.models.slater_qGPS.SlaterqGPS.__call__"]))
    add("slater_qgps_L2_n11_chain", lambda: update_scenario(
        SlaterqGPS(ferm(2, (1, 1)), dtype=C, M=1, spin_symmetry_by_structure=False), ferm(2, (1, 1)), K=2, chain=1, n_elec=(1, 1),
        functions=F + ["GPSKet.models.slater_qGPS.SlaterqGPS.__call__"]))
    if tier == "thorough":
        add("L4_n22_K2_real", sl(4, (2, 2), dtype=R))
        add("L4_n22_K4_double", sl(4, (2, 2), K=4, mixed=True, dtype=R))
        add("L4_n21_K2_chain", sl(4, (2, 1), dtype=R, chain=1))
        add("L4_n31_generalized", sl(4, (3, 1), dtype=R, fixed_magnetization=False))
        add("L5_n31_K2", sl(5, (3, 1), dtype=R))
    return out
