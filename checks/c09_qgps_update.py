"""C09: qGPS / plaquette-qGPS cached updates equal full evaluation."""
import numpy as np
import jax
import jax.numpy as jnp
import z3
import netket as nk
from netket.utils import HashableArray

from checks.common import *
from checks.fastupdate import update_scenario


def scenarios(tier):
    from GPSKet.models import qGPS, PlaquetteqGPS
    from GPSKet.models.qGPS import get_sym_transformation_spin, no_syms
    from GPSKet.hilbert import FermionicDiscreteHilbert

    out = []

    def add(name, f):
        out.append((name, f))

    def spin(L):
        return nk.hilbert.Spin(0.5, L)

    def ferm(L, n=None):
        return FermionicDiscreteHilbert(L, n_elec=n)

    Q = "GPSKet.models.qGPS.qGPS.__call__"
    PQ = "GPSKet.models.plaquetteqGPS.PlaquetteqGPS.__call__"
    CC = dict(functions=[Q])
    add("fermion_L3_K2_complex", lambda: update_scenario(
        qGPS(ferm(3), 2, dtype=jnp.complex128), ferm(3), K=2, **CC))
    add("fermion_L3_K1_chain_real", lambda: update_scenario(
        qGPS(ferm(3), 1, dtype=jnp.float64), ferm(3), K=1, chain=1, **CC))
    add("fermion_L2_K4_dup", lambda: update_scenario(
        qGPS(ferm(2), 1, dtype=jnp.complex128), ferm(2), K=4, fix_sites=[0, 1, 1, 0], **CC))
    add("fermion_L3_K4_double_hop", lambda: update_scenario(
        qGPS(ferm(3, (1, 1)), 2, dtype=jnp.complex128), ferm(3, (1, 1)), K=4, n_elec=(1, 1), mixed_double=True, **CC))
    add("fermion_L3_K2_chain", lambda: update_scenario(
        qGPS(ferm(3, (1, 1)), 2, dtype=jnp.complex128), ferm(3, (1, 1)), K=2, chain=1, n_elec=(1, 1), **CC))
    add("spin_L2_chain3", lambda: update_scenario(
        qGPS(spin(2), 2, dtype=jnp.complex128), spin(2), K=1, chain=2, spin=True, **CC))
    g3 = lambda: nk.graph.Chain(3)
    g4 = lambda: nk.graph.Chain(4)
    for aut in (True, False):
        for flip in (True, False):
            add("spin_L3_sym_aut%d_flip%d" % (aut, flip), lambda aut=aut, flip=flip: update_scenario(
                qGPS(spin(3), 2, dtype=jnp.complex128, syms=get_sym_transformation_spin(g3(), aut, flip)),
                spin(3), K=2, chain=1, spin=True, distinct=True, functions=[Q, "GPSKet.models.qGPS.get_sym_transformation_spin"]))
    add("spin_L4_sym_K2", lambda: update_scenario(
        qGPS(spin(4), 1, dtype=jnp.complex128, syms=get_sym_transformation_spin(g4(), True, True)),
        spin(4), K=2, spin=True, chain=0, **CC))
    add("spin_L3_batch2", lambda: update_scenario(
        qGPS(spin(3), 1, dtype=jnp.complex128), spin(3), K=1, spin=True, batch=2, chain=0, **CC))
    add("spin1_L2_K2_chain", lambda: update_scenario(
        qGPS(nk.hilbert.Spin(1, 2), 2, dtype=jnp.complex128), nk.hilbert.Spin(1, 2), K=2, spin=True, chain=1,
        values=(-2, 0, 2), **CC))
    add("spin_L3_out_logsum", lambda: update_scenario(
        qGPS(spin(3), 2, dtype=jnp.complex128, syms=get_sym_transformation_spin(g3(), False, True),
             out_transformation=lambda a: jnp.log(jnp.sum(a, axis=(-2, -1)))),
        spin(3), K=1, spin=True, chain=1, **CC))
    # plaquettes
    pl_a = HashableArray(np.array([[0, 1], [1, 2], [2, 0]]))
    pl_b = HashableArray(np.array([[2, 0, 1], [1, 2, 0]]))
    add("plaq_spin_L3_pairs", lambda: update_scenario(
        PlaquetteqGPS(spin(3), 2, pl_a, dtype=jnp.complex128, apply_fast_update=True), spin(3), K=2, spin=True,
        chain=1, distinct=True, functions=[PQ]))
    add("plaq_ferm_L3_perm", lambda: update_scenario(
        PlaquetteqGPS(ferm(3), 1, pl_b, dtype=jnp.float64, apply_fast_update=True), ferm(3), K=1, chain=1,
        functions=[PQ]))
    add("plaq_spin_L4_sym", lambda: update_scenario(
        PlaquetteqGPS(spin(4), 1, HashableArray(np.array([[0, 1, 2], [3, 1, 0]])), dtype=jnp.complex128,
                      apply_fast_update=True, syms=get_sym_transformation_spin(g4(), True, True)),
        spin(4), K=2, spin=True, chain=0, distinct=True, functions=[PQ]))
    add("plaq_ferm_L3_dup", lambda: update_scenario(
        PlaquetteqGPS(ferm(3), 1, pl_a, dtype=jnp.complex128, apply_fast_update=True), ferm(3), K=2, chain=0,
        functions=[PQ]))
    add("plaq_ferm_L2_dup_chain", lambda: update_scenario(
        PlaquetteqGPS(ferm(2), 1, HashableArray(np.array([[0, 1]])), dtype=jnp.complex128, apply_fast_update=True), ferm(2), K=2, chain=1,
        functions=[PQ]))
    add("plaq_spin_L3_K3", lambda: update_scenario(
        PlaquetteqGPS(spin(3), 1, pl_b, dtype=jnp.complex128, apply_fast_update=True), spin(3), K=3, spin=True,
        distinct=True, functions=[PQ]))
    add("plaq_ferm_L3_K4_double_hop", lambda: update_scenario(
        PlaquetteqGPS(ferm(3, (1, 1)), 1, pl_a, dtype=jnp.complex128, apply_fast_update=True), ferm(3, (1, 1)), K=4,
        n_elec=(1, 1), mixed_double=True, functions=[PQ]))
    if tier == "thorough":
        add("fermion_L4_K2_complex", lambda: update_scenario(
            qGPS(ferm(4), 2, dtype=jnp.complex128), ferm(4), K=2, **CC))
        add("fermion_L4_K4_double_hop", lambda: update_scenario(
            qGPS(ferm(4, (1, 1)), 2, dtype=jnp.complex128), ferm(4, (1, 1)), K=4, n_elec=(1, 1), mixed_double=True, **CC))
        add("fermion_L4_sector", lambda: update_scenario(
            qGPS(ferm(4, (2, 1)), 2, dtype=jnp.complex128), ferm(4, (2, 1)), K=2, chain=0, n_elec=(2, 1), **CC))
        add("spin_L6_sym", lambda: update_scenario(
            qGPS(spin(6), 1, dtype=jnp.complex128, syms=get_sym_transformation_spin(nk.graph.Chain(6), True, True)),
            spin(6), K=2, spin=True, chain=0, **CC))
        add("spin_L4_2x2", lambda: update_scenario(
            qGPS(spin(4), 2, dtype=jnp.complex128,
                 syms=get_sym_transformation_spin(nk.graph.Square(2, pbc=False), True, True)),
            spin(4), K=2, spin=True, chain=1, **CC))
    return out
