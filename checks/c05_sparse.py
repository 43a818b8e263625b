"""C05: the sparse ab-initio kernel agrees with the dense Hamiltonian for every sparsity pattern checked."""
from fractions import Fraction

from checks.c04_abinitio_otf import *


class SparseEnergy(AbInitioEnergy):
    tiny = False

    def derive(self, a):
        def ext(v):
            v = np.asarray(v)
            z = np.zeros(1, dtype=v.dtype) if v.dtype != object else np.array([poly.ZERO], dtype=object)
            return np.concatenate([v, z])
        s = Fraction(1, 2 ** 40) if self.tiny else 1
        if self.tiny and np.asarray(a["hv"]).dtype != object:
            s = float(s)
        a["h"] = ext(a["hv"])[self.H] * s
        a["eri"] = ext(a["ev"])[self.E] * s
        return a

    def relation(self, o, a):
        (label, l, r), = super().relation(o, a)
        if self.tiny:
            l, r = l * 2.0 ** 40, r * 2.0 ** 40
        return [(label, l, r)]


class TinyEnergy(SparseEnergy):
    """integrals of a small magnitude, as in other units: none of them may be neglected"""
    tiny = True


def scenarios(tier):
    from GPSKet.operator.hamiltonian import AbInitioHamiltonianSparse

    out = []
    fns = ["GPSKet.operator.hamiltonian.ab_initio_sparse." + f for f in (
        "AbInitioHamiltonianSparse.__init__", "local_en_on_the_fly", "get_local_kernel", "get_local_kernel_arguments")] + [
        "GPSKet.operator.hamiltonian.ab_initio.get_parity_multiplicator_hop"]

    def sc(name, L, n, zero, cls=SparseEnergy, **kw):
        out.append((name, lambda: ab_scenario(cls, lambda hi: (lambda a: AbInitioHamiltonianSparse(hi, a["h"], a["eri"])),
                                              L, n, functions=fns, zero=zero, **kw)))

    dense = lambda *ix: False

    def local(*ix):
        return any(abs(p - q) > 1 for p, q in zip(ix[0::2], ix[1::2]))

    def density(*ix):
        """only hopping to neighbours and density-density interactions"""
        if len(ix) == 2:
            return abs(ix[0] - ix[1]) > 1
        return not (ix[0] == ix[1] and ix[2] == ix[3])

    def onsite(*ix):
        return len(set(ix)) > 1 if len(ix) == 4 else ix[0] == ix[1]

    def exchange(*ix):
        return len(ix) == 4 and not (ix[0] != ix[1] and set(ix[:2]) == set(ix[2:]))

    for fast in (False, True):
        f = "_fast" if fast else ""
        sc("L2_n11_dense" + f, 2, (1, 1), dense, fast=fast)
        for n in ((1, 1), (2, 1), (1, 2), (2, 2)):
            sc("L3_n%d%d_dense" % n + f, 3, n, dense, fast=fast)
        sc("L3_n21_local" + f, 3, (2, 1), local, fast=fast)
        sc("L3_n21_exchange" + f, 3, (2, 1), exchange, fast=fast)
        sc("L3_n11_chunk1" + f, 3, (1, 1), local, fast=fast, chunk_size=1)
    sc("L2_n11_tiny", 2, (1, 1), dense, cls=TinyEnergy)
    sc("L3_n21_local_tiny", 3, (2, 1), local, cls=TinyEnergy)
    sc("L4_n22_local", 4, (2, 2), local)
    sc("L4_n22_onsite_fast", 4, (2, 2), onsite, fast=True)
    sc("L4_n22_density_fast", 4, (2, 2), density, fast=True)
    sc("L4_n31_local", 4, (3, 1), local)
    if tier == "thorough":
        sc("L4_n22_dense", 4, (2, 2), dense)
        sc("L4_n22_dense_fast", 4, (2, 2), dense, fast=True)
        sc("L5_n22_local", 5, (2, 2), local)
    return out
