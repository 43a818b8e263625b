"""C06: local RDMs returned with the local energy contract with the integrals to the local energy."""
from checks.c04_abinitio_otf import *


class RDMEnergy(AbInitioEnergy):
    def call(self, ker, table, samples, args):
        from GPSKet.operator.hamiltonian.ab_initio import local_en_on_the_fly

        pars = {"params": {"table": table}}
        fast = self.model.apply_fast_update
        # reference call through the kernel, and the RDM variant of the same function
        r = local_en_on_the_fly(self.hilbert._n_elec, self.model.apply, pars, samples, args, use_fast_update=fast,
                                chunk_size=self.chunk_size, return_local_RDMs=True)
        return {"en": r[0], "t": r[1], "eri": r[2], "plain": ker(self.model.apply, pars, samples, args)}

    def relation(self, o, a):
        x = tuple(int(v) for v in np.asarray(a["x"]).reshape(-1))
        L = len(x)
        h, eri = np.asarray(a["h"]), np.asarray(a["eri"])
        tot = 0.0
        for p, q in itertools.product(range(L), repeat=2):
            tm = h[p, q]
            for r in range(L):
                tm = tm - eri[p, r, r, q] * 0.5
            tot = tot + tm * o["t"][p, q]
        for ix in itertools.product(range(L), repeat=4):
            tot = tot + eri[ix] * o["eri"][ix]
        res = [("energy returned with the RDMs", o["en"], o["plain"]),
               ("RDM contraction gives the local energy", tot, o["en"]),
               ("local energy", o["en"], self.expected(a))]
        # the one-body part is the estimator of E_pq symmetrised by the integrals
        for p, q in itertools.product(range(L), repeat=2):
            w = 0.0
            for (i, j) in ((p, q), (q, p)):
                for sg, y in exc(x, i, j):
                    w = w + self.ratio(a, x, y) * sg
            res.append(("one-body RDM element (%d,%d)" % (p, q), o["t"][p, q] + o["t"][q, p], w))
        return res


def scenarios(tier):
    from GPSKet.operator.hamiltonian import AbInitioHamiltonianOnTheFly

    out = []
    fns = ["GPSKet.operator.hamiltonian.ab_initio.local_en_on_the_fly"]

    def sc(name, L, n, **kw):
        out.append((name, lambda: ab_scenario(RDMEnergy, lambda hi: (lambda a: AbInitioHamiltonianOnTheFly(hi, a["h"], a["eri"])),
                                              L, n, functions=fns, **kw)))

    for fast in (False, True):
        f = "_fast" if fast else ""
        sc("L2_n11" + f, 2, (1, 1), fast=fast)
        for n in ((1, 1), (2, 1), (1, 2), (2, 2)):
            sc("L3_n%d%d" % n + f, 3, n, fast=fast)
    sc("L4_n22", 4, (2, 2))
    sc("L3_n21_chunk1", 3, (2, 1), chunk_size=1)
    if tier == "thorough":
        sc("L4_n22_fast", 4, (2, 2), fast=True)
        sc("L4_n31", 4, (3, 1))
        sc("L5_n22", 5, (2, 2))
    return out
