"""C07: J1-J2 / Heisenberg Hamiltonians and their on-the-fly local energies."""
from checks.c01_hubbard_conn import ConnScenario
from checks.energy import *


def bonds(Lx, Ly, pbc):
    """nearest and next-nearest neighbour pairs of a chain or square lattice"""
    if Ly is None:
        pts = [(i,) for i in range(Lx)]
        ext = (Lx,)
    else:
        pts = [(i, j) for i in range(Lx) for j in range(Ly)]
        ext = (Lx, Ly)

    def dist2(a, b):
        best = None
        for w in itertools.product((-1, 0, 1), repeat=len(ext)) if pbc else [(0,) * len(ext)]:
            d = sum((x - y + k * e) ** 2 for x, y, k, e in zip(a, b, w, ext))
            best = d if best is None else min(best, d)
        return best
    ds = sorted({dist2(a, b) for a in pts for b in pts if a != b})
    nn = [(i, j) for i in range(len(pts)) for j in range(i + 1, len(pts)) if dist2(pts[i], pts[j]) == ds[0]]
    nnn = [(i, j) for i in range(len(pts)) for j in range(i + 1, len(pts)) if len(ds) > 1 and dist2(pts[i], pts[j]) == ds[1]]
    return nn, nnn


def heisenberg(x, J1, nn, s1, J2, nnn, s2):
    """sum J S_i.S_j, with the off-diagonal sign flipped where the sign rule applies"""
    d = {}
    for J, bs, s in ((J1, nn, s1), (J2, nnn, s2)):
        for i, j in bs:
            add(d, x, 0.25 * J * x[i] * x[j])
            if x[i] != x[j]:
                y = list(x)
                y[i], y[j] = y[j], y[i]
                add(d, tuple(y), (-0.5 if s else 0.5) * J)
    return d



class MeanScenario(Scenario):
    """vstate.expect(H) is the average of the local energies of the samples"""

    def __init__(self, op, model, ref, n, L, chunk_size, assume_x):
        super().__init__("mean", {"table": Cplx(2 ** L), "x": Int(*n, L, dtype=np.int8, lo=-1, hi=1)}, functions=[
            "GPSKet.vqs.mc.mc_state.expect.expect", "GPSKet.vqs.mc.mc_state.expect.expect_chunked", "GPSKet.vqs.mc.mc_state.expect._expect"])
        self.op, self.model, self.ref, self.n, self.chunk_size, self.assume_x = op, model, ref, n, chunk_size, assume_x
        self.bound = "%d sites, %d chains of %d samples, chunk_size=%s; every amplitude symbolic" % (L, *n, chunk_size)

    def fn(self, table, x):
        vs = ExpectState(self.op.hilbert, self.model, x, table)
        return nk.vqs.expect(vs, self.op, self.chunk_size).mean

    def __setattr__(self, k, v):
        if k == "fn" and v is None:
            return
        object.__setattr__(self, k, v)

    def assume(self, a):
        return [c for i in range(self.n[0]) for j in range(self.n[1]) for c in self.assume_x(list(a["x"][i, j]))]

    def relation(self, o, a):
        t = np.asarray(a["table"]).reshape(-1)
        tot = 0.0
        for i, j in np.ndindex(*self.n):
            x = tuple(int(v) for v in np.asarray(a["x"])[i, j])
            for y, m in self.ref(x).items():
                d = t[self.model.idx(y)] - t[self.model.idx(x)]
                tot = tot + (poly.exp(d) if isinstance(d, Expr) else np.exp(d)) * m
        return [("mean energy", o, tot * (1.0 / (self.n[0] * self.n[1])))]


class ExpectState(FakeState):
    def __init__(self, hilbert, model, samples, table):
        super().__init__(hilbert, model, samples)
        object.__setattr__(self, "_table", table)

    class sampler:
        machine_pow = 2

    @property
    def _apply_fun(self):
        return self.model.apply

    parameters = property(lambda s: {"table": s._table})
    model_state = property(lambda s: {})


def scenarios(tier):
    from GPSKet.operator.hamiltonian import get_J1_J2_Hamiltonian

    out = []
    fns = ["GPSKet.operator.hamiltonian.J1J2." + f for f in ("get_J1_J2_Hamiltonian", "local_en_on_the_fly", "get_local_kernel", "get_local_kernel_arguments")]

    def sc(name, Lx, Ly=None, J1=1.0, J2=0.0, sign=None, sz=0.0, pbc=True, fast=False, chunk_size=None, dtype=np.int8, otf=True):
        def build():
            nn, nnn = bonds(Lx, Ly, pbc)
            kw = {} if sign is None else {"sign_rule": sign}
            op = get_J1_J2_Hamiltonian(Lx, Ly, J1=J1, J2=J2, total_sz=sz, on_the_fly_en=True, pbc=pbc, **kw)
            s1 = True if sign is None else sign[0] if isinstance(sign, (tuple, list)) else sign
            N = Lx * (Ly or 1)

            def assume(x):
                return [z3.Or(v == -1, v == 1) for v in x] + ([spin_sum(x) == int(2 * sz)] if sz is not None else [])
            s = EnergyScenario({"x": Int(N, dtype=dtype, lo=-1, hi=1)}, op.hilbert, lambda a: op, Table(N, 2, first=-1, step=2, fast=fast),
                               lambda x, a: heisenberg(x, J1, nn, s1, J2, nnn, False), assume_x=assume, chunk_size=chunk_size, functions=fns,
                               bound="%s, J1=%s, J2=%s, sign_rule=%s, total_sz=%s, pbc=%s, fast_update=%s, chunk_size=%s; every amplitude symbolic" % (
                                   "chain %d" % Lx if Ly is None else "%dx%d lattice" % (Lx, Ly), J1, J2, sign, sz, pbc, fast, chunk_size))
            return s
        out.append((name, build))

    def conn(name, Lx, Ly=None, J1=1.0, J2=0.0, sz=0.0, pbc=True, otf=False):
        def build():
            nn, nnn = bonds(Lx, Ly, pbc)
            N = Lx * (Ly or 1)
            return ConnScenario(lambda a: get_J1_J2_Hamiltonian(Lx, Ly, J1=J1, J2=J2, total_sz=sz, pbc=pbc, on_the_fly_en=otf),
                                lambda x, a: heisenberg(tuple(int(v) for v in x), J1, nn, True, J2, nnn, False),
                                {"x": Int(1, N, dtype=np.int8, lo=-1, hi=1)}, N, 1, None, padded=True, functions=fns[:1],
                                assume_x=lambda x: [z3.Or(v == -1, v == 1) for v in x] + [spin_sum(x) == int(2 * sz)],
                                bound="matrix elements, %d sites, J1=%s, J2=%s, all configurations with total_sz=%s" % (N, J1, J2, sz))
        out.append((name, build))

    def mean(name, L, J2, fast, chunk_size, n=(2, 1)):
        def build():
            nn, nnn = bonds(L, None, True)
            op = get_J1_J2_Hamiltonian(L, J1=1.5, J2=J2, on_the_fly_en=True)
            return MeanScenario(op, Table(L, 2, first=-1, step=2, fast=fast),
                                lambda x: heisenberg(x, 1.5, nn, True, J2, nnn, False), n, L, chunk_size,
                                lambda x: [z3.Or(v == -1, v == 1) for v in x] + [spin_sum(x) == 0])
        out.append((name, build))

    conn("conn_chain4", 4, J1=1.5)
    conn("conn_chain6_j2", 6, J1=1.5, J2=0.625)
    conn("conn_square_3x2_open", 3, 2, J1=1.5, J2=0.5, pbc=False)
    mean("expect_chain4", 4, 0.0, False, None)
    mean("expect_chain4_j2_fast_chunk1", 4, 0.5, True, 1)
    for fast in (False, True):
        f = "_fast" if fast else ""
        sc("chain4" + f, 4, J1=1.5, fast=fast)
        sc("chain4_nosign" + f, 4, J1=-0.75, sign=False, fast=fast)
        sc("chain6_j2" + f, 6, J1=1.5, J2=0.625, fast=fast)
        sc("chain6_j2_nosign" + f, 6, J1=1.5, J2=-0.625, sign=(False, False), fast=fast)
        sc("chain5_open_sz_half" + f, 5, J1=1.0, pbc=False, sz=0.5, fast=fast)
        sc("chain4_free_sz" + f, 4, J1=1.25, sz=None, fast=fast)
        sc("chain4_chunk2" + f, 4, J1=1.5, fast=fast, chunk_size=2)
        sc("square_3x2_open_nn" + f, 3, 2, J1=1.5, pbc=False, fast=fast)
        sc("square_2x3_open_nosign" + f, 2, 3, J1=-1.5, J2=0.25, sign=False, pbc=False, fast=fast)
    sc("square_2x3_open_nn_sz1", 2, 3, J1=0.5, pbc=False, sz=1.0)
    sc("square_4x2_open", 4, 2, J1=1.5, J2=0.5, pbc=False)
    sc("chain3_open_free_sz_j2", 3, J1=1.5, J2=0.5, pbc=False, sz=None)
    sc("chain6_open_j2_chunk3", 6, J1=1.5, J2=0.5, pbc=False, chunk_size=3)
    sc("chain2_open", 2, J1=1.5, pbc=False)
    sc("square_3x2_open", 3, 2, J1=1.5, J2=0.5, pbc=False)
    sc("chain5_open_j2", 5, J1=1.0, J2=0.5, pbc=False, sz=-0.5)
    sc("chain4_j2_seq", 4, J1=1.0, J2=0.5, sign=(True, False))
    if tier == "thorough":
        sc("chain8_j2_fast", 8, J1=1.5, J2=0.625, fast=True)
        sc("square_3x3_open", 3, 3, J1=1.5, J2=0.5, pbc=False, sz=0.5)
        sc("square_4x3_nn_sz5", 4, 3, J1=1.5, pbc=False, sz=5.0)
    return out
