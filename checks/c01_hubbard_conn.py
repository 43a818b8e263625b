"""C01: FermiHubbard.get_conn_flattened is the Hubbard Hamiltonian."""
import netket as nk

from checks.fermions import *
from symx import pyexec


class ConnScenario(Scenario):
    """runs operator.get_conn_flattened / get_conn_padded on a batch"""

    def __init__(self, make_op, reference, specs, L, B, n_elec, padded=True, functions=(), assume_x=None, bound=""):
        super().__init__("conn", specs)
        self.make_op, self.reference, self.L, self.B, self.n_elec, self.padded = make_op, reference, L, B, n_elec, padded
        self.functions = list(functions)
        self.bound = bound
        self.assume_x = assume_x

    def assume(self, a):
        cs = []
        for b in range(self.B):
            if self.n_elec is not None:
                cs += sector(list(a["x"][b]), self.n_elec)
            if self.assume_x:
                cs += self.assume_x(a["x"][b])
        return cs

    def run(self, a):
        op = self.make_op(a)
        x = np.array(a["x"])
        sec = np.full(self.B, 10 ** 6, dtype=np.int32)
        x0 = x.copy()
        xp, mels = op.get_conn_flattened(x, sec)
        r = {"xp": np.asarray(xp), "mels": np.asarray(mels), "sections": np.asarray(sec), "x_after": np.asarray(x), "x_before": x0}
        if self.padded:
            try:
                pxp, pm = op.get_conn_padded(np.array(a["x"]))
                r["pxp"], r["pm"] = np.asarray(pxp), np.asarray(pm)
            except ValueError as e:
                # netket could not reshape what the operator returned
                r["padded_error"] = np.asarray(1)
        return r

    def outs_real(self, a):
        return self.run(self.derive(dict(a)))

    def outs_py(self, eng, a):
        with pyexec.patched():
            r = self.run({k: (pyexec.sym(v) if isinstance(v, np.ndarray) and v.dtype == object and v.ndim else
                                 (v[()] if isinstance(v, np.ndarray) and v.shape == () else v)) for k, v in a.items()})
        eng.stats.eqns += r["mels"].size
        return r

    def relation(self, o, a):
        sec = [int(s) for s in o["sections"]]
        ok = all(0 <= p <= q <= len(o["xp"]) for p, q in zip([0] + sec[:-1], sec)) and sec[-1] == len(o["xp"]) == len(o["mels"])
        res = [("sections delimit the connected configurations of each sample", bool(ok)),
               ("input configurations are left unchanged", bool(np.array_equal(o["x_after"], o["x_before"])))]
        if "padded_error" in o:
            res.append(("get_conn_padded returns", False))
        if not ok or "padded_error" in o:
            return res
        lo = 0
        for b in range(self.B):
            want = self.reference(o["x_before"][b], a)
            res += compare("flattened", collect(o["xp"][lo:sec[b]], o["mels"][lo:sec[b]]), want)
            lo = sec[b]
            if self.padded:
                res += compare("padded", collect(o["pxp"][b], o["pm"][b]), want)
        return res


class HopScenario(Scenario):
    """apply_hopping on its own, with and without the cumulative count"""

    def __init__(self, L, polarised=False):
        super().__init__("hop", {"x": Int(L, dtype=np.uint8, lo=0, hi=3), "i": Int(dtype=np.int64, lo=0, hi=L - 1),
                                 "j": Int(dtype=np.int64, lo=0, hi=L - 1), "s": Int(dtype=np.int64, lo=1, hi=2)})
        self.L, self.polarised = L, polarised
        self.bound = "L=%d, all configurations%s, all ordered site pairs, both spins" % (L, " of the hopping spin" if polarised else "")
        self.functions = ["GPSKet.operator.fermion.apply_hopping"]

    def assume(self, a):
        if not self.polarised:
            return []
        s = np.asarray(a["s"])[()]
        s = z3.Extract(7, 0, s)
        return [z3.Or(v == 0, v == s) for v in a["x"]]

    def run(self, a):
        import GPSKet.operator.fermion as F

        i, j, s = int(a["i"]), int(a["j"]), int(a["s"])
        x1, x2 = np.array(a["x"]), np.array(a["x"])
        cum = np.cumsum((x1 & s).astype(bool))
        m1 = F.apply_hopping(i, j, x1, s, cummulative_count=cum)
        m2 = F.apply_hopping(i, j, x2, s)
        return {"m1": np.asarray(m1), "m2": np.asarray(m2), "x1": x1, "x2": x2, "x": np.array(a["x"])}

    def outs_real(self, a):
        return self.run(a)

    def outs_py(self, eng, a):
        with pyexec.patched():
            r = self.run(a)
        eng.stats.eqns += 2
        return r

    def relation(self, o, a):
        i, j, s = int(a["i"]), int(a["j"]), int(a["s"])
        x = tuple(int(v) for v in o["x"])
        r = annihilate(x, i, s)
        r2 = create(r[1], j, s) if r else None
        want = (r[0] * r2[0], r2[1]) if r2 else (0, x)
        return [("sign of the hop (count given)", bool(int(o["m1"]) == want[0])),
                ("sign of the hop (count derived)", bool(int(o["m2"]) == want[0])),
                ("configuration after the hop", bool(tuple(map(int, o["x1"])) == want[1] and tuple(map(int, o["x2"])) == want[1]))]


def scenarios(tier):
    from GPSKet.hilbert import FermionicDiscreteHilbert
    from GPSKet.operator.hamiltonian import FermiHubbard

    out = []
    fns = ["GPSKet.operator.hamiltonian.hubbard.FermiHubbard." + m for m in ("__init__", "get_conn_flattened", "_get_conn_flattened_kernel")] + [
        "GPSKet.operator.fermion.apply_hopping"]

    def sc(name, L, edges, n_elec=None, B=1, tmode="list", **kw):
        def build():
            h = FermionicDiscreteHilbert(L, n_elec=n_elec)
            specs = {"x": Int(B, L, dtype=np.uint8, lo=0, hi=3), "U": Real()}
            if tmode == "list":
                specs["t"] = Real(len(edges))
            else:
                specs["t"] = Real()

            def make_op(a):
                t = list(a["t"]) if tmode == "list" else np.asarray(a["t"])[()] if not isinstance(a["t"], poly.Expr) else a["t"]
                U = np.asarray(a["U"])[()] if not isinstance(a["U"], poly.Expr) else a["U"]
                return FermiHubbard(h, edges, U=U, t=t)

            def ref(x, a):
                U = np.asarray(a["U"], dtype=object)[()]
                t = list(a["t"]) if tmode == "list" else [np.asarray(a["t"], dtype=object)[()]] * len(edges)
                return hubbard(x, edges, t, U)

            return ConnScenario(make_op, ref, specs, L, B, n_elec, functions=fns,
                                bound="L=%d, edges %s, %s, batch %d; U and every t_e symbolic" % (
                                    L, edges, "all 4^L configurations" if n_elec is None else "sector %s" % (n_elec,), B), **kw)
        out.append((name, build))

    full = lambda L: [(i, j) for i in range(L) for j in range(i + 1, L)]
    out.append(("hop_L4", lambda: HopScenario(4)))
    out.append(("hop_L6_polarised", lambda: HopScenario(6, True)))
    sc("L2_full", 2, full(2))
    sc("L3_full", 3, full(3))
    sc("L3_reversed", 3, [(j, i) for i, j in full(3)])
    sc("L3_repeated_edges", 3, [(0, 1), (1, 0), (0, 2), (0, 2)])
    sc("L3_uniform_t", 3, full(3), tmode="scalar")
    sc("L3_no_edges", 3, [])
    sc("L2_batch2", 2, [(1, 0)], B=2)
    sc("L2_n11_batch4", 2, [(1, 0)], n_elec=(1, 1), B=4)
    sc("L4_full", 4, full(4))
    sc("L4_n22_batch2", 4, [(0, 3), (2, 1)], n_elec=(2, 2), B=2)
    sc("L5_n23_long", 5, [(0, 4), (1, 3), (4, 2)], n_elec=(2, 3))
    sc("L5_n41_long", 5, [(0, 4), (3, 0)], n_elec=(4, 1))
    sc("L5_n14_long", 5, [(4, 0), (0, 3)], n_elec=(1, 4))
    sc("L6_n33_ring", 6, [(i, (i + 1) % 6) for i in range(6)], n_elec=(3, 3))
    if tier == "thorough":
        out.append(("hop_L6", lambda: HopScenario(6)))
        sc("L5_full", 5, full(5))
        sc("L6_n33_full", 6, full(6), n_elec=(3, 3))
        sc("L7_n34_ring", 7, [(i, (i + 1) % 7) for i in range(7)], n_elec=(3, 4))
    return out
