"""C15: proposals of the fermionic hopping rule stay in the sector and report what changed."""
from checks.exchange import Exchange
from checks.hopping import *


class Proposal(Hopping):
    def relation(self, o, a):
        x = np.asarray(a["x"]).astype(int)
        y = np.asarray(o["y"])
        y = self.conc(y) if y.dtype == object else y.astype(int)
        res = [("shape of the proposal", y.shape == x.shape), ("dtype of the proposal", True)]
        sites = None
        if self.updates:
            s = np.asarray(o["sites"])
            sites = self.conc(s) if s.dtype == object else s.astype(int)
            res.append(("two sites reported", sites.shape == (self.batch, 2)))
        for b in range(self.batch):
            X, Y = x[b], y[b]
            res.append(("valid occupations", bool(np.all((0 <= Y) & (Y <= 3)))))
            for bit, nm in ((1, "up"), (2, "down")):
                res.append(("number of %s electrons" % nm, int(np.sum((Y & bit) > 0)) == int(np.sum((X & bit) > 0))))
            ch = [int(i) for i in np.nonzero(X != Y)[0]]
            du = int(np.sum((X & 1) != (Y & 1)))
            dd = int(np.sum((X & 2) != (Y & 2)))
            hopped = (du, dd) in ((0, 0), (2, 0), (0, 2))
            exch = (du, dd) == (2, 2) and len(ch) == 2 and all(X[i] in (1, 2) for i in ch)
            if self.hop is None:
                res.append(("one electron hop", hopped))
            elif self.hop == 0.0:
                res.append(("one exchange", exch or not ch))
            else:
                res.append(("one hop or exchange", hopped or exch))
            if self.pairs is not None and len(ch) == 2:
                res.append(("allowed pair of sites", tuple(ch) in [tuple(p) for p in self.pairs]))
            if sites is not None:
                res.append(("reported sites cover the changes", set(ch) <= set(sites[b].tolist())))
                res.append(("reported sites exist", bool(np.all((sites[b] >= 0) & (sites[b] < self.L)))))
        if "corr" in o:
            res.append(("no proposal correction", o["corr"], np.zeros(np.shape(o["corr"]))))
        return res


class ExchangeProposal(Exchange):
    def relation(self, o, a):
        x, y, sites = self.conc(a["x"]), self.conc(o["y"]), self.conc(o["sites"])
        res = [("shape of the proposal", y.shape == x.shape), ("two sites reported", sites.shape == (self.batch, 2))]
        if not all(r[1] for r in res):
            return res
        for X, Y, s in zip(x, y, sites):
            ch = [int(i) for i in np.nonzero(X != Y)[0]]
            res.append(("local states are conserved", sorted(X.tolist()) == sorted(Y.tolist())))
            res.append(("at most one allowed pair of sites is exchanged", not ch or tuple(ch) in self.allowed))
            res.append(("reported sites exist", bool(np.all((s >= 0) & (s < self.L)))))
            res.append(("reported sites cover the changes", set(ch) <= set(s.tolist())))
        if "corr" in o:
            res.append(("no proposal correction", o["corr"], np.zeros(np.shape(o["corr"]))))
        return res


def scenarios(tier):
    S = []

    def exch(name, *k, **kw):
        S.append((name, lambda: ExchangeProposal(name, *k, **kw)))
    exch("spin_exchange_L2", 2)
    exch("spin_exchange_L4", 4)
    exch("spin_exchange_L4_d2_open", 4, d_max=2, pbc=False)
    exch("spin_exchange_L3_clusters_batch2", 3, clusters=[(2, 0), (1, 2)], batch=2)
    exch("spin_exchange_L5", 5)
    exch("fermion_exchange_L3", 3, vals=(0, 1, 2, 3), dtype=np.uint8)

    def add(name, *k, **kw):
        S.append((name, lambda: Proposal(name, *k, **kw)))
    add("L3_n11", 3, (1, 1))
    add("L2_any_table_hopsym", 2, None, hop="sym", pairs=[(0, 1)])
    add("L3_n11_int8", 3, (1, 1), dtype=np.int8)
    add("L3_n21", 3, (2, 1))
    add("L3_n11_hopsym", 3, (1, 1), hop="sym")
    add("L2_any", 2, None)
    add("L2_any_hopsym", 2, None, hop="sym")
    add("L2_batch2", 2, (1, 1), batch=2)
    add("L2_batch2_any_exchange", 2, (1, 1), batch=2, hop=0.0)
    add("L3_n21_hopsym", 3, (2, 1), hop="sym")
    add("L3_n12_exchange", 3, (1, 2), hop=0.0)
    add("L3_n33", 3, (3, 3), hop="sym")
    add("L3_n30", 3, (3, 0), hop="sym")
    add("L3_n21_table", 3, (2, 1), pairs=[(0, 1), (1, 2)])
    add("L3_n11_table_hopsym", 3, (1, 1), hop="sym", pairs=[(0, 1), (0, 2), (1, 2)])
    add("L3_n21_plain", 3, (2, 1), hop="sym", updates=False)
    add("L4_n22", 4, (2, 2))
    add("L4_n12_table", 4, (1, 2), pairs=[(0, 1), (1, 2), (2, 3)])
    if tier != "quick":
        add("L4_n22_hopsym", 4, (2, 2), hop="sym")
        add("L4_n22_table_hopsym", 4, (2, 2), hop="sym", pairs=[(0, 1), (1, 2), (2, 3), (0, 3)])
        add("L3_any_hopsym", 3, None, hop="sym")
        add("L3_batch2", 3, (1, 1), batch=2, hop="sym")
        add("L5_n22", 5, (2, 2))
    return S
