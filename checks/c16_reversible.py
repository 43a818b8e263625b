"""C16: the proposal distribution of the hopping rule is symmetric.

Each feasible path of the rule is a box of the unit cube of its uniform draws (one interval per draw, bounds are
expressions in the table / hop probability); the probability of proposing x' from x is the sum of the volumes of its
paths.  z3 decides P(x -> x') = P(x' -> x) for all admitted tables and hop probabilities, and that every move the rule is
meant to make has a positive probability.  For the exchange rule the draw is a uniform integer: its values are counted."""
from checks.exchange import Exchange
from checks.hopping import *


def hops(x, pairs, hop, exchange):
    """configurations one allowed move away"""
    out = set()
    L = len(x)
    for i in range(L):
        for j in range(L):
            if i == j or (pairs is not None and tuple(sorted((i, j))) not in pairs):
                continue
            if hop:
                for s in (1, 2):
                    if x[i] & s and not x[j] & s:
                        y = list(x)
                        y[i] -= s
                        y[j] += s
                        out.add(tuple(y))
            if exchange and {x[i], x[j]} == {1, 2}:
                y = list(x)
                y[i], y[j] = x[j], x[i]
                out.add(tuple(y))
    return out


class Symmetric:
    """mixin: probabilities of the moves of a rule"""
    def prepare(self):
        super().prepare()
        self.names = ([], {})
        self.P = {}
        self.parts = {}
        self.boxes = None

    def relation(self, o, a):
        return []

    def note(self, o, a, eng):
        if self.boxes is None:
            self.boxes = rng.Boxes(eng.pre)
        x = tuple(int(v) for v in np.asarray(a["x"])[0])
        y = np.asarray(o["y"])
        y = tuple(int(v) for v in (self.conc(y)[0] if y.dtype == object else y[0]))
        if "corr" in o:
            raise poly.Unsupported("the rule returns a proposal correction")
        ints = {n: int(eng.concretise(v, True)) for n, v in self.draws.ints.items()}
        w = Expr.const(1)
        for n in ints:
            if not n.startswith("i!"):
                raise poly.Unsupported("probability of a permutation")
            lo, hi = self.draws.range[n]
            w = w / Expr.const(hi - lo)
        self.names = (list(self.draws.u), dict(self.draws.range))
        n0 = self.boxes.queries
        box = self.boxes.box(eng.pc, list(self.draws.u))
        eng.stats.feasibility += self.boxes.queries - n0
        self.P.setdefault(x, {})
        self.P[x][y] = self.P[x].get(y, Expr.const(0)) + rng.volume(box) * w
        if box is not None:
            self.parts.setdefault((x, y), []).append((box, ints))

    def outs_py(self, eng, args):
        o = super().outs_py(eng, args)
        self.note(o, args, eng)
        return o

    def finish(self, eng):
        rel = []
        for x, row in self.P.items():
            tot = Expr.const(0)
            for v in row.values():
                tot = tot + v
            rel.append(("total probability from %s" % (list(x),), tot, Expr.const(1)))
            for y, p in row.items():
                if y > x or y not in self.P:
                    q = self.P.get(y, {}).get(x, Expr.const(0))
                    rel.append(("P(%s -> %s) = P(%s -> %s)" % (list(x), list(y), list(y), list(x)), p, q))
                elif y < x and x not in self.P[y]:
                    rel.append(("P(%s -> %s) = P(%s -> %s)" % (list(x), list(y), list(y), list(x)), p, Expr.const(0)))
            for y in sorted(self.moves(x)):
                p = row.get(y, Expr.const(0))
                n0 = self.boxes.queries
                ok = self.boxes.positive(p)
                eng.stats.feasibility += self.boxes.queries - n0
                rel.append(("can move %s -> %s" % (list(x), list(y)), Expr.const(int(ok)), Expr.const(1)))
        return rel

    def never(self, label, cex, rnd):
        """no draw out of many makes the move in the real code"""
        import ast
        m = label[len("can move "):].split(" -> ")
        x, y = tuple(ast.literal_eval(m[0])), tuple(ast.literal_eval(m[1]))
        a0 = Scenario.concrete(self, {"x": np.array([x])}, cex, rnd)
        a0["x"] = np.array([x], dtype=self.specs["x"].dtype)
        names = self.names
        for _ in range(150):
            a = dict(a0)
            a["__draws__"] = {**{n: rnd.random() for n in names[0]}, **{n: rnd.randrange(*r) for n, r in names[1].items()}}
            if tuple(int(q) for q in np.asarray(self.outs_real(a)["y"])[0]) == y:
                return None
        a0["__draws__"] = {}
        return a0, [(label, 0.0, 1.0)]

    def replay_final(self, label, cex, rnd):
        """volume of the draws for which the real code makes the move, each box confirmed by a real call at its centre"""
        import ast
        if label.startswith("can move"):
            return self.never(label, cex, rnd)
        if not label.startswith("P("):
            return None
        m = label[2:].split(")")[0].split(" -> ")
        x, y = tuple(ast.literal_eval(m[0])), tuple(ast.literal_eval(m[1]))
        a0 = Scenario.concrete(self, {"x": np.array([x])}, cex, rnd)
        sub = {}
        if "h" in a0:
            sub["h_"] = float(a0["h"])
        if "T" in a0:
            for k in range(len(self.pairs)):
                sub["T_%d" % k] = float(a0["T"][k])
        num = []
        for s, t in ((x, y), (y, x)):
            v = 0.0
            for box, ints in self.parts.get((s, t), []):
                vol, table = 1.0, dict(ints)
                for n in ints:
                    vol /= self.names[1][n][1] - self.names[1][n][0]
                for n, (lo, hi) in box.items():
                    l = float(np.real(poly.evaluate(lo[0] / lo[1], sub)))
                    h = float(np.real(poly.evaluate(hi[0] / hi[1], sub)))
                    table[n] = (l + h) / 2
                    vol *= h - l
                a = dict(a0)
                a["x"] = np.array([s], dtype=self.specs["x"].dtype)
                a["__draws__"] = table
                got = tuple(int(q) for q in np.asarray(self.outs_real(a)["y"])[0])
                if got != t:
                    return None
                v += vol
            num.append(v)
        if abs(num[0] - num[1]) < 1e-9:
            # parameters for which the two sides differ visibly
            return None
        a = dict(a0)
        a["__draws__"] = {}
        return a, [(label, num[0], num[1])]

    def replay_concrete(self, a):
        raise SystemExit("replay: rerun the check; the violation compares probabilities over all draws")


class Reversible(Symmetric, Hopping):
    def moves(self, x):
        return hops(x, None if self.pairs is None else {tuple(p) for p in self.pairs}, self.hop != 0.0, self.hop is not None)


class ReversibleExchange(Symmetric, Exchange):
    def moves(self, x):
        out = set()
        for i, j in self.allowed:
            if x[i] != x[j]:
                y = list(x)
                y[i], y[j] = x[j], x[i]
                out.add(tuple(y))
        return out


def scenarios(tier):
    S = []

    def exch(name, *k, **kw):
        S.append((name, lambda: ReversibleExchange(name, *k, **kw)))
    exch("spin_exchange_L2", 2)
    exch("spin_exchange_L4", 4)
    exch("spin_exchange_L4_d2_open", 4, d_max=2, pbc=False)
    exch("spin_exchange_L3_clusters", 3, clusters=[(2, 0), (1, 2)])
    exch("spin_exchange_L5", 5)
    exch("fermion_exchange_L3", 3, vals=(0, 1, 2, 3), dtype=np.uint8)

    def add(name, *k, **kw):
        S.append((name, lambda: Reversible(name, *k, **kw)))
    add("L2_n11", 2, (1, 1), hop="sym")
    add("L3_n11", 3, (1, 1), hop="sym")
    add("L3_n11_int8", 3, (1, 1), hop="sym", dtype=np.int8)
    add("L2_any_table", 2, None, hop="sym", pairs=[(0, 1)])
    add("L3_n21", 3, (2, 1), hop="sym")
    add("L3_n12_exchange", 3, (1, 2), hop=0.0)
    add("L3_n20", 3, (2, 0), hop="sym")
    add("L3_n11_table", 3, (1, 1), pairs=[(0, 1), (0, 2), (1, 2)])
    add("L3_n21_table_hopsym", 3, (2, 1), hop="sym", pairs=[(0, 1), (1, 2)])
    add("L3_n21_plain_table", 3, (2, 1), hop="sym", updates=False, pairs=[(0, 1), (0, 2), (1, 2)])
    add("L3_any", 3, None)
    add("L4_n22", 4, (2, 2))
    add("L4_n12_hopsym", 4, (1, 2), hop="sym")
    if tier != "quick":
        add("L4_n22_hopsym", 4, (2, 2), hop="sym")
        add("L4_n21_table", 4, (2, 1), hop="sym", pairs=[(0, 1), (1, 2), (2, 3), (0, 3)])
        add("L5_n22", 5, (2, 2))
        add("L4_any", 4, None)
    return S
