"""C18: the fermionic Hilbert space's constraint, enumeration, random states and powers agree.

The constraint and the local indices are evaluated on symbolic occupation strings (bit-vectors); membership in the
enumerated states is decided for a symbolic string.  random_state runs with symbolic permutations/integers as draws: each
path is one outcome; the union over all paths must be the whole sector."""
import netket as nk

from checks.common import *
from symx import rng
from symx.harness import DrawScenario


def space(N, n_elec, power=1):
    from GPSKet.hilbert import FermionicDiscreteHilbert

    hi = FermionicDiscreteHilbert(N, n_elec=n_elec)
    return hi ** power if power != 1 else hi


def states(N, n_elec):
    return [s for s in itertools.product(range(4), repeat=N)
            if n_elec is None or (sum(v & 1 for v in s), sum(v >> 1 for v in s)) == tuple(n_elec)]


class Membership(Scenario):
    lockstep = False

    def __init__(self, name, N, n_elec, power=1, dtype=np.uint8, batch=2):
        self.N, self.n_elec, self.dtype = N * power, n_elec and tuple(power * n for n in n_elec), dtype
        self.hi = space(N, n_elec, power)
        Scenario.__init__(self, name, {"x": Int(batch, self.N, dtype=dtype, lo=0, hi=3)}, self.call)
        self.functions = ["GPSKet.hilbert.discrete_fermion.FermionicSumConstraint.__call__", "FermionicDiscreteHilbert.__init__/__pow__/"
                          "states_to_local_indices", "enumeration of the states (netket, driven by the constraint)"]
        self.bound = "N=%d, n_elec=%s%s, %s, any string" % (N, n_elec, "" if power == 1 else " to the power %d" % power, np.dtype(dtype))
        self.all = np.asarray(self.hi.all_states())

    def call(self, x):
        r = {"index": self.hi.states_to_local_indices(x)}
        if self.hi.constraint is not None:
            r["ok"] = self.hi.constraint(x)
        return r

    def relation(self, o, a):
        x = np.asarray(a["x"])
        B = x.shape[0]
        sym = x.dtype == object
        if sym:
            inside = [z3.And(*sector(list(x[b]), self.n_elec)) if self.n_elec else z3.BoolVal(True) for b in range(B)]
        else:
            x = x.astype(int)
            inside = [self.n_elec is None or (int((x[b] & 1).sum()), int((x[b] >> 1).sum())) == self.n_elec for b in range(B)]
        rel = [("size of the space", (int(self.hi.size), int(self.hi.n_states)) == (self.N, len(states(self.N, self.n_elec)))),
               ("number of enumerated states", self.all.shape == (self.hi.n_states, self.N)),
               ("local states", [int(v) for v in self.hi.local_states] == [0, 1, 2, 3])]
        if self.n_elec is not None:
            rel.append(("constraint present", "ok" in o))
        if "ok" in o:
            rel.append(("constraint", [(o["ok"][b] == inside[b]) for b in range(B)]))
        if sym:
            mem = z3.Or([z3.And([x[0][i] == int(s[i]) for i in range(self.N)]) for s in self.all])
            rel.append(("membership in the enumerated states", mem == inside[0]))
            idx = np.asarray(o["index"])
            rel.append(("local indices", [z3.ZeroExt(56, v) == z3.ZeroExt(64 - w.size(), w) if jaxi.isz3(v) else False
                                          for v, w in zip(idx.reshape(-1), x.reshape(-1))] if idx.shape == x.shape else False))
        else:
            rel.append(("membership in the enumerated states", any(np.array_equal(s, x[0]) for s in self.all) == inside[0]))
            rel.append(("local indices", np.array_equal(np.asarray(o["index"]), x)))
        return rel


class RandomStates(DrawScenario):
    sample_runs = 2

    def __init__(self, name, N, n_elec, batch=1, dtype=np.uint8, power=1):
        self.N, self.n_elec, self.batch, self.dtype = N * power, n_elec and tuple(power * n for n in n_elec), batch, dtype
        self.hi = space(N, n_elec, power)
        Scenario.__init__(self, name, {"key": Key(5)}, self.call)
        self.functions = ["GPSKet.hilbert.random.discrete_fermion.random_state"]
        self.bound = "N=%d, n_elec=%s, %d state(s), every outcome of the draws" % (self.N, self.n_elec, batch)
        self.seen = set()

    def call(self, key):
        return {"x": self.hi.random_state(key, self.batch, dtype=self.dtype)}

    def outs_py(self, eng, args):
        o = super().outs_py(eng, args)
        x = np.asarray(o["x"])
        if x.dtype == object:
            x = np.array([eng.concretise(v) if jaxi.isz3(v) else int(v) for v in x.reshape(-1)]).reshape(x.shape)
        if x.shape == (self.batch, self.N):
            self.seen.add(tuple(map(int, x.reshape(-1))))
        return {"x": x}

    def relation(self, o, a):
        x = np.asarray(o["x"]).astype(int)
        ok = x.shape == (self.batch, self.N)
        rel = [("shape", ok)]
        if ok:
            for r in x:
                rel.append(("random state in the space", bool(((0 <= r) & (r <= 3)).all())))
                if self.n_elec is not None:
                    rel.append(("electron numbers of a random state",
                                (int((r & 1).sum()), int((r >> 1).sum())) == self.n_elec))
        return rel

    def finish(self, eng):
        """every combination of states of the sector comes out for some draw"""
        want = [sum(c, ()) for c in itertools.product(states(self.N, self.n_elec), repeat=self.batch)]
        miss = [w for w in want if w not in self.seen]
        eng.stats.assertions += len(want)
        return [("state %s can be drawn" % (list(miss[0]),), Expr.const(0), Expr.const(1))] if miss else []

    def replay_final(self, label, cex, rnd):
        return {"__draws__": {}, "key": np.asarray(jax.random.PRNGKey(5))}, [(label, "in no outcome of the draws", "in some outcome")]


class Equality(Scenario):
    """two spaces compare equal exactly if they describe the same system"""
    sample_runs = 1
    no_validate = True

    def __init__(self, name, nmax):
        Scenario.__init__(self, name, {"N": Int(2, dtype=np.uint8, lo=1, hi=nmax), "n": Int(2, 2, dtype=np.uint8, lo=0, hi=nmax),
                                       "free": Int(2, dtype=np.uint8, lo=0, hi=1)})
        self.functions = ["FermionicSumConstraint.__eq__/__hash__", "FermionicDiscreteHilbert equality"]
        self.bound = "N <= %d, any filling" % nmax

    def assume(self, a):
        cs = []
        for k in range(2):
            for s in range(2):
                cs += [z3.ULE(a["n"][k, s], a["N"][k]), z3.Implies(a["free"][k] == 1, a["n"][k, s] == 0)]
        return cs

    def outs_py(self, eng, a):
        return self.outs_real(a)

    def outs_real(self, a):
        h = [space(int(a["N"][k]), None if a["free"][k] else tuple(int(v) for v in a["n"][k])) for k in range(2)]
        return {"eq": bool(h[0] == h[1]), "hash": hash(h[0]) == hash(h[1])}

    def relation(self, o, a):
        same = all(np.array_equal(a[k][0], a[k][1]) for k in ("N", "n", "free"))
        return [("equality", o["eq"] == same), ("hash of equal spaces", o["hash"] or not same)]


def scenarios(tier):
    S = []

    def add(cls, name, *k, **kw):
        S.append((name, lambda: cls(name, *k, **kw)))
    for N in range(1, 5 if tier == "quick" else 6):
        for n in itertools.product(range(N + 1), repeat=2):
            if N <= 3 or abs(n[0] - n[1]) <= 1:
                add(Membership, "member_%d_%d%d" % (N, *n), N, n)
    add(Membership, "member_3_any", 3, None)
    add(Membership, "member_3_int8", 3, (2, 1), dtype=np.int8)
    add(Membership, "member_3_int64", 3, (1, 2), dtype=np.int64)
    add(Membership, "power_2_11_2", 2, (1, 1), power=2)
    add(Membership, "power_1_10_3", 1, (1, 0), power=3)
    add(Membership, "power_2_02_2", 2, (0, 2), power=2)
    add(Membership, "power_2_any_2", 2, None, power=2)
    for N in range(1, 4):
        for n in itertools.product(range(N + 1), repeat=2):
            add(RandomStates, "random_%d_%d%d" % (N, *n), N, n)
    add(RandomStates, "random_2_any", 2, None)
    add(RandomStates, "random_4_11", 4, (1, 1))
    add(RandomStates, "random_2_11_b2", 2, (1, 1), batch=2)
    add(RandomStates, "random_2_10_b3", 2, (1, 0), batch=3)
    add(RandomStates, "random_2_10_pow2", 2, (1, 0), power=2)
    add(RandomStates, "random_2_11_int8", 2, (1, 1), dtype=np.int8)
    add(RandomStates, "random_5_21", 5, (2, 1))
    add(RandomStates, "random_5_02", 5, (0, 2))
    add(RandomStates, "random_4_31", 4, (3, 1))
    add(RandomStates, "random_3_21_b2", 3, (2, 1), batch=2)
    add(Equality, "equality", 2)
    if tier != "quick":
        add(RandomStates, "random_4_22", 4, (2, 2))
        add(RandomStates, "random_5_32", 5, (3, 2))
        add(Equality, "equality3", 3)
    return S
