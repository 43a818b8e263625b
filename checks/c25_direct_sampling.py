"""C25: direct autoregressive sampling draws from the model's conditionals.

The sampler runs on an autoregressive model whose conditional distributions are free symbols (one non-negative, possibly
unnormalised row per prefix), with and without a cache, with the plaquette calling convention, with a tuple of support
dimensions (unrolled loop) and with symmetries.  The uniform draws are symbolic reals in [0,1): each path is a box of the
unit cube, its volume must be the product of the conditionals; on every path the chosen states must have non-zero
probability.  The models' own conditionals are the subject of C13."""
from fractions import Fraction

import netket as nk
from flax import linen as nn
from netket.utils import HashableArray

from checks.common import *
from symx import rng
from symx.harness import DrawScenario


def prefixes(base, L):
    return [p for i in range(L) for p in itertools.product(range(base), repeat=i)]


class Conditionals(nn.Module):
    """reads row table[prefix of sampled sites] - the prefix taken from the configuration or accumulated in the cache"""
    L: int
    base: int
    first: int
    step: int
    cached: bool = False
    syms: HashableArray = None

    @property
    def apply_symmetries(self):
        s = np.asarray(self.syms)
        return lambda x: jnp.stack([x[:, p] for p in s], axis=-1)

    @nn.compact
    def _conditional(self, x, index):
        if isinstance(index, tuple):
            index = index[0]
        n = len(prefixes(self.base, self.L))
        t = self.param("table", nn.initializers.ones, (n, self.base), float)
        start = np.cumsum([0] + [self.base ** i for i in range(self.L)]).astype(np.int32)
        d = ((jnp.asarray(x, jnp.int32) - self.first) // self.step)
        if self.cached:
            c = self.variable("cache", "prefix", lambda: jnp.zeros((x.shape[0],), jnp.int32))
            k = jnp.where(index > 0, c.value * self.base + d[:, jnp.maximum(index - 1, 0)], 0)
            c.value = jnp.where(index >= 0, k, c.value)
        else:
            k = jnp.zeros((x.shape[0],), jnp.int32)
            for i in range(self.L):
                k = jnp.where(i < index, k * self.base + d[:, i], k)
        return t[jnp.asarray(start)[jnp.maximum(index, 0)] + k]


class Plaquette(Conditionals):
    masks: HashableArray = None
    plaquettes: HashableArray = None


class Unrolled(Conditionals):
    M: HashableArray = None


class Direct(DrawScenario):
    sample_runs = 1
    validate = 3
    functions = ["GPSKet.sampler.autoreg.batch_choice", "GPSKet.sampler.autoreg._sample_chain", "ARDirectSampler.sample"]

    def __init__(self, name, kind="spin", L=2, chains=1, length=1, calls=1, cached=False, variant=None, syms=None, zero=False):
        self.kind, self.L, self.chains, self.length, self.calls, self.zero = kind, L, chains, length, calls, zero
        if kind == "spin":
            self.hi, self.vals, self.dt = nk.hilbert.Spin(0.5, L), (-1, 1), np.int8
        else:
            from GPSKet.hilbert import FermionicDiscreteHilbert
            self.hi, self.vals, self.dt = FermionicDiscreteHilbert(L), (0, 1, 2, 3), np.uint8
        b = self.base = len(self.vals)
        self.syms = [list(p) for p in (syms or [range(L)])]
        cls = {None: Conditionals, "plaquette": Plaquette, "unrolled": Unrolled}[variant]
        kw = dict(L=L, base=b, first=self.vals[0], step=self.vals[1] - self.vals[0], cached=cached, syms=HashableArray(np.array(self.syms)))
        if variant == "plaquette":
            kw.update(masks=HashableArray(np.ones((L, L))), plaquettes=HashableArray(np.tile(np.arange(L), (L, 1))))
        if variant == "unrolled":
            kw.update(M=HashableArray(np.arange(1, L + 1)))
        self.model = cls(**kw)
        self.pre = prefixes(b, L)
        specs = {"key": Key(2), "t": Real(len(self.pre), b, positive=True, lo=0.1, hi=1.0)}
        Scenario.__init__(self, name, specs, self.call)
        self.bound = "%s L=%d, %d chain(s) x %d sample(s) x %d call(s), cache=%s, %s, %d symmetr%s, %s rows" % (
            kind, L, chains, length, calls, cached, variant or "scan", len(self.syms), "y" if len(self.syms) == 1 else "ies",
            "non-negative" if zero else "positive")
        self.P, self.parts, self.boxes, self.raw, self.why = {}, {}, None, [], None

    def assume(self, a):
        cs = []
        for i in range(len(self.pre)):
            row = [z3.Real("t_%d_%d" % (i, k)) for k in range(self.base)]
            cs += [(v >= 0) if self.zero else (v > 0) for v in row] + [z3.Sum(row) > 0]
        return cs

    def call(self, key, t):
        from GPSKet.sampler import ARDirectSampler

        sa = ARDirectSampler(self.hi, dtype=self.dt)
        v = {"params": {"table": t}}
        st = sa.init_state(self.model, {"params": {"table": jnp.ones_like(t)}}, 0)
        st = st.replace(key=key)
        st = sa.reset(self.model, v, state=st)
        out = []
        for _ in range(self.calls):
            y, st = sa.sample(self.model, v, state=st, chain_length=self.length)
            out.append(y)
        return {"x": jnp.stack(out)}

    def outs_py(self, eng, args):
        o = super().outs_py(eng, args)
        x = np.asarray(o["x"])
        if x.dtype == object:
            x = np.array([eng.concretise(v, jaxi.signed(self.dt)) if jaxi.isz3(v) else int(v) for v in x.reshape(-1)]).reshape(x.shape)
        nsy = len(self.draws.ints)
        if not self.zero:
            if self.boxes is None:
                self.boxes = rng.Boxes(eng.pre)
            n0 = self.boxes.queries
            k = tuple(int(v) for v in x.reshape(-1))
            ints = {n: eng.concretise(v) for n, v in self.draws.ints.items()}
            self.raw.append((k, list(eng.pc), list(self.draws.u), ints))
            try:
                box = self.boxes.box(eng.pc, list(self.draws.u))
            except poly.Unsupported as e:
                # a draw used for more than one decision: see finish
                self.why = e
                return {"x": x}
            eng.stats.feasibility += self.boxes.queries - n0
            w = rng.volume(box) / Expr.const(len(self.syms) ** nsy) if len(self.syms) > 1 else rng.volume(box)
            self.P[k] = self.P.get(k, Expr.const(0)) + w
            self.parts.setdefault(k, []).append((box, ints))
        return {"x": x}

    def prob(self, x, t, one):
        """normalised probability of one configuration: average over the symmetries of the preimages"""
        tot = one - one
        for p in self.syms:
            raw = [None] * self.L
            for i, j in enumerate(p):
                raw[j] = x[i]
            d = [self.vals.index(int(v)) for v in raw]
            q = one
            for i in range(self.L):
                row = t[self.pre.index(tuple(d[:i]))]
                s = row[0]
                for v in row[1:]:
                    s = s + v
                q = q * row[d[i]] / s
            tot = tot + q
        return tot / (one * len(self.syms))

    def relation(self, o, a):
        x = np.asarray(o["x"]).astype(int)
        ok = x.shape == (self.calls, self.chains, self.length, self.L)
        rel = [("shape of the samples", ok)]
        if not ok:
            return rel
        rel.append(("local states", all(int(v) in self.vals for v in x.reshape(-1))))
        if self.zero:
            t = a["t"]
            for r in x.reshape(-1, self.L):
                d = [self.vals.index(int(v)) for v in r]
                for i in range(self.L):
                    e = t[self.pre.index(tuple(d[:i]))][d[i]]
                    rel.append(("probability of a sampled state is not zero",
                                z3.Real("t_%d_%d" % (self.pre.index(tuple(d[:i])), d[i])) > 0 if isinstance(e, Expr) else e > 0))
        return rel

    def pinned(self):
        """values of the conditionals, distinct rationals"""
        return np.array([[Fraction(2 + (5 * i + 3 * k + i * k) % 7, 8) for k in range(self.base)] for i in range(len(self.pre))], dtype=object)

    def at_point(self, eng):
        """the probabilities at one admitted value of the conditionals; decides whether the scenario is violated there"""
        t = self.pinned()
        fix = [z3.Real("t_%d_%d" % ix) == z3.RealVal(str(v)) for ix, v in np.ndenumerate(t)]
        b = rng.Boxes(list(eng.pre) + fix)
        self.P, self.parts = {}, {}
        sub = [(z3.Real("t_%d_%d" % ix), z3.RealVal(str(v))) for ix, v in np.ndenumerate(t)]
        for k, pc, us, ints in self.raw:
            box = b.box([z3.simplify(z3.substitute(c, *sub)) for c in pc], us)
            if box is not None and any(b.leq(hi, lo) for lo, hi in box.values()):
                continue
            w = rng.volume(box) / Expr.const(len(self.syms) ** len(ints))
            self.P[k] = self.P.get(k, Expr.const(0)) + w
            self.parts.setdefault(k, []).append((box, ints))
        eng.stats.feasibility += b.queries
        one = Fraction(1)
        return self.compare(np.vectorize(Fraction)(t), one, Expr.const)

    def compare(self, t, one, wrap):
        rel = []
        for k in itertools.product(self.vals, repeat=self.calls * self.chains * self.length * self.L):
            want = one
            for j in range(0, len(k), self.L):
                want = want * self.prob(k[j:j + self.L], t, one)
            rel.append(("probability of the samples %s" % (list(k),), self.P.get(k, Expr.const(0)), wrap(want)))
        return rel

    def finish(self, eng):
        if self.zero:
            return []
        if self.why is not None:
            rel = self.at_point(eng)
            if all(l.same(r) for _, l, r in rel):
                raise self.why
            self.at = self.pinned()
            return rel
        t, one = jaxi.symarray("t", (len(self.pre), self.base)), Expr.const(1)
        return self.compare(t, one, lambda e: e)

    def replay_final(self, label, cex, rnd):
        import ast
        k = tuple(ast.literal_eval(label[label.index("["):]))
        a0 = Scenario.concrete(self, {}, cex, rnd)
        if self.why is not None:
            a0["t"] = self.at.astype(float)
        sub = {"t_%d_%d" % ix: float(a0["t"][ix]) for ix in np.ndindex(*a0["t"].shape)}
        v = 0.0
        for box, ints in self.parts.get(k, []):
            if box is None:
                continue
            vol, table = 1.0, dict(ints)
            for n, (lo, hi) in box.items():
                l = float(np.real(poly.evaluate(lo[0] / lo[1], sub)))
                h = float(np.real(poly.evaluate(hi[0] / hi[1], sub)))
                table[n] = (l + h) / 2
                vol *= h - l
            a = dict(a0)
            a["__draws__"] = table
            got = tuple(int(q) for q in np.asarray(self.outs_real(a)["x"]).reshape(-1))
            if got != k:
                return None
            v += vol / (len(self.syms) ** len(ints) if len(self.syms) > 1 else 1)
        want = 1.0
        for j in range(0, len(k), self.L):
            want *= self.prob(k[j:j + self.L], a0["t"], 1.0)
        if abs(v - want) < 1e-9:
            return None
        a0["__draws__"] = {}
        return a0, [(label, v, want)]

    def replay_concrete(self, a):
        raise SystemExit("replay: rerun the check; the violation compares probabilities over all draws")


def scenarios(tier):
    S = []

    def add(name, **kw):
        S.append((name, lambda: Direct(name, **kw)))
    add("spin_L2", L=2)
    add("spin_L3", L=3)
    add("spin_L3_cached", L=3, cached=True)
    add("spin_L3_unrolled_cached", L=3, cached=True, variant="unrolled")
    add("spin_L2_unrolled", L=2, variant="unrolled")
    add("spin_L3_plaquette", L=3, variant="plaquette")
    add("spin_L2_plaquette_cached", L=2, variant="plaquette", cached=True)
    add("spin_L2_b2", L=2, length=2)
    add("spin_L2_len2", L=2, length=2, cached=True)
    add("spin_L2_calls2", L=2, calls=2)
    add("spin_L1_len3", L=1, length=3)
    add("spin_L2_sym", L=2, syms=[(0, 1), (1, 0)])
    add("spin_L3_sym", L=3, syms=[(0, 1, 2), (1, 2, 0), (2, 0, 1)])
    add("spin_L2_sym_b2", L=2, length=2, syms=[(0, 1), (1, 0)])
    add("fermion_L1", kind="fermion", L=1)
    add("fermion_L2", kind="fermion", L=2)
    add("fermion_L2_cached", kind="fermion", L=2, cached=True)
    add("spin_L2_zero", L=2, zero=True)
    add("spin_L2_zero_b2", L=2, length=2, zero=True)
    add("spin_L3_zero_cached", L=3, zero=True, cached=True)
    add("fermion_L1_zero", kind="fermion", L=1, zero=True)
    add("fermion_L2_zero", kind="fermion", L=2, zero=True)
    if tier != "quick":
        add("spin_L4", L=4)
        add("spin_L3_b2", L=3, length=2)
        add("fermion_L3_cached", kind="fermion", L=3, cached=True)
        add("fermion_L1_b2_zero", kind="fermion", L=1, length=2, zero=True)
    return S
