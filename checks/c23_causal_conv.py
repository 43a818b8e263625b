"""C23: causal convolutions and the PixelCNN never look ahead; the PixelCNN wave function is normalised.

Images are symbolic reals (every input at once), weights are symbolic; the solver picks the site.  The same network is
evaluated on x and on a copy in which every entry that the site may not depend on is replaced by an independent symbol."""
import netket as nk
from flax import linen as nn

from checks.common import *


class Net(Scenario):
    def __init__(self, name, model, ex):
        self.model = model
        self.names, leaves, self.tree, self.others = flat_params(model, *ex) if len(ex) == 1 else self._flat(model, ex)
        self.pspecs = param_specs(self.names, leaves)

    @staticmethod
    def _flat(model, ex):
        p = model.init(jax.random.PRNGKey(0), *ex)["params"]
        leaves, tree = jax.tree_util.tree_flatten(p)
        names = ["p_" + "_".join(str(getattr(k, "key", k)) for k in path) for path, _ in jax.tree_util.tree_flatten_with_path(p)[0]]
        return names, leaves, tree, {}

    def prepare(self):
        jaxi.UF_RELU = True

    def vars(self, a):
        return {"params": jax.tree_util.tree_unflatten(self.tree, [a[n] for n in self.names]), **self.others}


class Stack(Net):
    """one masked convolution"""

    def __init__(self, name, cls, k, centre, dil, H=3, W=3, C=1, F=1, dtype=np.float64, vertical=True):
        import GPSKet.nn as gnn

        self.vert, self.centre, self.H, self.W = vertical, centre, H, W
        m = getattr(gnn, cls)(features=F, kernel_size=k, mask_center=centre, dilation=dil, param_dtype=dtype,
                              bias_init=nn.initializers.normal())
        Net.__init__(self, name, m, [np.zeros((1, H, W, C), np.float64)])
        sp = dict(self.pspecs)
        sp.update(x=Real(1, H, W, C), z=Real(1, H, W, C), r=Int(dtype=np.int64, lo=0, hi=H - 1), c=Int(dtype=np.int64, lo=0, hi=W - 1))
        Scenario.__init__(self, name, sp, self.call)
        self.functions = ["GPSKet.nn.causal_conv.%s.__call__" % cls, "GPSKet.nn.causal_conv.MaskedConv2D.__call__"]
        self.bound = "%dx%d images, %d/%d channels, kernel size %d, dilation %d, mask_center=%s" % (H, W, C, F, k, dil, centre)

    def call(self, x, z, r, c, **a):
        I, J = np.indices((self.H, self.W))
        if self.vert:
            seen = I < r if self.centre else I <= r
        else:
            seen = (I == r) & (J < c if self.centre else J <= c)
        v = self.vars(a)
        y = self.model.apply(v, x)
        w = self.model.apply(v, jnp.where(seen[None, :, :, None], x, z))
        return {"x": y[0, r, c], "mix": w[0, r, c]}

    def relation(self, o, a):
        return [("output sees only earlier sites", o["mix"], o["x"])]


class Causal2d(Net):
    """one layer: vertical output sees rows up to its own, horizontal output the row up to its own column and rows up to its own"""

    def __init__(self, name, k, H=3, W=3, C=1):
        import GPSKet.nn as gnn

        self.H, self.W = H, W
        m = gnn.CausalConv2d(n_channels=C, kernel_size=k, param_dtype=np.float64, bias_init=nn.initializers.normal())
        z = np.zeros((1, H, W, C), np.float64)
        Net.__init__(self, name, m, [z, z])
        sp = dict(self.pspecs)
        sp.update(v=Real(1, H, W, C), h=Real(1, H, W, C), v2=Real(1, H, W, C), h2=Real(1, H, W, C),
                  r=Int(dtype=np.int64, lo=0, hi=H - 1), c=Int(dtype=np.int64, lo=0, hi=W - 1))
        Scenario.__init__(self, name, sp, self.call)
        self.functions = ["GPSKet.nn.causal_conv.CausalConv2d.__call__"]
        self.bound = "%dx%d images, %d channels, kernel size %d" % (H, W, C, k)

    def call(self, v, h, v2, h2, r, c, **a):
        I, J = np.indices((self.H, self.W))
        p = self.vars(a)
        vo, ho = self.model.apply(p, v, h)
        vm, hm = self.model.apply(p, jnp.where((I <= r)[None, :, :, None], v, v2),
                                  jnp.where(((I == r) & (J <= c))[None, :, :, None], h, h2))
        vn, _ = self.model.apply(p, jnp.where((I <= r)[None, :, :, None], v, v2), h2)
        return {"v": vo[0, r, c], "vm": vn[0, r, c], "h": ho[0, r, c], "hm": hm[0, r, c]}

    def relation(self, o, a):
        return [("vertical stack sees rows up to its own", o["vm"], o["v"]),
                ("horizontal stack sees its row up to its column", o["hm"], o["h"])]


class Pixel(Net):
    def __init__(self, name, L=2, k=3, C=1, depth=1, dtype=np.float64, D=2, power=2):
        from GPSKet.models import pixelcnn

        self.L, self.N, self.D, self.power = L, L * L, D, power
        self.hi = nk.hilbert.Spin(0.5, L * L) if D == 2 else nk.hilbert.Fock(D - 1, L * L)
        m = pixelcnn.PixelCNN(self.hi, machine_pow=power, param_dtype=dtype, kernel_size=k, n_channels=C, depth=depth,
                              bias_init=nn.initializers.normal())
        Net.__init__(self, name, m, [np.zeros((1, L * L), np.float64) + (1 if D == 2 else 0)])
        self.functions = ["GPSKet.models.pixelcnn.PixelCNN.conditionals_log_psi", "GPSKet.nn.causal_conv.*"]
        self.bound = "%dx%d lattice, %d local states, kernel size %d, %d channel(s), %d layer(s), %s, machine_pow=%d" % (
            L, L, D, k, C, depth, np.dtype(dtype).name, power)


class PixelCausal(Pixel):
    def __init__(self, name, **kw):
        Pixel.__init__(self, name, **kw)
        sp = dict(self.pspecs)
        sp.update(x=Real(1, self.N), z=Real(1, self.N), s=Int(dtype=np.int64, lo=0, hi=self.N - 1))
        Scenario.__init__(self, name, sp, self.call)

    def call(self, x, z, s, **a):
        v = self.vars(a)
        f = lambda q: self.model.apply(v, q, method=self.model.conditionals_log_psi)
        mix = jnp.where((np.arange(self.N) < s)[None], x, z)
        return {"x": f(x)[0, s], "mix": f(mix)[0, s]}

    def relation(self, o, a):
        s, power = 0, self.power
        rel = [("conditional of a site ignores that site and later ones", o["mix"], o["x"])]
        if np.dtype(self.model.param_dtype).kind == "c":
            return rel  # the logarithm of the norm of complex conditionals is not recognised as real
        x = o["x"]
        if np.asarray(x).dtype == object:
            tot = poly.ZERO
            for e in x:
                tot = tot + poly.exp(poly.real(e) * power)
        else:
            tot = np.sum(np.exp(power * np.real(x)))
        rel.append(("conditional of a site sums to one", tot, 1.0))
        return rel


class PixelAmplitude(Pixel):
    """log-amplitude = sum of the log-conditionals at the configuration's local states; batches elementwise"""

    def __init__(self, name, batch=1, **kw):
        Pixel.__init__(self, name, **kw)
        self.batch = batch
        self.vals = [int(v) for v in self.hi.local_states]
        sp = dict(self.pspecs)
        sp.update(x=Int(batch, self.N, dtype=np.int8, lo=min(self.vals), hi=max(self.vals)))
        Scenario.__init__(self, name, sp, self.call)

    def assume(self, a):
        return [z3.Or([v == q for q in self.vals]) for v in np.asarray(a["x"]).reshape(-1)]

    def call(self, x, **a):
        v = self.vars(a)
        c = jnp.concatenate([self.model.apply(v, x[b:b + 1].astype(float), method=self.model.conditionals_log_psi)
                             for b in range(self.batch)])
        p = jnp.concatenate([self.model.apply(v, x[b:b + 1], method=self.model.conditionals) for b in range(self.batch)])
        one = jnp.stack([self.model.apply(v, x, i, method=self.model.conditional) for i in range(self.N)], axis=1)
        return {"amp": self.model.apply(v, x), "cond": c, "prob": p, "one": one}

    def relation(self, o, a):
        x = np.asarray(a["x"]).astype(int)
        want = []
        for b in range(self.batch):
            t = 0
            for i in range(self.N):
                t = t + o["cond"][b, i, self.vals.index(int(x[b, i]))]
            want.append(t)
        want = np.array(want, dtype=object if np.asarray(o["amp"]).dtype == object else None)
        res = [("amplitude is the product of the conditionals", o["amp"], want, "log"),
               ("one-site conditionals", o["one"], o["prob"])]
        c = np.asarray(o["cond"])
        if c.dtype == object:
            pr = jaxi.ew(lambda e: poly.exp(poly.real(e) * self.power), c)
        else:
            pr = np.exp(self.power * c.real)
        res.append(("conditional probabilities", o["prob"], pr))
        return res


class PixelGauge(Pixel):
    """states that break the gauge constraint get probability zero, the others are normalised among themselves"""

    def __init__(self, name, **kw):
        from GPSKet.models import pixelcnn

        Pixel.__init__(self, name, **kw)
        # the constraint forbids, at each site, the value opposite to the previous site's (and nothing at the first site)

        def gauge(x):
            prev = jnp.concatenate([jnp.zeros_like(x[:, :1]), x[:, :-1]], axis=1)
            return prev[:, :, None] * jnp.array([-1.0, 1.0])

        self.model = self.model.clone(gauge_fn=gauge, constraint_fn=lambda g: g < 0)
        sp = dict(self.pspecs)
        sp.update(x=Int(1, self.N, dtype=np.int8, lo=-1, hi=1))
        Scenario.__init__(self, name, sp, self.call)

    def assume(self, a):
        return [v != 0 for v in np.asarray(a["x"]).reshape(-1)]

    def call(self, x, **a):
        return {"p": self.model.apply(self.vars(a), x, method=self.model.conditionals)}

    def relation(self, o, a):
        x = np.asarray(a["x"]).astype(int)[0]
        p = o["p"][0]
        rel = []
        for i in range(self.N):
            rel.append(("conditional sums to one", p[i][0] + p[i][1], 1.0))
            if i:
                rel.append(("broken local state has probability zero", p[i][0 if x[i - 1] > 0 else 1], 0.0))
        return rel


def scenarios(tier):
    S = []

    def add(cls, name, *k, **kw):
        S.append((name, lambda: cls(name, *k, **kw)))

    for k in (1, 2, 3, 4, 5):
        for ce in (True, False):
            for dil in (1, 2) if k in (2, 3) else (1,):
                W = 4 if k >= 4 or dil == 2 else 3
                n = "k%d_%s_d%d" % (k, "strict" if ce else "incl", dil)
                add(Stack, "vertical_" + n, "VerticalStackConv", k, ce, dil, H=W, W=3)
                add(Stack, "horizontal_" + n, "HorizontalStackConv", k, ce, dil, H=2, W=W, vertical=False)
    add(Stack, "vertical_channels", "VerticalStackConv", 3, True, 1, C=2, F=2)
    add(Stack, "horizontal_channels", "HorizontalStackConv", 3, True, 1, C=2, F=2, vertical=False)
    add(Stack, "vertical_complex", "VerticalStackConv", 3, True, 1, dtype=np.complex128)
    for k in (2, 3, 5):
        add(Causal2d, "layer_k%d" % k, k)
    add(Causal2d, "layer_k3_c2", 3, C=2)
    add(PixelCausal, "pixel_L2_depth1", depth=1)
    add(PixelCausal, "pixel_L2_depth2_c2", depth=2, C=2)
    add(PixelCausal, "pixel_L3_depth1", L=3, depth=1)
    add(PixelCausal, "pixel_L3_depth2", L=3, depth=2)
    add(PixelCausal, "pixel_L3_depth1_k5", L=3, depth=1, k=5)
    add(PixelCausal, "pixel_L3_depth1_k2", L=3, depth=1, k=2)
    add(PixelCausal, "pixel_L2_depth0", depth=0, C=2)
    add(PixelCausal, "pixel_L2_complex", depth=1, dtype=np.complex128)
    add(PixelCausal, "pixel_L2_D3_pow1", depth=1, D=3, power=1)
    add(PixelAmplitude, "amplitude_L2", depth=1)
    add(PixelAmplitude, "amplitude_L1_batch2", L=1, depth=1, batch=2)
    add(PixelAmplitude, "amplitude_L2_complex", depth=1, dtype=np.complex128)
    add(PixelAmplitude, "amplitude_L2_D3", depth=1, D=3, power=1)
    add(PixelGauge, "gauge_L2", depth=1)
    if tier != "quick":
        add(PixelCausal, "pixel_L4_depth2", L=4, depth=2)
        add(PixelCausal, "pixel_L3_depth3_c2", L=3, depth=3, C=2)
        add(PixelCausal, "pixel_L4_depth1_k5", L=4, depth=1, k=5)
        add(Stack, "vertical_k7", "VerticalStackConv", 7, True, 1, H=5, W=4)
        add(Stack, "horizontal_k7", "HorizontalStackConv", 7, True, 1, H=2, W=5, vertical=False)
    return S
