"""Symbolic execution of numerical numpy code: object arrays that know whether
they stand for real or complex floats, and exact stand-ins for the linear
algebra of numpy and scipy."""
import types

import numpy as np
import scipy
import scipy.linalg

from . import jaxi, poly, pyexec
from .poly import Expr, ONE, ZERO, Unsupported

_RAW = np.ndarray.dtype


def raw(x):
    return _RAW.__get__(x)


def is_obj(x):
    return isinstance(x, np.ndarray) and raw(x) == object


def _e(v):
    return v if isinstance(v, Expr) else Expr.const(v)


class KArr(np.ndarray):
    """object array of symbolic numbers; dtype reports float or complex"""

    kind = None

    def __array_finalize__(self, obj):
        self.kind = None

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        # comparisons and logical functions give ordinary arrays
        if raw(arr) != object:
            return arr[()] if return_scalar else arr.view(np.ndarray)
        if return_scalar and arr.ndim == 0:
            return arr[()]
        return arr.view(KArr)

    @property
    def dtype(self):
        if raw(self) != object:
            return raw(self)
        if self.kind is None:
            return np.dtype(float if all(poly.is_real(_e(v)) for v in np.asarray(self).reshape(-1)) else complex)
        return np.dtype(self.kind)

    def like(self, x):
        if isinstance(x, np.ndarray) and raw(x) == object:
            x = x.view(KArr)
            x.kind = self.kind
        return x

    def __getitem__(self, ix):
        return self.like(super().__getitem__(ix))

    def copy(self, *a, **k):
        return self.like(super().copy(*a, **k))

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype).kind not in "fc":
            raise Unsupported("cast of symbolic floats to %s" % dtype)
        return karr(np.asarray(self), np.dtype(dtype))

    @property
    def real(self):
        return karr(jaxi.ew(lambda v: poly.real(_e(v)), np.asarray(self)), float)

    @property
    def imag(self):
        return karr(jaxi.ew(lambda v: poly.imag(_e(v)), np.asarray(self)), float)

    def dot(self, o):
        return _dot(self, o)


def karr(x, kind=None):
    x = np.array(x, dtype=object)
    out = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(*x.shape):
        out[ix] = _e(x[ix])
    out = out.view(KArr)
    out.kind = None if kind is None else np.dtype(kind)
    return out


def _has(x):
    if isinstance(x, Expr) or is_obj(x):
        return True
    return isinstance(x, (list, tuple)) and any(_has(v) for v in x)


def _fl(dtype):
    return dtype is None or np.dtype(dtype).kind in "fc"


def _wrap(x):
    return karr(x) if is_obj(x) else x


def _dot(a, b):
    r = np.dot(np.asarray(a), np.asarray(b))
    return _wrap(r) if isinstance(r, np.ndarray) else r


def _creator(name, f):
    def g(*a, **k):
        full = name.startswith("full")
        pos = 2 if full else 1
        dtype = k.get("dtype", a[pos] if len(a) > pos else None)
        if name.endswith("_like"):
            if dtype is None:
                dtype = a[0].dtype if isinstance(a[0], np.ndarray) else np.asarray(a[0]).dtype
            shape = np.shape(a[0])
        else:
            shape = a[0] if a else k["shape"]
        fill = (a[1] if len(a) > 1 else k["fill_value"]) if full else {"z": 0, "o": 1, "e": 0}[name[0]]
        if not _fl(dtype) or full and dtype is None and not _has(fill):
            return f(*a, **k)
        out = np.empty(shape, dtype=object)
        out.fill(_e(fill) if name[0] != "e" or full else poly.NAN)
        return karr(out, float if dtype is None and not full else dtype)
    return g


def _caster(f):
    def g(x, dtype=None, **k):
        if _has(x) and _fl(dtype):
            if isinstance(x, KArr) and dtype is None:
                return x.like(karr(np.asarray(x)))
            return karr(x, dtype)
        return f(x, dtype=dtype, **k) if dtype is not None else f(x, **k)
    return g


def _unary(p, f):
    def g(x, *a, **k):
        if isinstance(x, Expr):
            return p(x)
        if _has(x):
            return karr(jaxi.ew(lambda v: p(_e(v)), np.array(x, dtype=object)))
        return f(x, *a, **k)
    return g


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not _has(x):
        return np.nan_to_num(x, nan=nan, posinf=posinf, neginf=neginf)
    big = Expr.const(np.finfo(float).max)
    rep = {"nan": _e(nan), "pinf": big if posinf is None else _e(posinf), "ninf": -big if neginf is None else _e(neginf)}
    return karr(jaxi.ew(lambda v: rep[v.sp] if v.sp in rep else v, np.asarray(x)))


# ------------------------------------------------------------------ linear algebra
def _mat(a):
    a = np.array(np.asarray(a), dtype=object)
    return np.array([[_e(v) for v in r] for r in a.reshape(a.shape[0], -1)], dtype=object).reshape(a.shape)


class Minors:
    """determinants of sub-matrices without divisions"""

    def __init__(self, a):
        self.a, self.memo = _mat(a), {}

    def __call__(self, rows, cols):
        rows, cols = tuple(rows), tuple(cols)
        if not rows:
            return ONE
        r = self.memo.get((rows, cols))
        if r is None:
            r = ZERO
            for j, c in enumerate(cols):
                v = self.a[rows[-1], c]
                if not v.is_zero():
                    t = v * self(rows[:-1], cols[:j] + cols[j + 1:])
                    r = r + t if (len(rows) - 1 - j) % 2 == 0 else r - t
            self.memo[rows, cols] = r
        return r


def blocks(a):
    """index sets of the diagonal blocks"""
    n = a.shape[0]
    left, out = set(range(n)), []
    while left:
        todo = [min(left)]
        comp = set(todo)
        while todo:
            i = todo.pop()
            for j in list(left - comp):
                if not (a[i, j].is_zero() and a[j, i].is_zero()):
                    comp.add(j)
                    todo.append(j)
        left -= comp
        out.append(sorted(comp))
    return out


def _blockwise(f, a):
    """f on every diagonal block, put together"""
    a = _mat(a)
    out = np.full(a.shape, ZERO, dtype=object)
    for b in blocks(a):
        out[np.ix_(b, b)] = np.asarray(f(a[np.ix_(b, b)]))
    return out


def cholesky(a, lower=False, **k):
    a = _mat(a)
    L = karr(_blockwise(_cholesky, a))
    FACTORS[id(L)] = (L, a)
    if lower:
        return L
    H = karr(np.array([[poly.conj(v) for v in r] for r in L.T], dtype=object).reshape(L.shape))
    FACTORS[id(H)] = (H, a)
    return H


def _cholesky(a):
    """the factor of a positive definite matrix: L_ij = minor(0..j-1,i; 0..j) / sqrt(D_j D_j-1)"""
    m = Minors(a)
    n = m.a.shape[0]
    D = [poly.real(m(range(j + 1), range(j + 1))) for j in range(n)]
    L = np.full((n, n), ZERO, dtype=object)
    for j in range(n):
        q = poly.sqrt(D[j] * (D[j - 1] if j else ONE))
        for i in range(j, n):
            L[i, j] = (D[j] if i == j else m(tuple(range(j)) + (i,), range(j + 1))) / q
    return L


def _cholesky_inv(a):
    m = Minors(a)
    n = m.a.shape[0]
    D = [poly.real(m(range(j + 1), range(j + 1))) for j in range(n)]
    out = np.full((n, n), ZERO, dtype=object)
    for i in range(n):
        q = poly.sqrt(D[i] * (D[i - 1] if i else ONE))
        for j in range(i + 1):
            t = m([c for c in range(i + 1) if c != j], range(i))
            out[i, j] = (t if (i + j) % 2 == 0 else -t) / q
    return out


FACTORS = {}


def solve(a, b, **k):
    a, b = _mat(a), np.asarray(b)
    out = np.empty(b.shape, dtype=object)
    for ix in blocks(a):
        out[ix] = np.asarray(_solve(a[np.ix_(ix, ix)], b[ix]))
    return karr(out)


def _solve(a, b):
    """Cramer's rule"""
    b = np.asarray(b)
    m = Minors(a)
    n = m.a.shape[0]
    c = np.array(b, dtype=object).reshape(n, -1)
    all_ = tuple(range(n))
    d = m(all_, all_)
    if poly.is_zero(d):
        raise np.linalg.LinAlgError("singular matrix")
    out = np.empty(c.shape, dtype=object)
    for s in range(c.shape[1]):
        for i in range(n):
            t = ZERO
            for r in range(n):
                v = _e(c[r, s])
                if not v.is_zero():
                    q = v * m(all_[:r] + all_[r + 1:], all_[:i] + all_[i + 1:])
                    t = t + q if (r + i) % 2 == 0 else t - q
            out[i, s] = t / d
    return karr(out.reshape(b.shape))


def _back(a, b, lower):
    """substitution"""
    b = np.asarray(b)
    n = a.shape[0]
    c = np.array(b, dtype=object).reshape(n, -1)
    for s in range(c.shape[1]):
        for i in range(n) if lower else range(n - 1, -1, -1):
            t = _e(c[i, s])
            for r in range(i) if lower else range(i + 1, n):
                t = t - a[i, r] * c[r, s]
            c[i, s] = t / a[i, i]
    return karr(c.reshape(b.shape))


def det(a):
    m = Minors(a)
    n = range(m.a.shape[0])
    return m(n, n)


def inv(a, **k):
    n = np.shape(a)[0]
    return solve(a, np.eye(n))


def solve_triangular(a, b, trans=0, lower=False, **k):
    f = FACTORS.get(id(a))
    if f is not None and f[0] is a and lower and trans in (0, "N") and np.array_equal(np.asarray(b), np.eye(len(a))):
        # inverse of a Cholesky factor, from the minors
        return karr(_blockwise(_cholesky_inv, f[1]))
    a = _mat(a)
    a = np.array(np.tril(a) if lower else np.triu(a))
    if trans in (1, "T"):
        a, lower = a.T, not lower
    elif trans in (2, "C"):
        a, lower = np.array([[poly.conj(_e(v)) for v in r] for r in a.T], dtype=object), not lower
    return _back(a, b, lower)


def cho_factor(a, lower=False, **k):
    return cholesky(a, lower), lower


def cho_solve(cl, b, **k):
    c, low = cl
    f = FACTORS.get(id(c))
    if f is not None and f[0] is c:
        return solve(f[1], b)
    c = _mat(c)
    h = np.array([[poly.conj(v) for v in r] for r in c.T], dtype=object).reshape(c.shape)
    return solve(np.dot(c, h) if low else np.dot(h, c), b)


def lstsq(a, b, *r, **k):
    return solve(a, b), None, np.shape(a)[0], None


def slogdet(a):
    d = det(a)
    return poly.sign(d), poly.log(d)


class Linalg(types.ModuleType):
    """exact linear algebra on symbolic matrices, the real one otherwise"""

    table = {"cholesky": cholesky, "solve": solve, "inv": inv, "pinvh": inv, "pinv": inv, "solve_triangular": solve_triangular,
             "cho_solve": cho_solve, "cho_factor": cho_factor, "lstsq": lstsq, "det": det, "slogdet": slogdet}

    def __init__(self, real):
        super().__init__(real.__name__)
        self.real = real

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(self.real, name)
        g = self.table.get(name)
        if g is None:
            if callable(f) and not isinstance(f, type):
                def h(*a, **k):
                    if _has(list(a)):
                        raise Unsupported("%s of symbolic values" % name)
                    return f(*a, **k)
                return h
            return f
        low = {"lower": True} if self.real is np.linalg and name == "cholesky" else {}

        def h(*a, **k):
            if not _has(list(a)):
                return f(*a, **k)
            return g(*a, **low, **k)
        return h


class Np(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.lin = Linalg(np.linalg)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "linalg":
            return self.lin
        r = getattr(np, name)
        if name in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like"):
            return _creator(name, r)
        if name in ("array", "asarray", "ascontiguousarray", "asanyarray", "copy"):
            return _caster(r)
        if name == "log1p":
            return _unary(lambda v: poly.log(v + 1), r)
        if name == "expm1":
            return _unary(lambda v: poly.exp(v) - 1, r)
        if name == "square":
            return _unary(lambda v: v * v, r)
        if name in pyexec._UNARY:
            return _unary(pyexec._UNARY[name], r)
        if name == "nan_to_num":
            return _nan_to_num
        if name in ("iscomplexobj", "isrealobj"):
            return lambda x: r(np.zeros((), dtype=x.dtype) if isinstance(x, np.ndarray) else 1j if isinstance(x, Expr) and not poly.is_real(x) else 1.0 if isinstance(x, Expr) else x)
        if name in ("result_type", "common_type", "promote_types"):
            return lambda *x: r(*[v.dtype if isinstance(v, np.ndarray) else v for v in x])
        if name == "einsum":
            return _einsum
        if name in ("dot", "matmul"):
            return lambda a, b, **k: _dot(a, b) if _has([a, b]) else r(a, b, **k)
        if callable(r) and not isinstance(r, type):
            return _generic(r)
        return r


def _generic(f):
    def g(*a, **k):
        r = f(*[_plain(v) for v in a], **{n: _plain(v) for n, v in k.items()})
        if isinstance(r, tuple):
            return tuple(_wrap(v) for v in r)
        return [_wrap(v) for v in r] if isinstance(r, list) else _wrap(r)
    return g


def _plain(x):
    if isinstance(x, (list, tuple)):
        return type(x)(_plain(v) for v in x) if type(x) in (list, tuple) else x
    return np.asarray(x) if isinstance(x, KArr) else x


def _einsum(spec, *ops, **k):
    if not any(_has(o) for o in ops):
        return np.einsum(spec, *ops, **k)
    spec = spec.replace(" ", "")
    if "->" not in spec:
        ls = spec.replace(",", "")
        spec += "->" + "".join(sorted(c for c in set(ls) if ls.count(c) == 1))
    r = pyexec._einsum(spec, *[np.array(np.asarray(o), dtype=object) for o in ops])
    return karr(np.asarray(r)) if np.ndim(r) else r[()]


class Sp(types.ModuleType):
    def __init__(self):
        super().__init__("scipy")
        self.linalg = Linalg(scipy.linalg)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(scipy, name)


NP, SP = Np(), Sp()
