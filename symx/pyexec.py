"""Symbolic execution of plain Python / numpy / numba source of the repository.

Functions are executed from their current source objects: every function of the
repository reachable from the entry is rebuilt with a globals dictionary in
which `np` is a shim that keeps symbolic scalars (object arrays) and numba
dispatchers are replaced by their Python functions.  Integer inputs are
enumerated by the solver, float inputs stay symbolic."""
import types
import sys

import numpy as np

from . import jaxi, poly
from .poly import Expr, Unsupported

PKG = "GPSKet"


class SymArr(np.ndarray):
    """object array of symbolic scalars that ignores float casts"""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and np.dtype(dtype).kind in "fc":
            return self.copy()
        return super().astype(dtype, *a, **k)


def sym(x):
    return np.asarray(x, dtype=object).view(SymArr)


def is_sym(x):
    if isinstance(x, Expr):
        return True
    return isinstance(x, np.ndarray) and x.dtype == object


_UNARY = {"exp": poly.exp, "log": poly.log, "sqrt": poly.sqrt, "abs": poly.absolute, "absolute": poly.absolute,
          "conj": poly.conj, "conjugate": poly.conj, "real": poly.real, "imag": poly.imag, "sign": poly.sign}


def _as_expr(v):
    return v if isinstance(v, Expr) else Expr.const(v)


class NpShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = getattr(np, name)
        if name in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like"):
            return _creator(name, r)
        if name in ("array", "asarray", "ascontiguousarray"):
            return _caster(r)
        if name in _UNARY:
            return _unary(_UNARY[name], r)
        if name == "nonzero":
            return _nonzero
        if name == "einsum":
            return _einsum
        return r


def _fl(dtype):
    return dtype is None or np.dtype(dtype).kind in "fc"


def _creator(name, f):
    def g(*a, **k):
        pos = {"empty": 1, "zeros": 1, "ones": 1, "full": 2, "empty_like": 1, "zeros_like": 1, "ones_like": 1, "full_like": 2}[name]
        dtype = k.get("dtype", a[pos] if len(a) > pos else None)
        if name.endswith("_like"):
            base = np.asarray(a[0])
            if dtype is None:
                dtype = base.dtype
            shape = base.shape
        else:
            shape = a[0] if a else k["shape"]
        if dtype is not None and np.dtype(dtype) == object or _fl(dtype) and (name[:4] != "full" or dtype is not None or is_sym(a[1])):
            out = np.empty(shape, dtype=object).view(SymArr)
            if name.startswith("empty"):
                out.fill(poly.NAN)
            elif name.startswith("zeros"):
                out.fill(poly.ZERO)
            elif name.startswith("ones"):
                out.fill(poly.ONE)
            else:
                out.fill(_as_expr(a[1] if len(a) > 1 else k["fill_value"]))
            return out
        return f(*a, **k)
    return g


def _caster(f):
    def g(x, dtype=None, **k):
        def has(v):
            if is_sym(v):
                return True
            return isinstance(v, (list, tuple)) and any(has(w) for w in v)
        if has(x) and _fl(dtype):
            return np.array(x, dtype=object).view(SymArr)
        return f(x, dtype=dtype, **k) if dtype is not None else f(x, **k)
    return g


def _unary(p, f):
    def g(x, *a, **k):
        if isinstance(x, Expr):
            return p(x)
        if is_sym(x):
            return jaxi.ew(lambda v: p(_as_expr(v)), x).view(SymArr)
        return f(x, *a, **k)
    return g


def _nonzero(x):
    x = np.asarray(x)
    if x.dtype == object:
        # symbolic entries stand for generic (non-zero) values
        m = np.zeros(x.shape, dtype=bool)
        for ix in np.ndindex(*x.shape):
            m[ix] = not _as_expr(x[ix]).same(poly.ZERO)
        return np.nonzero(m)
    return np.nonzero(x)


def _einsum(spec, *ops, **k):
    if not any(is_sym(o) for o in ops):
        return np.einsum(spec, *ops, **k)
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, np.shape(o)):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for ix in np.ndindex(*res.shape):
        env = dict(zip(out, ix))
        tot = poly.ZERO
        for sx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sx))
            t = poly.ONE
            for s, o in zip(ins, ops):
                t = t * o[tuple(env[c] for c in s)]
            tot = tot + t
        res[ix] = tot
    return res.view(SymArr)


NP = NpShim()


def _is_dispatcher(v):
    return hasattr(v, "py_func") and hasattr(v, "signatures")


class patched:
    """while active, the repository's modules see the numpy shim and the Python
    bodies of numba functions; `extra` maps a global name to a stand-in, `same`
    lists (object, stand-in) pairs that are replaced under whatever name"""

    def __init__(self, extra=None, only=None, same=()):
        self.extra = extra or {}
        self.same = {id(o): s for o, s in same}
        self.only = only
        self.undo = []
        self.functions = set()

    def _set(self, obj, k, old, new):
        self.undo.append((obj, k, old))
        if isinstance(obj, dict):
            obj[k] = new
        else:
            setattr(obj, k, new)

    def __enter__(self):
        seen = set()
        for name, m in list(sys.modules.items()):
            if m is None or not (name == PKG or name.startswith(PKG + ".")):
                continue
            d = m.__dict__
            for k, v in list(d.items()):
                if k.startswith("__"):
                    continue
                if k in self.extra and not isinstance(v, type):
                    self._set(d, k, v, self.extra[k])
                elif id(v) in self.same:
                    self._set(d, k, v, self.same[id(v)])
                elif v is np:
                    self._set(d, k, v, NP)
                elif _is_dispatcher(v):
                    self.functions.add("%s.%s" % (v.py_func.__module__, v.py_func.__qualname__))
                    self._set(d, k, v, v.py_func)
                elif isinstance(v, type) and (v.__module__ or "").startswith(PKG) and v not in seen:
                    seen.add(v)
                    for a, w in list(vars(v).items()):
                        if isinstance(w, staticmethod) and _is_dispatcher(w.__func__):
                            self._set(v, a, w, staticmethod(w.__func__.py_func))
                        elif _is_dispatcher(w):
                            self._set(v, a, w, w.py_func)
        return self

    def __exit__(self, *exc):
        for obj, k, old in reversed(self.undo):
            if isinstance(obj, dict):
                obj[k] = old
            else:
                setattr(obj, k, old)
        self.undo = []
        return False
