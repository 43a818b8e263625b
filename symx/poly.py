"""Exact symbolic scalars for the symbolic execution of numerical code.

An Expr is a Laurent polynomial with rational coefficients in interned atoms.
Atoms:
  I                 imaginary unit (I^2 = -1)
  var               a symbolic real, or complex (then it has a conjugate partner)
  log(q)            formal logarithm of a primitive polynomial / prime / -1 / I
  exp(m)            formal exponential of a monomial
  comp(q)           a primitive polynomial q used with a negative or fractional power
  sign(q)           sign of a real polynomial (s^2 = 1)
  opaque            e.g. the running maximum used by logsumexp
Floats are modelled as exact reals: rounding is outside the model.
Special values -inf, +inf, nan are separate instances.
"""
import functools
import math
from fractions import Fraction
from math import gcd

Z = 0


class Unsupported(Exception):
    """The encoding cannot express this operation (never a verdict)."""


class AtomTable:
    def __init__(self):
        self.reset()

    def reset(self):
        self.kind = ["I"]
        self.arg = [None]
        self.name = ["I"]
        self.conj = [0]
        self.real = [False]
        self.intern = {}

    def new(self, kind, arg, name, real, key):
        if key in self.intern:
            return self.intern[key]
        i = len(self.kind)
        self.kind.append(kind)
        self.arg.append(arg)
        self.name.append(name)
        self.real.append(real)
        self.conj.append(i)
        self.intern[key] = i
        return i


T = AtomTable()


def reset_atoms():
    T.reset()


def _norm_coeff(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _norm_exp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return e.numerator
    return e


def mono_mul(a, b):
    """product of two monomials -> (coeff, monomial)"""
    if not a:
        return 1, b
    if not b:
        return 1, a
    coeff = 1
    out = []
    i = j = 0
    na, nb = len(a), len(b)
    while i < na and j < nb:
        xa, ea = a[i]
        xb, eb = b[j]
        if xa < xb:
            out.append(a[i])
            i += 1
        elif xb < xa:
            out.append(b[j])
            j += 1
        else:
            e = _norm_exp(ea + eb)
            i += 1
            j += 1
            if xa == 0:
                # e in {2}: I*I
                if e == 2:
                    coeff = -coeff
                    continue
            elif T.kind[xa] == "sign":
                e = e % 2
            if e != 0:
                out.append((xa, e))
    if i < na:
        out.extend(a[i:])
    if j < nb:
        out.extend(b[j:])
    return coeff, tuple(out)


class Expr:
    __slots__ = ("d", "sp", "_h")

    def __init__(self, d, sp=None):
        self.d = d
        self.sp = sp
        self._h = None

    # --- constructors
    @staticmethod
    def const(c):
        if isinstance(c, Expr):
            return c
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, int):
            return Expr({(): c}) if c else ZERO
        if isinstance(c, Fraction):
            return Expr({(): _norm_coeff(c)}) if c else ZERO
        if isinstance(c, complex):
            r = Expr.const(c.real)
            im = Expr.const(c.imag)
            return r + im * I
        c = float(c)
        if c != c:
            return NAN
        if c == float("inf"):
            return PINF
        if c == float("-inf"):
            return NINF
        if c == 0:
            return ZERO
        return _float_const(c)

    # --- predicates
    def is_zero(self):
        return self.sp is None and not self.d

    def is_const(self):
        """rational (possibly zero) constant"""
        return self.sp is None and (not self.d or (len(self.d) == 1 and () in self.d))

    def const_value(self):
        return self.d.get((), 0)

    def is_gauss(self):
        return self.sp is None and all(m == () or m == ((0, 1),) for m in self.d)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.sp, frozenset(self.d.items())))
        return self._h

    def same(self, o):
        return self.sp == o.sp and self.d == o.d

    # --- arithmetic
    def __neg__(self):
        if self.sp is not None:
            return {"ninf": PINF, "pinf": NINF, "nan": NAN}[self.sp]
        return Expr({m: -c for m, c in self.d.items()})

    def __add__(self, o):
        if not isinstance(o, Expr):
            if not _is_num(o):
                return NotImplemented
            o = Expr.const(o)
        if self.sp is not None or o.sp is not None:
            if self.sp is None:
                return o
            if o.sp is None:
                return self
            return self if self.sp == o.sp else NAN
        if not self.d:
            return o
        if not o.d:
            return self
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        out = dict(a)
        for m, c in b.items():
            v = out.get(m)
            if v is None:
                out[m] = c
            else:
                v = v + c
                if v == 0:
                    del out[m]
                else:
                    out[m] = _norm_coeff(v)
        return Expr(out)

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, Expr):
            if not _is_num(o):
                return NotImplemented
            o = Expr.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Expr):
            if not _is_num(o):
                return NotImplemented
            o = Expr.const(o)
        if self.sp is not None or o.sp is not None:
            if self.sp == "nan" or o.sp == "nan" or self.is_zero() or o.is_zero():
                return NAN
            sg = 1
            for x in (self, o):
                if x.sp == "ninf":
                    sg = -sg
                elif x.sp is None:
                    if not x.is_const():
                        raise Unsupported("inf times symbolic value")
                    if x.const_value() < 0:
                        sg = -sg
            return PINF if sg > 0 else NINF
        if not self.d or not o.d:
            return ZERO
        a, b = self.d, o.d
        if len(b) == 1 and () in b:
            k = b[()]
            if k == 1:
                return self
            return Expr({m: _norm_coeff(c * k) for m, c in a.items()})
        if len(a) == 1 and () in a:
            k = a[()]
            if k == 1:
                return o
            return Expr({m: _norm_coeff(c * k) for m, c in b.items()})
        out = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                s, m = mono_mul(m1, m2)
                c = c1 * c2
                if s != 1:
                    c = -c
                v = out.get(m)
                if v is None:
                    out[m] = c
                else:
                    out[m] = v + c
        out = {m: _norm_coeff(c) for m, c in out.items() if c != 0}
        r = Expr(out)
        return _expand_comp(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, Expr):
            if not _is_num(o):
                return NotImplemented
            o = Expr.const(o)
        return div(self, o)

    def __rtruediv__(self, o):
        return div(Expr.const(o), self)

    def __pow__(self, n):
        if isinstance(n, Expr):
            if n.is_const():
                n = n.const_value()
            else:
                return exp(n * log(self))
        if isinstance(n, float):
            n = _norm_coeff(Fraction(n))
        if isinstance(n, Fraction):
            n = _norm_coeff(n)
        return power(self, n)

    def __repr__(self):
        return to_str(self)

    def __eq__(self, o):
        if not isinstance(o, Expr):
            if not _is_num(o):
                return NotImplemented
            o = Expr.const(o)
        if ORDER is None or self.same(o):
            return self.same(o)
        return ORDER("eq", self, o)

    def __abs__(self):
        return absolute(self)

    def _cmp(self, op, o):
        if not isinstance(o, Expr):
            if not _is_num(o):
                return NotImplemented
            o = Expr.const(o)
        if ORDER is None:
            raise Unsupported("comparison of symbolic values")
        return ORDER(op, self, o)

    def __lt__(self, o):
        return self._cmp("lt", o)

    def __le__(self, o):
        return self._cmp("le", o)

    def __gt__(self, o):
        return self._cmp("gt", o)

    def __ge__(self, o):
        return self._cmp("ge", o)

    def __bool__(self):
        if ORDER is None:
            return self.sp is not None or bool(self.d)
        return ORDER("ne", self, ZERO)

    def conjugate(self):
        return conj(self)

    @property
    def real(self):
        return real(self)

    @property
    def imag(self):
        return imag(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sqrt(self):
        return sqrt(self)


def _is_num(o):
    import numbers

    return isinstance(o, numbers.Number) or hasattr(o, "dtype") and getattr(o, "ndim", 0) == 0


ORDER = None

ZERO = Expr({})
ONE = Expr({(): 1})
I = Expr({((0, 1),): 1})
NINF = Expr({}, "ninf")
PINF = Expr({}, "pinf")
NAN = Expr({}, "nan")


def _expand_comp(e):
    """expand comp atoms that carry a positive power >= 1 (comp(q)^n -> q^n)"""
    bad = False
    for m in e.d:
        for a, x in m:
            if T.kind[a] == "comp" and (x >= 1 or (x < 0 and T.arg[a].is_const())):
                bad = True
                break
        if bad:
            break
    if not bad:
        return e
    out = ZERO
    keep = {}
    for m, c in e.d.items():
        extra = []
        rest = []
        for a, x in m:
            if T.kind[a] == "comp" and T.arg[a].is_const() and (x < 0 or x >= 1):
                # root of a number: exponent in [0, 1)
                n = int(x // 1)
                c = c * Fraction(T.arg[a].const_value()) ** n
                extra.append((a, 0))
                if x - n:
                    rest.append((a, _norm_exp(x - n)))
            elif T.kind[a] == "comp" and x >= 1:
                n = int(x // 1)
                extra.append((a, n))
                if x - n:
                    rest.append((a, _norm_exp(x - n)))
            else:
                rest.append((a, x))
        if not extra:
            keep[m] = c
        else:
            term = Expr({tuple(rest): _norm_coeff(c)})
            for a, n in extra:
                for _ in range(n):
                    term = term * T.arg[a]
            out = out + term
    return out + Expr(keep)


@functools.lru_cache(maxsize=100000)
def _simple_float(c):
    """the simple rational (False, r) or root of one (True, r) that a float constant rounds to"""
    f = Fraction(c)
    if f.denominator <= 4096:
        return False, f
    r = f.limit_denominator(1000)
    if float(r) == c:
        return False, r
    if 1e-3 < abs(c) < 1e3:
        r = Fraction(c * c).limit_denominator(100)
        if r.numerator <= 1000 and math.sqrt(r) == abs(c):
            return True, r
    return False, f


def _float_const(c):
    """constants are idealised like the arithmetic: 0.333... is 1/3, 1.4142135623730951 is sqrt(2)"""
    root, r = _simple_float(c)
    if not root:
        return Expr({(): _norm_coeff(r)})
    e = sqrt(Expr.const(r))
    return e if c > 0 else -e


_vars = {}


def var(name, complex_=False):
    if complex_:
        i = T.new("var", None, name, False, ("v", name))
        j = T.new("var", None, name + "~", False, ("v", name + "~"))
        T.conj[i] = j
        T.conj[j] = i
        return Expr({((i, 1),): 1})
    i = T.new("var", None, name, True, ("v", name))
    return Expr({((i, 1),): 1})


def opaque(name):
    i = T.new("opaque", None, name, True, ("o", name))
    return Expr({((i, 1),): 1})


def conj(e):
    if e.sp is not None:
        return e
    out = {}
    for m, c in e.d.items():
        sgn = 1
        mm = []
        for a, x in m:
            if a == 0:
                sgn = -sgn
                mm.append((a, x))
            elif T.kind[a] == "log" and T.arg[a].is_gauss() and not _pos_const(T.arg[a]):
                # log(-1) = i pi, log(I) = i pi/2: purely imaginary
                if x % 2:
                    sgn = -sgn
                mm.append((a, x))
            else:
                mm.append((conj_atom(a), x))
        mm.sort()
        mm = tuple(mm)
        v = out.get(mm, 0) + sgn * c
        out[mm] = v
    return Expr({m: c for m, c in out.items() if c != 0})


def _pos_const(q):
    return q.is_const() and q.const_value() > 0


def relu(e):
    """max(e, 0) as an uninterpreted function of e"""
    if e.sp is not None:
        return ZERO if e.sp == "ninf" else e
    if e.is_const():
        return e if e.const_value() > 0 else ZERO
    return Expr({((T.new("relu", e, None, True, ("relu", _key(e))), 1),): 1})


def conj_atom(a):
    k = T.kind[a]
    if k in ("var", "opaque", "I"):
        return T.conj[a]
    if k == "sign" or T.real[a]:
        return a
    if T.conj[a] != a:
        return T.conj[a]
    q = conj(T.arg[a])
    if q.same(T.arg[a]):
        T.real[a] = True
        return a
    if k == "log":
        b = _single_atom(_log_prim(q))
        if b is None:
            raise Unsupported("conj of log atom")
    elif k == "comp":
        b = T.new("comp", q, None, False, ("c", _key(q)))
    elif k == "exp":
        b = T.new("exp", q, None, False, ("e", _key(q)))
    else:
        raise Unsupported(k)
    if b != a:
        T.conj[a] = b
        T.conj[b] = a
    return b


def _single_atom(e):
    if len(e.d) == 1:
        (m, c), = e.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def is_real(e):
    if e.sp is not None:
        return True
    return conj(e).same(e)


def real(e):
    if e.sp is not None:
        return e
    return (e + conj(e)) * Fraction(1, 2)


def imag(e):
    if e.sp is not None:
        return ZERO
    return (e - conj(e)) * I * Fraction(-1, 2)


def _key(e):
    return tuple(sorted(e.d.items(), key=_mkey))


def _mkey(mc):
    return tuple((a, float(x)) for a, x in mc[0])


def content(e):
    """(c, mono, primitive) with e = c * mono * primitive; primitive has no
    common monomial factor, integer coprime coefficients, positive lead.

    A monomial containing I as common factor is moved to mono too."""
    ms = list(e.d)
    common = {}
    first = True
    atoms = set()
    for m in ms:
        atoms.update(a for a, _ in m)
    for a in atoms:
        lo = None
        for m in ms:
            x = 0
            for b, y in m:
                if b == a:
                    x = y
                    break
            lo = x if lo is None or x < lo else lo
        if lo != 0:
            common[a] = lo
    mono = tuple(sorted(common.items()))
    num = 0
    den = 1
    for c in e.d.values():
        if isinstance(c, Fraction):
            num = gcd(num, abs(c.numerator))
            den = den * c.denominator // gcd(den, c.denominator)
        else:
            num = gcd(num, abs(c))
    k = Fraction(num, den)
    lead = max(e.d.items(), key=_mkey)[1]
    if lead < 0:
        k = -k
    inv = tuple((a, -x) for a, x in mono if T.kind[a] not in ("I", "sign"))
    inv_s = 1
    extra = tuple((a, x) for a, x in mono if T.kind[a] in ("I", "sign"))
    out = {}
    for m, c in e.d.items():
        s, mm = mono_mul(m, inv)
        if extra:
            # dividing by I: multiply by -I ; dividing by sign: multiply by sign
            s2, mm = mono_mul(mm, extra)
            s *= s2
            if any(a == 0 for a, _ in extra):
                s = -s
        out[mm] = _norm_coeff(Fraction(c * s) / k)
    prim = Expr(out)
    # re-normalise sign after the I/sign move
    lead = max(prim.d.items(), key=_mkey)[1]
    if lead < 0:
        prim = -prim
        k = -k
    return _norm_coeff(k), mono, prim


def inverse(e):
    if e.sp is not None:
        if e.sp == "nan":
            return NAN
        return ZERO
    if not e.d:
        return NAN  # 1/0: treated as poison
    k, mono, prim = content(e)
    inv_c = _norm_coeff(1 / Fraction(k))
    out = Expr({(): inv_c})
    for a, x in mono:
        if a == 0:
            out = out * (-I)
        elif T.kind[a] == "sign":
            out = out * Expr({((a, 1),): 1})
        else:
            out = out * _expand_comp(Expr({((a, -x),): 1}))
    if len(prim.d) == 1:
        (m, c), = prim.d.items()
        if m == ():
            return out * Expr({(): _norm_coeff(1 / Fraction(c))})
    if prim.is_gauss():
        # a + bI
        a = Fraction(prim.d.get((), 0))
        b = Fraction(prim.d.get(((0, 1),), 0))
        n = a * a + b * b
        return out * (Expr.const(a / n) - Expr.const(b / n) * I)
    at = T.new("comp", prim, None, False, ("c", _key(prim)))
    return out * Expr({((at, -1),): 1})


def div(a, b):
    if a.sp is not None or b.sp is not None:
        if a.sp is not None and b.sp is not None:
            return NAN
        if b.sp is not None:
            return NAN if b.sp == "nan" else ZERO
        if not b.is_const():
            return NAN  # sign unknown: poison, cannot be proved equal to anything
        return a if b.const_value() > 0 else -a
    if not b.d:
        return NAN
    if len(b.d) > 1 and len(a.d) >= 1:
        q = exact_div(a, b)
        if q is not None:
            return q
    return a * inverse(b)


def exact_div(a, b, limit=200000):
    """a / b when exact as (Laurent) polynomials, else None"""
    if not a.d:
        return ZERO
    if a.same(b):
        return ONE
    if len(a.d) < len(b.d) or (len(b.d) > 400):
        if len(a.d) < len(b.d):
            # can still divide only if cancellation; skip
            return None
    if _has_kind(b, ("comp", "sign", "I")) or _has_kind(a, ("sign", "I")):
        return None
    # ensure non-negative integer exponents by content removal
    ka, ma, pa = content(a)
    kb, mb, pb = content(b)
    if pa.same(pb):
        q = ONE
    else:
        if len(pa.d) < len(pb.d):
            return None
        atoms_a = {x for m in pa.d for x, _ in m}
        atoms_b = {x for m in pb.d for x, _ in m}
        if not atoms_b <= atoms_a:
            return None
        q = _poly_div(pa, pb)
        if q is None:
            return None
    r = q * Expr({(): _norm_coeff(Fraction(ka) / Fraction(kb))})
    r = r * Expr({ma: 1})
    r = r * Expr({tuple((x, -e) for x, e in mb): 1})
    return r


def _has_kind(e, kinds):
    for m in e.d:
        for a, _ in m:
            if T.kind[a] in kinds:
                return True
    return False


def _poly_div(a, b):
    import heapq

    # graded-free lex order: compare as sparse exponent vectors by atom order
    atoms = sorted({x for m in a.d for x, _ in m} | {x for m in b.d for x, _ in m})
    pos = {x: i for i, x in enumerate(atoms)}
    n = len(atoms)

    def vec(m):
        v = [0] * n
        for x, e in m:
            v[pos[x]] = e
        return tuple(v)

    bd = {vec(m): c for m, c in b.d.items()}
    rem = {vec(m): c for m, c in a.d.items()}
    lb = max(bd)
    clb = Fraction(bd[lb])
    heap = [tuple(-x for x in v) for v in rem]
    heapq.heapify(heap)
    q = {}
    steps = 0
    while rem:
        while True:
            if not heap:
                return None if rem else q
            v = tuple(-x for x in heapq.heappop(heap))
            if v in rem:
                break
        dv = tuple(x - y for x, y in zip(v, lb))
        if any(x < 0 for x in dv):
            return None
        c = Fraction(rem[v]) / clb
        q[dv] = c
        for w, cw in bd.items():
            u = tuple(x + y for x, y in zip(w, dv))
            old = rem.get(u)
            val = (0 if old is None else old) - c * cw
            if val == 0:
                if old is not None:
                    del rem[u]
            else:
                rem[u] = val
                if old is None:
                    heapq.heappush(heap, tuple(-x for x in u))
        steps += 1
        if steps > 4000:
            return None
    return Expr(
        {tuple((atoms[i], x) for i, x in enumerate(v) if x): _norm_coeff(c) for v, c in q.items()}
    )


def power(e, n):
    if isinstance(n, int):
        if n == 0:
            return ONE
        if n < 0:
            return power(inverse(e), -n)
        r = None
        b = e
        while n:
            if n & 1:
                r = b if r is None else r * b
            n >>= 1
            if n:
                b = b * b
        return r
    if e.sp is not None:
        if e.sp == "pinf":
            return PINF if n > 0 else ZERO
        return NAN
    if not e.d:
        return ZERO if n > 0 else NAN
    # fractional power of a positive quantity
    return exp(log(e) * Expr.const(n))


def _prime_factors(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _log_prim(q):
    i = T.new("log", q, None, None, ("l", _key(q)))
    return Expr({((i, 1),): 1})


def log(e):
    if e.sp is not None:
        return {"pinf": PINF, "nan": NAN, "ninf": NAN}[e.sp]
    if not e.d:
        return NINF
    k, mono, prim = content(e)
    out = ZERO
    kf = Fraction(k)
    if kf < 0:
        out = out + _log_prim(Expr.const(-1))
        kf = -kf
    for p, x in _prime_factors(kf.numerator).items():
        out = out + _log_prim(Expr.const(p)) * x
    for p, x in _prime_factors(kf.denominator).items():
        out = out - _log_prim(Expr.const(p)) * x
    for a, x in mono:
        kd = T.kind[a]
        if kd == "exp":
            out = out + T.arg[a] * x
        elif kd == "comp":
            out = out + _log_prim(T.arg[a]) * x
        else:
            out = out + _log_prim(Expr({((a, 1),): 1})) * x
    if not (prim.is_const() and prim.const_value() == 1):
        out = out + _log_prim(prim)
    return out


def exp(e):
    if e.sp is not None:
        return {"pinf": PINF, "nan": NAN, "ninf": ZERO}[e.sp]
    out = ONE
    big = []
    for m, c in e.d.items():
        if len(m) == 1 and T.kind[m[0][0]] == "log" and m[0][1] == 1:
            q = T.arg[m[0][0]]
            big.append((q, c))
            continue
        # exp(c * m): atom exp(m) with power c
        b = Expr({m: 1})
        i = T.new("exp", b, None, None, ("e", _key(b)))
        out = out * Expr({((i, _norm_exp(c)),): 1})
    for q, c in big:
        out = out * _pow_prim(q, c)
    return out


def _pow_prim(q, c):
    """q^c for a primitive q (argument of a log atom)"""
    if isinstance(c, int):
        if q.is_gauss():
            return power(q, c)
        if len(q.d) == 1:
            return power(q, c)
        if c > 0:
            return power(q, c)
        at = T.new("comp", q, None, None, ("c", _key(q)))
        return Expr({((at, c),): 1})
    if q.is_gauss() and not q.is_const() or (q.is_const() and q.const_value() < 0):
        at = T.new("comp", q, None, None, ("c", _key(q)))
        return Expr({((at, c),): 1})
    if len(q.d) == 1 and not q.is_const():
        (m, k), = q.d.items()
        if k == 1 and len(m) == 1:
            return Expr({((m[0][0], _norm_exp(m[0][1] * c)),): 1})
    at = T.new("comp", q, None, None, ("c", _key(q)))
    return _expand_comp(Expr({((at, c),): 1}))


def sqrt(e):
    if e.sp is not None:
        return {"pinf": PINF}.get(e.sp, NAN)
    if not e.d:
        return ZERO
    if e.is_const():
        c = Fraction(e.const_value())
        if c > 0:
            from math import isqrt

            a, b = isqrt(c.numerator), isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return Expr.const(Fraction(a, b))
    # sqrt(x^2) is |x| for a real variable of unknown sign
    k, mono, prim = content(e)
    out, rest = ONE, []
    for a, x in mono:
        if T.kind[a] in ("var", "opaque") and T.real[a] and isinstance(x, int) and x % 2 == 0:
            v = Expr({((a, 1),): 1})
            out = out * power(v * sign(v) if (x // 2) % 2 else v, x // 2)
        else:
            rest.append((a, x))
    if len(rest) < len(mono):
        e = Expr.const(k) * Expr({tuple(rest): 1}) * prim
        if e.is_const() and e.const_value() == 1:
            return out
        return out * power(e, Fraction(1, 2))
    return power(e, Fraction(1, 2))


def sign(e):
    """sign of a real expression; symbolic when not constant"""
    if e.sp is not None:
        return {"pinf": ONE, "ninf": -ONE}.get(e.sp, NAN)
    if not e.d:
        return ZERO
    if e.is_const():
        return ONE if e.const_value() > 0 else -ONE
    k, mono, prim = content(e)
    s = 1 if k > 0 else -1
    out = Expr.const(s)
    for a, x in mono:
        if T.kind[a] == "exp" and is_real(T.arg[a]):
            continue
        if T.kind[a] == "sign":
            out = out * Expr({((a, 1),): 1})
            continue
        if isinstance(x, int):
            if x % 2 == 0 and T.kind[a] in ("var", "opaque", "comp"):
                continue
            q = T.arg[a] if T.kind[a] == "comp" else Expr({((a, 1),): 1})
            if T.kind[a] == "comp" and known_positive(q):
                continue
            i = T.new("sign", q, None, True, ("s", _key(q)))
            out = out * Expr({((i, 1),): 1})
        # fractional powers are of positive quantities
    if not prim.is_const():
        if known_positive(prim):
            return out
        i = T.new("sign", prim, None, True, ("s", _key(prim)))
        out = out * Expr({((i, 1),): 1})
    return out


def known_positive(e):
    """cheap sufficient test: sums of positive terms"""
    for m, c in e.d.items():
        if c < 0:
            return False
        rest = []
        for a, x in m:
            if T.kind[a] == "exp" and is_real(T.arg[a]):
                continue
            if isinstance(x, int) and x % 2 == 0 and T.real[a]:
                continue
            if T.kind[a] == "comp" and known_positive(T.arg[a]):
                continue
            rest.append((a, x))
        while rest:
            a, x = rest.pop()
            b = (conj_atom(a), x) if T.kind[a] != "I" else None
            if b is None or b[0] == a or b not in rest:
                return False
            rest.remove(b)
    return True


def absolute(e):
    if e.sp is not None:
        return NAN if e.sp == "nan" else PINF
    if not e.d:
        return ZERO
    if is_real(e):
        return e * sign(e)
    w = e * Expr.const(-1j)
    if is_real(w):
        return w * sign(w)
    # |z| = (z zbar)^(1/2)
    k, mono, prim = content(e)
    out = Expr.const(abs(k))
    if not is_real(prim) and all(T.kind[a] == "I" for m in prim.d for a, _ in m):
        # a complex number
        out, prim = out * sqrt(prim * conj(prim)), ONE
    z = Expr({mono: 1}) * prim
    le = log(z)
    return out * exp((le + conj(le)) * Fraction(1, 2))


# ---------------------------------------------------------------- zero test
def numerator(e, limit=2000000):
    """clear denominators: returns (num, [den atoms]) where num has no comp atom
    with negative power; e == 0 iff num == 0 given the denominators are nonzero"""
    dens = []
    for _ in range(50):
        low = {}
        for m in e.d:
            for a, x in m:
                if x < 0 and T.kind[a] not in ("exp",):
                    if a not in low or x < low[a]:
                        low[a] = x
        comps = {a: x for a, x in low.items()}
        if not comps:
            return e, dens
        for a in comps:
            dens.append(a)
        mul = tuple(sorted((a, -x) for a, x in comps.items()))
        out = {}
        for m, c in e.d.items():
            s, mm = mono_mul(m, mul)
            v = out.get(mm, 0) + s * c
            if v == 0:
                out.pop(mm, None)
            else:
                out[mm] = v
        e = _expand_comp(Expr(out))
        if len(e.d) > limit:
            raise Unsupported("numerator too large")
    raise Unsupported("numerator did not converge")


def is_zero(e):
    if e.sp is not None:
        return False
    if not e.d:
        return True
    n, _ = numerator(e)
    return not n.d


# ---------------------------------------------------------------- evaluation
def atoms_of(e, acc=None):
    if acc is None:
        acc = set()
    stack = [e]
    while stack:
        q = stack.pop()
        if q is None or q.sp is not None:
            continue
        for m in q.d:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    if T.arg[a] is not None:
                        stack.append(T.arg[a])
    return acc


def var_atoms(e):
    return {a for a in atoms_of(e) if T.kind[a] in ("var", "opaque")}


def evaluate(e, env):
    """numeric value (complex) under env: var name -> number"""
    import cmath

    if e.sp is not None:
        return {"nan": float("nan"), "pinf": float("inf"), "ninf": float("-inf")}[e.sp]
    cache = {}

    def ev_atom(a):
        if a in cache:
            return cache[a]
        k = T.kind[a]
        if k == "I":
            v = 1j
        elif k in ("var", "opaque"):
            nm = T.name[a]
            if nm.endswith("~"):
                v = complex(env[nm[:-1]]).conjugate()
            else:
                v = complex(env[nm])
        elif k == "log":
            v = cmath.log(ev(T.arg[a]))
        elif k == "exp":
            v = cmath.exp(ev(T.arg[a]))
        elif k == "comp":
            v = ev(T.arg[a])
        elif k == "sign":
            v = 1.0 if ev(T.arg[a]).real > 0 else -1.0
        elif k == "relu":
            v = max(ev(T.arg[a]).real, 0.0)
        cache[a] = v
        return v

    def ev(q):
        tot = 0j
        for m, c in q.d.items():
            t, ex = complex(float(c)), 0j
            for a, x in m:
                if T.kind[a] == "exp":
                    # factors of one exponential may overflow on their own
                    if ("arg", a) not in cache:
                        cache["arg", a] = ev(T.arg[a])
                    ex += cache["arg", a] * float(x)
                    continue
                t *= ev_atom(a) ** (x if isinstance(x, int) else float(x))
            tot += t * cmath.exp(ex) if ex else t
        return tot

    return ev(e)


def to_str(e, maxterms=12):
    if e.sp is not None:
        return {"nan": "nan", "pinf": "inf", "ninf": "-inf"}[e.sp]
    if not e.d:
        return "0"
    parts = []
    for n, (m, c) in enumerate(sorted(e.d.items(), key=_mkey)):
        if n >= maxterms:
            parts.append("... (%d terms)" % len(e.d))
            break
        s = str(c)
        for a, x in m:
            s += "*" + atom_str(a) + ("" if x == 1 else "^(%s)" % x)
        parts.append(s)
    return " + ".join(parts)


def atom_str(a):
    k = T.kind[a]
    if k in ("var", "opaque", "I"):
        return T.name[a]
    return "%s(%s)" % (k, to_str(T.arg[a], 4))
