"""Independent second-quantised reference: operators acting on occupation strings.

Signs follow the convention of the repository: operators of one spin species are
ordered by site, the two species never interchange."""
from checks.common import *


def annihilate(x, p, s):
    """c_{p,s} on the occupation tuple x -> (sign, x') or None; s = 1 (up) or 2 (down)"""
    if not x[p] & s:
        return None
    sg = -1 if sum(1 for q in range(p) if x[q] & s) % 2 else 1
    y = list(x)
    y[p] -= s
    return sg, tuple(y)


def create(x, p, s):
    if x[p] & s:
        return None
    sg = -1 if sum(1 for q in range(p) if x[q] & s) % 2 else 1
    y = list(x)
    y[p] += s
    return sg, tuple(y)


def exc(x, p, q):
    """E_pq = sum_s c+_ps c_qs on |x>: list of (sign, x')"""
    out = []
    for s in (1, 2):
        r = annihilate(x, q, s)
        if r is None:
            continue
        r2 = create(r[1], p, s)
        if r2 is None:
            continue
        out.append((r[0] * r2[0], r2[1]))
    return out


def add(d, k, v):
    d[k] = d[k] + v if k in d else v


def hubbard(x, edges, t, U):
    """H|x> as a dict configuration -> coefficient"""
    x = tuple(int(v) for v in x)
    d = {}
    add(d, x, U * sum(1 for v in x if v == 3))
    for (i, j), te in zip(edges, t):
        for p, q in ((int(i), int(j)), (int(j), int(i))):
            for sg, y in exc(x, p, q):
                add(d, y, -te * sg)
    return d


def ab_initio(x, h, eri):
    """H = sum h_pq E_pq + 1/2 sum (pq|rs) (E_pq E_rs - delta_qr E_ps)"""
    x = tuple(int(v) for v in x)
    L = len(x)
    d = {}
    E = {(p, q): exc(x, p, q) for p in range(L) for q in range(L)}
    for p in range(L):
        for q in range(L):
            for sg, y in E[p, q]:
                add(d, y, h[p, q] * sg)
    for r in range(L):
        for s in range(L):
            for sg, y in E[r, s]:
                for p in range(L):
                    for q in range(L):
                        for sg2, z in exc(y, p, q):
                            add(d, z, eri[p, q, r, s] * (sg * sg2) * HALF)
    for p in range(L):
        for s in range(L):
            if not E[p, s]:
                continue
            tot = 0
            for q in range(L):
                tot = tot + eri[p, q, q, s]
            for sg, y in E[p, s]:
                add(d, y, tot * (-sg) * HALF)
    return d


from fractions import Fraction

HALF = 0.5


def collect(xp, mels):
    """aggregate connected configurations; entries with zero element may point anywhere"""
    d = {}
    for y, m in zip(xp, mels):
        if not isinstance(m, poly.Expr) and m == 0 or isinstance(m, poly.Expr) and m.sp is None and not m.d:
            continue
        add(d, tuple(int(v) for v in y), m)
    return d


def compare(label, got, want):
    """relation items: same coefficient on every configuration"""
    res = []
    for k in sorted(set(got) | set(want)):
        res.append(("%s: matrix element with %s" % (label, list(k)), got.get(k, 0.0), want.get(k, 0.0)))
    return res


def eri_orbits(L):
    """canonical representative of every index quadruple under the 8-fold symmetry"""
    rep = {}
    names = {}
    for p, q, r, s in itertools.product(range(L), repeat=4):
        a, b = sorted((p, q)), sorted((r, s))
        k = tuple(sorted((tuple(a), tuple(b))))
        names.setdefault(k, len(names))
        rep[p, q, r, s] = names[k]
    return rep, len(names)


def h_orbits(L):
    names = {}
    rep = {}
    for p, q in itertools.product(range(L), repeat=2):
        k = tuple(sorted((p, q)))
        names.setdefault(k, len(names))
        rep[p, q] = names[k]
    return rep, len(names)


def integrals(L):
    """index arrays expanding independent values to symmetric integrals"""
    hr, nh = h_orbits(L)
    er, ne = eri_orbits(L)
    H = np.zeros((L, L), int)
    for k, v in hr.items():
        H[k] = v
    E = np.zeros((L,) * 4, int)
    for k, v in er.items():
        E[k] = v
    return H, nh, E, ne
