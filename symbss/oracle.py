"""Reference definitions, written from the documentation and the BSS Eval
literature, in the time domain (no transforms, no normalisation).  They run on
symbolic arrays and on floats."""
import numpy as np

from . import algebra as al
from . import npsym

DIRECT = {"on": False}


def _l(x):
    """entries of a 1-d array as a list"""
    if isinstance(x, npsym.SymArray):
        return list(npsym._raw(x))
    return [float(v) for v in x]


def _sum(A, xs):
    if A.symbolic:
        return al.fsum(xs)
    return float(np.sum(xs)) if len(xs) else 0.0


def corr(A, x, y, lag):
    """sum_t x[t] y[t + lag]"""
    x, y = _l(x), _l(y)
    n = len(y)
    if A.symbolic:
        ts = []
        for t, v in enumerate(x):
            if 0 <= t + lag < n and v.num and y[t + lag].num:
                ts.append(al.mul(v, y[t + lag]))
        return al.fsum(ts)
    return float(sum(v * y[t + lag] for t, v in enumerate(x) if 0 <= t + lag < n))


def center(A, x):
    m = x.mean(axis=-1, keepdims=True)
    return x - m


def gram(A, refs, L, load=None):
    """Gram matrix of the delayed references, lag-major order"""
    K = len(refs)
    cache = {}

    def c(i, j, d):
        k = (i, j, d)
        if k not in cache:
            cache[k] = corr(A, refs[i], refs[j], d)
        return cache[k]

    # delayed copies x_i[t - a], x_j[t - b]: sum_t x_i[t-a] x_j[t-b] = corr(x_i, x_j, a - b)
    G = []
    for a in range(L):
        for i in range(K):
            row = []
            for b in range(L):
                for j in range(K):
                    v = c(i, j, a - b)
                    if load is not None and a == b and i == j:
                        v = v + load * corr(A, refs[i], refs[i], 0)
                    row.append(v)
            G.append(row)
    return G


def cross(A, refs, s, L):
    out = []
    for a in range(L):
        for r in refs:
            out.append(corr(A, r, s, a))
    return out


def _solve(A, G, b):
    if A.symbolic:
        return al.solve(G, b)
    return list(np.linalg.solve(np.array(G), np.array(b)))


def projection_energy(A, refs, s, L, load=None):
    """|P s|^2 with P the projection on the delayed references, through the
    normal equations: |P s|^2 = b . h with G h = b"""
    G = gram(A, refs, L, load)
    b = cross(A, refs, s, L)
    h = _solve(A, G, b)
    return _sum(A, [x * y for x, y in zip(b, h)])


def projection(A, refs, s, L):
    """the projected signal itself (length T + L - 1)"""
    T = len(_l(s))
    G = gram(A, refs, L)
    b = cross(A, refs, s, L)
    if A.symbolic:
        h = _solve(A, G, b)
    else:
        h = list(np.linalg.lstsq(np.array(G), np.array(b), rcond=None)[0])
    K = len(refs)
    R = [_l(r) for r in refs]
    out = []
    for t in range(T + L - 1):
        ts = []
        for a in range(L):
            if 0 <= t - a < T:
                for k in range(K):
                    ts.append(R[k][t - a] * h[a * K + k])
        out.append(_sum(A, ts))
    return out


def energy(A, s):
    return corr(A, s, s, 0)


def energies(A, refs_target, refs_all, s, L, load=None):
    """(target, projection on all, total) energies of estimate s"""
    S = energy(A, s)
    P = projection_energy(A, refs_target, s, L, load)
    Pa = None
    if refs_all is not None:
        Pa = projection_energy(A, refs_all, s, L, load)
    return P, Pa, S


def db(A, ratio):
    if A.symbolic:
        v = al.log10(ratio)
        return al.mul(v, al.lift(10)) if type(v) is not float else v
    with np.errstate(all="ignore"):
        return float(10.0 * np.log10(ratio))


def quot(A, a, b):
    if A.symbolic:
        return al.div(a, b)
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def clampr(A, ratio, clamp_db):
    if clamp_db is None:
        return ratio
    if A.symbolic:
        from fractions import Fraction

        e = al.lift(al.snap(10.0 ** (clamp_db / 10.0)))
        ratio = al.maximum(ratio, al.div(al.ONE, e))
        return al.minimum(ratio, e)
    e = 10.0 ** (clamp_db / 10.0)
    if ratio != ratio:
        return ratio
    return min(max(ratio, 1.0 / e), e)


def sdr_ratio(A, ref, est, L, load=None, direct=False):
    """ratio of the energy of the projection of est on the delays of ref to the
    energy of what remains"""
    if direct and load is None:
        y = projection(A, [ref], est, L)
        s = _l(est) + [al.ZERO if A.symbolic else 0.0] * (L - 1)
        num = _sum(A, [v * v for v in y])
        den = _sum(A, [(u - v) * (u - v) for u, v in zip(s, y)])
        return quot(A, num, den)
    P, _, S = energies(A, [ref], None, est, L, load)
    return quot(A, P, S - P)


def bss_ratios(A, refs, k, est, L, load=None, direct=False):
    """(SDR, SIR, SAR) energy ratios"""
    if direct and load is None:
        y = projection(A, [refs[k]], est, L)
        z = projection(A, refs, est, L)
        s = _l(est) + [al.ZERO if A.symbolic else 0.0] * (L - 1)
        tgt = _sum(A, [v * v for v in y])
        e_tot = _sum(A, [(u - v) * (u - v) for u, v in zip(s, y)])
        interf = _sum(A, [(u - v) * (u - v) for u, v in zip(z, y)])
        allp = _sum(A, [v * v for v in z])
        artif = _sum(A, [(u - v) * (u - v) for u, v in zip(s, z)])
        return quot(A, tgt, e_tot), quot(A, tgt, interf), quot(A, allp, artif)
    P, Pa, S = energies(A, [refs[k]], refs, est, L, load)
    return quot(A, P, S - P), quot(A, P, Pa - P), quot(A, Pa, S - Pa)


def pairs(perm, K, M):
    """(reference, estimate) of each output channel"""
    perm = [int(p) for p in perm]
    if K <= M:
        return [(k, perm[k]) for k in range(len(perm))]
    return [(perm[m], m) for m in range(len(perm))]


def one_to_one(perm, K, M):
    p = [int(x) for x in np.asarray(perm).ravel()]
    n = min(K, M)
    return len(p) == n and len(set(p)) == n and all(0 <= x < max(K, M) for x in p)
