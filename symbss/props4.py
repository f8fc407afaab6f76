"""Gradients, iterative solver, silent channels, allowed distortions, defaults."""
import itertools

import numpy as np

from . import algebra as al
from . import core, explore, npsym
from . import oracle as O
from .core import Case, PreconditionFailed, eq, le, true
from .props import BASE, BE, EXACT_REALS, SOLVE, LSA, AUDIBLE, COH, P, Prop, arr, audible, batches, chans, lin, near, opts, row, shape_is, shp, tag
from .props2 import FUNCS, MULTI, SAME, EST_FIRST, Gen, invoke, metric_parts, same_results, same_perm, approx, gathered
from .props3 import ent, setrow, objrow, negate

LN10 = 2.302585092994046


# ----------------------------------------------------------------------------
# C17: gradients


def _vecs(A, x):
    return [O._l(x[k]) for k in range(chans(x))]


def _at(A, v, t):
    if 0 <= t < len(v):
        return v[t]
    return al.ZERO if A.symbolic else 0.0


def _prod(A, *xs):
    if not A.symbolic:
        return float(np.prod(xs))
    out = xs[0]
    for x in xs[1:]:
        out = al.mul(out, x)
    return out


def _c(A, x):
    return al.lift(x) if A.symbolic else float(x)


def _filters(A, refs, s, L, load):
    G = O.gram(A, refs, L, load)
    b = O.cross(A, refs, s, L)
    h = O._solve(A, G, b)
    K = len(refs)
    P = O._sum(A, [_prod(A, x, y) for x, y in zip(b, h)])
    # h[a][k]
    return P, [[h[a * K + k] for k in range(K)] for a in range(L)]


def _dP_ds(A, R, h, L, t):
    ts = []
    for a in range(L):
        for k, r in enumerate(R):
            v = _at(A, r, t - a)
            if not _zero(v):
                ts.append(_prod(A, h[a][k], v))
    return _prod(A, _c(A, 2), O._sum(A, ts))


def _zero(v):
    return type(v) is al.RF and not v.num


def _dP_dr(A, R, s, h, L, k, t, load):
    ts = []
    for a in range(L):
        v = _at(A, s, t + a)
        if not _zero(v):
            ts.append(_prod(A, h[a][k], v))
        for b in range(L):
            for j, r in enumerate(R):
                v = _at(A, r, t + a - b)
                if not _zero(v):
                    ts.append(_prod(A, _c(A, -1), h[a][k], h[b][j], v))
        if load is not None:
            ts.append(_prod(A, _c(A, -load), h[a][k], h[a][k], R[k][t]))
    return _prod(A, _c(A, 2), O._sum(A, ts))


class PairGrad:
    """energies of one estimate with respect to a set of references, with their
    derivatives"""

    def __init__(self, A, refs, idx, s, L, load):
        self.A, self.idx, self.L, self.load = A, idx, L, load
        self.R = [O._l(r) for r in refs]
        self.s = O._l(s)
        self.P, self.h = _filters(A, refs, s, L, load)

    def ds(self, t):
        return _dP_ds(self.A, self.R, self.h, self.L, t)

    def dr(self, k, t):
        if k not in self.idx:
            return _c(self.A, 0)
        return _dP_dr(self.A, self.R, self.s, self.h, self.L, self.idx.index(k), t, self.load)


def _dlog(A, num, dnum, den, dden):
    """derivative of -10 log10(num / den)"""
    sub = (lambda a, b: al.sub(a, b)) if A.symbolic else (lambda a, b: a - b)
    dv = (lambda a, b: al.div(a, b)) if A.symbolic else _fdiv
    return _prod(A, _c(A, 10.0 / LN10) if not A.symbolic else al.div(al.lift(10), al.lift(LN10)), sub(dv(dden, den), dv(dnum, num)))


def _fdiv(a, b):
    if abs(b) < 1e-12:
        raise PreconditionFailed
    return a / b


def f_grad(A, X, cfg):
    import torch

    which, L = cfg["fn"], cfg.get("L") or 1
    load, zm, clamp = cfg.get("load"), cfg.get("zm"), cfg.get("clamp")
    K, M, T = chans(X["ref"]), chans(X["est"]), X["ref"].shape[-1]
    B = X["ref"].shape[:-2]
    r, e = A.to(X["ref"], "torch"), A.to(X["est"], "torch")
    need = cfg.get("wrt", ("ref", "est"))
    if "ref" in need:
        r.requires_grad_(True)
    if "est" in need:
        e.requires_grad_(True)
    fn, kw, names = FUNCS[which]
    kw = dict(kw)
    m = {"L": "filter_length", "zm": "zero_mean", "clamp": "clamp_db", "load": "load_diag", "cg": "use_cg_iter"}
    for n in names:
        if cfg.get(n) is not None:
            kw[m[n]] = cfg[n]
    args = (e, r) if which in EST_FIRST else (r, e)
    ws = {}

    def go():
        out = getattr(core.fb(), fn)(*args, **kw)
        out = out if isinstance(out, tuple) else (out,)
        tot = None
        for j, o in enumerate(out):
            if not o.dtype.is_floating_point:
                continue
            n = int(np.prod(tuple(o.shape)))
            hot = cfg.get("hot")
            w = [float(1 + ((3 * i + 5 * j) % 7)) if hot is None or hot == (j, i) else 0.0 for i in range(n)]
            if not any(w):
                continue
            w = torch.tensor(w, dtype=torch.float64).reshape(tuple(o.shape))
            ws[j] = w.numpy()
            v = (o * w).sum()
            tot = v if tot is None else tot + v
        tot.backward()
        return out

    if A.symbolic:
        from . import thsym

        with thsym.Mode():
            out = go()
    else:
        out = go()
    parts, perm = metric_parts(which, tuple(A.back(o.detach()) for o in out))
    if which in ("pit", "si_pit"):
        perm = invoke(A, which.replace("pit", "sdr"), X["ref"], X["est"], cfg, backend="torch")[1]
    neg = which in ("bss", "bss_noperm", "si_bss", "si_bss_noperm", "sdr", "si_sdr")
    add = (lambda xs: al.fsum(xs)) if A.symbolic else (lambda xs: float(np.sum(xs)))
    ge = {}
    gr = {}
    for b in np.ndindex(B):
        ref, est = X["ref"][b], X["est"][b]
        if zm:
            ref, est = O.center(A, ref), O.center(A, est)
        if perm is not None:
            pr = list(enumerate(O.pairs(np.asarray(perm)[b], K, M)))
        elif "pairwise" in which:
            pr = [((k, mm), (k, mm)) for k in range(K) for mm in range(M)]
        else:
            pr = [(k, (k, k)) for k in range(K)]
        GE = [[[] for _ in range(T)] for _ in range(M)]
        GR = [[[] for _ in range(T)] for _ in range(K)]
        allp = {}
        for pos, (k, mm) in pr:
            one = PairGrad(A, [ref[k]], [k], est[mm], L, load if (L > 1) else None)
            S = O.energy(A, est[mm])
            if len(parts) == 3 and mm not in allp and not (cfg.get("hot") or (1,))[0] == 0:
                allp[mm] = PairGrad(A, [ref[i] for i in range(K)], list(range(K)), est[mm], L, load)
            for j, (nm, val) in enumerate(parts):
                i = b + (pos if isinstance(pos, tuple) else (pos,))
                w = float(ws[j][i]) * (-1.0 if neg else 1.0) if j in ws else 0.0
                if w == 0.0:
                    continue
                v = ent(A, val, i)
                v = float(v.shadow()) if A.symbolic and type(v) is not float else float(v)
                if not abs(v) < 100:
                    raise PreconditionFailed
                if clamp is not None:
                    if abs(v) > clamp - 1e-9:
                        continue
                s = O._l(est[mm])
                al_ = allp.get(mm)
                for t in range(T):
                    dS = _prod(A, _c(A, 2), s[t])
                    z = _c(A, 0)
                    sub = (lambda p, q: al.sub(p, q)) if A.symbolic else (lambda p, q: p - q)

                    def terms(dP, dPa, dSS):
                        if nm in ("loss", "sdr"):
                            return _dlog(A, one.P, dP, sub(S, one.P), sub(dSS, dP))
                        if nm == "sir":
                            return _dlog(A, one.P, dP, sub(al_.P, one.P), sub(dPa, dP))
                        return _dlog(A, al_.P, dPa, sub(S, al_.P), sub(dSS, dPa))

                    if "est" in need:
                        GE[mm][t].append(_prod(A, _c(A, w), terms(one.ds(t), al_.ds(t) if al_ else None, dS)))
                    if "ref" in need:
                        for kk in range(K):
                            if kk != k and al_ is None:
                                continue
                            GR[kk][t].append(_prod(A, _c(A, w), terms(one.dr(kk, t), al_.dr(kk, t) if al_ else None, z)))
        ge[b] = [[add(x) if x else _c(A, 0) for x in rr] for rr in GE]
        gr[b] = [[add(x) if x else _c(A, 0) for x in rr] for rr in GR]

    def build(g, n):
        if B == ():
            out = A.arr(g[()])
        else:
            o = np.empty(B + (n, T), dtype=object)
            for b in np.ndindex(B):
                for i in range(n):
                    for t in range(T):
                        o[b + (i, t)] = g[b][i][t]
            out = arr(A, o)
        return O.center(A, out) if zm else out

    if "est" in need:
        yield eq("gradient for the estimates", A.back(e.grad) if e.grad is not None else A.back(torch.zeros(X["est"].shape)), build(ge, M))
    if "ref" in need:
        yield eq("gradient for the references", A.back(r.grad) if r.grad is not None else A.back(torch.zeros(X["ref"].shape)), build(gr, K))


def free_est(n, i):
    return n == "est"


def free_ref(n, i):
    return n == "ref"


def cases_grad(tier):
    g = Gen("grad", f_grad, tier, flips=False)
    th = g.th
    be = "torch"
    E, R = ("est",), ("ref",)
    SL = dict(free=free_est, mode="exact")
    for fn in ("si_loss", "si_pit", "si_sdr"):
        g.add(be, 2, 2, 4, None, fn=fn, sx="," + fn)
        g.add(be, 2, 2, 4 if th else 3, None, fn=fn, zm=True, sx=",zm," + fn, weight=20)
        g.add(be, 2, 2, 4, None, fn=fn, clamp=3.0, sx=",clamp," + fn)
    for i in range(4):
        g.add(be, 2, 2, 4, None, fn="si_pairwise", hot=(0, i), sx=",si_pairwise,%d" % i)
    g.add(be, 2, 2, 4, None, fn="si_pairwise", hot=(0, 1), zm=True, sx=",zm,si_pairwise", weight=10)
    for fn in ("si_bss_noperm", "si_bss"):
        for j in range(3):
            kw = dict(fn=fn, wrt=E, multi=True)
            sx = ",%s,%d" % (fn, j)
            for i in range(2):
                g.add(be, 2, 2, 5, None, hot=(j, i), sx=",est,slice%s%d" % (sx, i), **kw, **SL)
            g.add(be, 2, 2, 5, None, hot=(j, 0), zm=True, sx=",est,slice,zm" + sx, **kw, **SL)
            g.add(be, 2, 2, 5, None, hot=(j, 1), clamp=3.0, sx=",est,slice,clamp" + sx, **kw, **SL)
            g.add(be, 2, 3 if fn == "si_bss" else 2, 6, None, hot=(j, 1), sx=",est,slice,wide" + sx, **kw, **SL)
            if th or j == 0:
                for i in range(2):
                    g.add(be, 2, 2, 4, None, hot=(j, i), sx=",est%s%d" % (sx, i), timeout=400, weight=40, **kw)
                g.add(be, 2, 2, 4, None, hot=(j, 0), zm=True, sx=",est,zm" + sx, timeout=700, weight=90, **kw)
                g.add(be, 2, 2, 4, None, hot=(j, 1), clamp=3.0, sx=",est,clamp" + sx, timeout=400, weight=20, **kw)
            g.add(be, 2, 2, 3, None, fn=fn, hot=(j, 0), wrt=R, mode="exact", multi=True, sx=",ref" + sx, weight=15)
    g.add(be, 2, 3, 4, None, fn="si_pit", sx=",si_pit")
    g.add(be, 3, 2, 4, None, fn="si_pit", sx=",si_pit")
    g.add(be, 2, 2, 3, None, B=(2,), fn="si_loss", sx=",si_loss")
    g.add(be, 2, 2, 3, None, B=(2,), fn="si_pit", sx=",si_pit")
    for fn in ("loss", "pairwise", "pit", "sdr"):
        h = {"hot": (0, 2)} if fn == "pairwise" else {}
        g.add(be, 2, 2, 4, 2, fn=fn, wrt=E, sx=",est," + fn, **h)
        g.add(be, 2, 2, 4, 2, fn=fn, wrt=E, zm=True, sx=",est,zm," + fn, **h)
        g.add(be, 2, 2, 4, 2, fn=fn, wrt=E, clamp=3.0, sx=",est,clamp," + fn)
        g.add(be, 2, 2, 4, 2, fn=fn, wrt=E, load=0.125, sx=",est,load," + fn, **h)
        g.add(be, 2, 2, 9, 4, fn=fn, wrt=E, sx=",est,slice," + fn, **h, **SL)
        g.add(be, 2, 2, 4, 2, B=(2,), fn=fn, wrt=E, sx=",est,slice," + fn, **h, **SL)
    for fn in ("bss_noperm", "bss"):
        for j in range(3):
            kw = dict(fn=fn, wrt=E, multi=True)
            sx = ",%s,%d" % (fn, j)
            g.add(be, 2, 2, 7, 2, hot=(j, 0), sx=",est,slice" + sx, **kw, **SL)
            g.add(be, 2, 2, 7, 2, hot=(j, 1), zm=True, sx=",est,slice,zm" + sx, **kw, **SL)
            if th:
                g.add(be, 2, 2, 12, 4, hot=(j, 0), sx=",est,slice" + sx, **kw, **SL)
                g.add(be, 3, 3, 10, 2, hot=(j, 2), sx=",est,slice" + sx, **kw, **SL)
            if th or fn == "bss_noperm":
                g.add(be, 2, 2, 6, 2, hot=(j, 1), sx=",est" + sx, weight=10, **kw)
                g.add(be, 2, 2, 6, 2, hot=(j, 1), clamp=3.0, sx=",est,clamp" + sx, weight=10, **kw)
                g.add(be, 2, 2, 6, 2, hot=(j, 1), load=0.125, sx=",est,load" + sx, weight=10, **kw)
            if th:
                g.add(be, 2, 2, 6, 2, hot=(j, 0), zm=True, sx=",est,zm" + sx, timeout=400, weight=50, **kw)
    g.add(be, 2, 3, 5, 3, fn="pit", wrt=E, sx=",est,pit")
    g.add(be, 3, 2, 6, 2, fn="pairwise", wrt=E, hot=(0, 3), sx=",est,pairwise")
    g.add(be, 1, 1, 3, 6, fn="loss", wrt=E, sx=",est,loss")
    g.add(be, 1, 2, 8, 4, fn="pairwise", wrt=E, hot=(0, 1), sx=",est,pairwise")
    for T in (3, 4, 5) if th else (3,):
        g.add(be, 1, 1, T, 2, fn="loss", mode="exact", sx=",loss", weight=10 * T, timeout=600)
    g.add(be, 1, 1, 3, 2, fn="loss", mode="exact", load=0.125, sx=",loss,load", weight=20)
    # reference gradients on slices: one symbolic sample
    for t in range(2) if not th else range(5):
        for fn in ("loss", "pit"):
            K = 1 if fn == "loss" else 2
            one = lambda n, i, t=t: n == "ref" and i[-2] == 0 and i[-1] == t
            g.add(be, K, K, 5, 2, fn=fn, mode="exact", wrt=R, sx=",ref,slice%d,%s" % (t, fn), free=one)
            g.add(be, K, K, 5, 2, fn=fn, mode="exact", wrt=R, zm=True, sx=",ref,slice%d,zm,%s" % (t, fn), free=one)
        for j in range(3):
            g.add(be, 2, 2, 6, 2, fn="bss_noperm", mode="exact", wrt=R, hot=(j, 1), multi=True, sx=",ref,slice%d,bss,%d" % (t, j), free=one)
    if th:
        g.add(be, 1, 1, 3, 2, fn="loss", mode="exact", zm=True, sx=",loss,zm", weight=60, timeout=400)
        g.add(be, 1, 1, 3, 3, fn="loss", mode="exact", sx=",loss", weight=50, timeout=400)
        g.add(be, 1, 2, 3, 2, fn="pairwise", mode="exact", hot=(0, 1), sx=",pairwise", weight=10)
    return g.out


Prop("C17", "Gradients of the PyTorch losses are the derivatives of the losses", cases_grad,
     "all calling modes of the torch backend; gradients for every sample of the estimates with fully symbolic signals up to n_ref, "
     "n_est <= 3, n_samples <= 6, filter_length <= 6 (si_ functions <= 4 samples), and with constant references and symbolic estimates up "
     "to n_samples 9, filter_length 4 (thorough 12 and 4, 3x3); gradients for the references with fully symbolic signals (one channel, 3 "
     "samples, filter_length 2; si_bss two channels) and along single symbolic samples (two channels, 6 samples, filter_length 2); "
     "options zero_mean, clamp_db and load_diag; batches of two", BASE + [
         "torch's own autograd engine is the real one (each operation of the library is a custom autograd function over symbolic tensors "
         "whose backward rule is the derivative rule of that operation); the operations' derivative rules are those torch documents",
         "the chosen assignment is locally constant (gradients are taken inside an assignment region)"],
     "backward() runs on the symbolic outputs; every entry of .grad equals the analytic derivative of the specified loss (from the normal "
     "equations, with the envelope theorem), as an identity of rational functions decided by the solver.")


# ----------------------------------------------------------------------------
# C15: conjugate gradient


def _floats(x):
    return np.real(np.asarray(npsym.tofloat(npsym.sym(x)) if isinstance(x, npsym.SymArray) else x, dtype=complex))


def np_system(refs, L, load):
    K, T = refs.shape
    D = np.zeros((L, K, T + L - 1))
    for a in range(L):
        D[a, :, a:a + T] = refs
    D = D.reshape(L * K, -1)
    G = D @ D.T
    if load is not None:
        G = G + load * np.eye(L * K)
    return G, D


def circulant(G, K, L):
    """the block circulant matrix nearest to a block Toeplitz one"""
    C = [[None] * (L * K) for _ in range(L * K)]
    for a in range(L):
        for b in range(L):
            j = (a - b) % L
            for i in range(K):
                for k in range(K):
                    # lag j at (j, 0); lag j - L at (0, L - j)
                    u = G[j * K + i][k]
                    if j == 0:
                        C[a * K + i][b * K + k] = u
                    else:
                        v = G[i][(L - j) * K + k]
                        C[a * K + i][b * K + k] = (u, v, j)
    return C


def mix(u, v, j, L, w):
    return w(u, float(L - j) / L) + w(v, float(j) / L)


def np_pcg(G, K, L, b, n, x=None):
    """(solution, smallest quantity the iterations divide by, final residual)"""
    C = np.array([[c if not isinstance(c, tuple) else ((L - c[2]) * c[0] + c[2] * c[1]) / L for c in r] for r in circulant(G.tolist(), K, L)])
    x = np.zeros_like(b) if x is None else x
    lo = np.inf
    r = b - G @ x
    if r @ r < 1e-20:
        return x, lo
    z = np.linalg.solve(C, r)
    if K == 1:
        w = np.abs(np.fft.fft(C[:, 0])) ** 2
        lo = min(lo, w.min())
    p = z
    rs = r @ z
    for _ in range(n):
        if r @ r < 1e-24:
            break
        Ap = G @ p
        pap = p @ Ap
        lo = min(lo, pap, rs)
        a = rs / pap
        x = x + a * p
        r = r - a * Ap
        z = np.linalg.solve(C, r)
        rn = r @ z
        p = z + rn / rs * p
        rs = rn
    return x, lo


FLOOR = 1e-5


def regular_cg(A, X, cfg, n):
    """no denominator of the iterations comes near the floors of the solver"""
    ref, est = _floats(X["ref"]), _floats(X["est"])
    L, load = cfg["L"], cfg.get("load")
    for b in np.ndindex(ref.shape[:-2]):
        r, e = ref[b], est[b]
        if cfg.get("zm"):
            r, e = r - r.mean(-1, keepdims=True), e - e.mean(-1, keepdims=True)
        r = r / np.linalg.norm(r, axis=-1, keepdims=True)
        e = e / np.linalg.norm(e, axis=-1, keepdims=True)
        K = len(r)
        for s in e:
            x0 = np.zeros(L * K).reshape(L, K)
            for k in range(K):
                G, D = np_system(r[k:k + 1], L, load)
                bb = D[:, :len(s)] @ s
                x, lo = np_pcg(G, 1, L, bb, n)
                if lo < FLOOR:
                    raise PreconditionFailed
                x0[:, k] = x
            if cfg["fn"] in MULTI:
                G, D = np_system(r, L, load)
                bb = D[:, :len(s)] @ s
                for x in (np.zeros(L * K), x0.ravel()):
                    x, lo = np_pcg(G, K, L, bb, n, x)
                    if lo < FLOOR:
                        raise PreconditionFailed


def pcg_energy(A, ref, s, L, load, n):
    """b . x_n for n steps of conjugate gradient preconditioned with the optimal
    circulant matrix, dense and in the time domain"""
    G = O.gram(A, [ref], L, load)
    b = O.cross(A, [ref], s, L)
    if A.symbolic:
        w = lambda u, f: al.mul(u, al.lift(f))
    else:
        w = lambda u, f: u * f
    C = [[c if not isinstance(c, tuple) else O._sum(A, [w(c[0], al.snap((L - c[2]) / L) if A.symbolic else (L - c[2]) / L),
                                                        w(c[1], al.snap(c[2] / L) if A.symbolic else c[2] / L)]) for c in r]
         for r in circulant(G, 1, L)]
    dot = lambda u, v: O._sum(A, [_prod(A, p, q) for p, q in zip(u, v)])
    div = al.div if A.symbolic else (lambda p, q: p / q)
    x = [_c(A, 0)] * L
    r = b
    z = O._solve(A, C, r)
    p = z
    rs = dot(r, z)
    for i in range(n):
        Ap = [dot(row, p) for row in G]
        a = div(rs, dot(p, Ap))
        x = [O._sum(A, [u, _prod(A, a, v)]) for u, v in zip(x, p)]
        if i + 1 == n:
            break
        na = _prod(A, _c(A, -1), a)
        r = [O._sum(A, [u, _prod(A, na, v)]) for u, v in zip(r, Ap)]
        z = O._solve(A, C, r)
        rn = dot(r, z)
        be = div(rn, rs)
        p = [O._sum(A, [u, _prod(A, be, v)]) for u, v in zip(z, p)]
        rs = rn
    return dot(b, x)


def f_cg(A, X, cfg):
    ref, est = X["ref"], X["est"]
    fn, n, L = cfg["fn"], cfg["n"], cfg["L"]
    regular_cg(A, X, cfg, n)
    K, M = chans(ref), chans(est)
    a = invoke(A, fn, ref, est, dict(cfg, cg=n))
    if cfg["how"] == "direct":
        yield from same_results(fn, a, invoke(A, fn, ref, est, cfg), "%d iterations: " % n)
        return
    if cfg["how"] == "agree":
        o = "torch" if A.backend == "numpy" else "numpy"
        yield from same_results(fn, a, invoke(A, fn, ref, est, dict(cfg, cg=n), backend=o), "%d iterations: " % n)
        return
    parts, perm = metric_parts(fn, a)
    out = parts[0][1]
    if fn == "pit":
        perm = invoke(A, "sdr", ref, est, dict(cfg, cg=n))[1]
    exp = []
    for b_ in batches(ref):
        R = [O.center(A, ref[b_][k]) if cfg.get("zm") else ref[b_][k] for k in range(K)]
        E = [O.center(A, est[b_][m]) if cfg.get("zm") else est[b_][m] for m in range(M)]

        def val(k, m):
            P = pcg_energy(A, R[k], E[m], L, cfg.get("load"), n)
            S = O.energy(A, E[m])
            d = O.db(A, O.clampr(A, O.quot(A, P, S - P), cfg.get("clamp")))
            return d if fn == "sdr" else -d

        if fn == "pairwise":
            exp.append([val(k, m) for k in range(K) for m in range(M)])
        elif perm is None:
            exp.append([val(k, k) for k in range(K)])
        else:
            exp.append([val(k, m) for k, m in O.pairs(np.asarray(perm)[b_], K, M)])
    e = arr(A, row(exp, ref.shape[:-2]))
    if fn == "pairwise":
        e = e.reshape(ref.shape[:-2] + (K, M))
    yield eq("%d iterations" % n, out, e)


def sample(name, k, t):
    return lambda n, i: n == name and i[-2] == k and i[-1] == t


def cases_cg(tier):
    g = Gen("cg", f_cg, tier, flips=False, mode="exact")
    th = g.th

    def add(be, K, M, T, L, fn, n, how, B=(), sx="", **kw):
        g.add(be, K, M, T, L, B=B, mode="exact", fn=fn, n=n, how=how, multi=fn in MULTI, sx=",%s,n=%d,%s" % (fn, n, how) + sx, **kw)

    for be in BE:
        # fully symbolic
        for fn in ("sdr", "loss"):
            add(be, 1, 1, 3, 2, fn, 2, "direct")
            add(be, 1, 1, 3, 2, fn, 1, "steps")
            add(be, 1, 1, 3, 2, fn, 2, "agree")
        # symbolic estimates
        for i, fn in enumerate(("sdr", "loss", "pairwise", "pit")):
            KM = (2, 2) if fn in SAME else (2, 3)
            for o in ({}, {"zm": True}, {"load": 0.125}, {"clamp": 10.0}):
                sx = "".join("," + k for k in o) + ",est"
                add(be, KM[0], KM[1], 5, 2, fn, 2, "direct", free=free_est, sx=sx, **o)
                add(be, KM[0], KM[1], 5, 2, fn, 1, "steps", free=free_est, sx=sx, **o)
                if th or (i % 2) == (be == "torch") and not o:
                    add(be, KM[0], KM[1], 6, 3, fn, 1, "steps", free=free_est, sx=sx, weight=10, **o)
            add(be, KM[0], KM[1], 4, 2, fn, 2, "direct", B=(2,), free=free_est, sx=",est")
            # one symbolic sample
            for nm in ("ref", "est"):
                if not th and nm == "ref" and i % 2 != (be == "torch"):
                    continue
                for L, n in [(3, 1), (3, 2), (4, 1), (4, 2)] + [(5, 1), (6, 1)] * (nm == "est"):
                    add(be, 2, 2, 9, L, fn, n, "steps", free=sample(nm, 0, 3), sx="," + nm, weight=10 if nm == "ref" else 2)
                K, M = (1, 1) if fn in SAME else (1, 2)
                add(be, K, M, 7, 3, fn, 3, "direct", free=sample(nm, 0, 3), sx="," + nm, weight=8)
                add(be, K, M, 7, 3, fn, 5, "direct", free=sample(nm, 0, 3), sx="," + nm, weight=8)
                if th:
                    add(be, K, M, 7, 4, fn, 4, "direct", free=sample(nm, 0, 2), sx="," + nm, weight=12, timeout=600)
        for fn in ("bss", "bss_noperm"):
            for nm in ("ref", "est"):
                fr = sample(nm, 0, 3)
                if be == "numpy":
                    if fn == "bss":
                        for K, M in ((2, 3), (3, 2), (2, 1), (1, 2)):
                            if nm == "est" or th:
                                add(be, K, M, 9 + 2 * (K > 2), 2, fn, 1, "agree", free=sample(nm, 0, 3), sx="," + nm)
                    add(be, 2, 2, 9, 2, fn, 1, "agree", free=fr, sx="," + nm)
                    add(be, 2, 2, 9, 3, fn, 1, "agree", free=fr, sx="," + nm, weight=8)
                if th or nm == "est":
                    add(be, 2, 2, 9, 2, fn, 4, "direct", free=fr, sx="," + nm, weight=30 if nm == "est" else 100, timeout=240 if nm == "est" else 750)
                    add(be, 2, 2, 9, 2, fn, 5, "direct", free=fr, sx="," + nm, weight=30 if nm == "est" else 100, timeout=240 if nm == "est" else 750)
    return g.out


Prop("C15", "The iterative solver computes the same filters as the direct one", cases_cg,
     "filter_length 2: fully symbolic signals (one channel, 3 samples) and symbolic estimates with constant references (up to 2x3 channels, "
     "5 samples), 1 and 2 iterations; filter_length 3 to 6 and bss_eval_sources (two channels, filter_length 2, 3): along one symbolic sample "
     "of a reference or an estimate, 1 to 5 iterations; options zero_mean, load_diag, clamp_db; batches of two", [EXACT_REALS, LSA, AUDIBLE, COH,
         "the divisors of the iterations stay above the solver's numerical floors (1e-6; the domain excludes less than 1e-5 unless the "
         "iterations have converged exactly)"],
     "The library runs with use_cg_iter=n and must equal the direct solver when n reaches the number of unknowns, a dense time-domain "
     "preconditioned conjugate gradient for fewer iterations, and the other backend; exact rational identities in the symbolic samples.")


# ----------------------------------------------------------------------------
# C18: silent channels


def drop(A, x, axis_idx):
    keep = [i for i in range(x.shape[-2]) if i != axis_idx]
    return x[..., keep, :]


def f_silent(A, X, cfg):
    ref, est = X["ref"], X["est"]
    fn, what, q = cfg["fn"], cfg["what"], cfg["q"]
    K, M = chans(ref), chans(est)
    loss = fn in EST_FIRST
    clamp = cfg.get("clamp")
    worst = (1.0 if loss else -1.0) * (np.inf if clamp is None else clamp)
    a = invoke(A, fn, ref, est, cfg)
    parts, perm = metric_parts(fn, a)
    bs = ref.shape[:-2]

    def worst_value(name, v):
        """exactly the worst value"""
        v = v if A.symbolic else np.asarray(v, dtype=float)
        if not A.symbolic:
            yield true(name + " is the worst value", bool((np.abs(v - worst) < 1e-6).all() if clamp is not None else (v == worst).all()))
            return
        if clamp is None:
            yield eq(name, v, arr(A, np.full(np.shape(v), al.INF if worst > 0 else -al.INF, dtype=object)))
        else:
            yield eq(name, v, A.arr(np.full(np.shape(v), worst).tolist()))

    if fn in SAME:
        keep = [i for i in range(K) if i != q]
        if what == "est":
            for n, v in parts:
                yield from worst_value("silent estimate: " + n, v[..., q : q + 1])
            # another signal in its place changes nothing for the others
            o = invoke(A, fn, ref, setrow(A, est, q, X["e2"][..., 0, :]), cfg)
            for (n, v), (_, w) in zip(parts, metric_parts(fn, o)[0]):
                yield eq("other channels: " + n, v[..., keep], w[..., keep])
        else:
            for n, v in parts[:2]:
                yield from worst_value("silent reference: " + n, v[..., q : q + 1])
            o = invoke(A, fn, drop(A, ref, q), drop(A, est, q), cfg)
            for (n, v), (_, w) in zip(parts, metric_parts(fn, o)[0]):
                yield eq("other channels: " + n, v[..., keep], w)
        return
    if "pairwise" in fn:
        v = parts[0][1]
        if what == "est":
            keep = [i for i in range(M) if i != q]
            yield from worst_value("silent estimate", v[..., :, q])
            o = invoke(A, fn, ref, drop(A, est, q), cfg)
            yield eq("other channels", v[..., :, keep], o[0])
        else:
            keep = [i for i in range(K) if i != q]
            yield from worst_value("silent reference", v[..., q, :])
            o = invoke(A, fn, drop(A, ref, q), est, cfg)
            yield eq("other channels", v[..., keep, :], o[0])
        return
    # optimal assignment with a channel to spare
    if what == "est":
        o = invoke(A, fn, ref, drop(A, est, q), cfg)
    else:
        o = invoke(A, fn, drop(A, ref, q), est, cfg)
    po, pp = metric_parts(fn, o)
    ok = all(np.shape(v) == np.shape(w) for (_, v), (_, w) in zip(parts, po))
    yield true("shapes", ok)
    if not ok:
        return
    if pp is not None:
        pp = np.asarray(pp)
        pp = np.where(pp >= q, pp + 1, pp)
    for b in np.ndindex(bs):
        yield from gathered(fn, [(n, v[b]) for n, v in parts], None if perm is None else np.asarray(perm)[b],
                            [(n, v[b]) for n, v in po], None if pp is None else pp[b], "without the silent channel: ")


def dom_silent(w, cfg):
    """regular systems once the silent channel is left out"""
    w = dict(w)
    if cfg["what"] == "ref":
        w["ref"] = np.delete(w["ref"], cfg["q"], axis=-2)
    else:
        w["est"] = np.delete(w["est"], cfg["q"], axis=-2)
    if cfg["what"] == "est" and "e2" in w:
        if not core.default_domain({"ref": w["ref"], "est": w["e2"]}, cfg):
            return False
    return core.default_domain({k: v for k, v in w.items() if k != "e2"}, cfg)


def cases_silent(tier):
    g = Gen("silent", f_silent, tier, domain=dom_silent, assume=None, flips=False)
    th = g.th
    for be in BE:
        for fn in FUNCS:
            si, multi = fn.startswith("si_"), fn in MULTI
            for what in ("est", "ref"):
                if what == "ref" and fn == "si_bss":
                    continue
                KM = (2, 2)
                if fn not in SAME and "pairwise" not in fn:
                    KM = (2, 3) if what == "est" else (4, 2) if not multi else (3, 1)
                if multi and what == "ref":
                    KM = (3, 3) if fn in SAME else (3, 1)
                opt = [{}, {"clamp": 10.0}, {"zm": True}]
                if what == "ref" and (not si or multi):
                    opt = [dict(o, load=0.125) for o in opt]
                for j, o in enumerate(opt):
                    for q in range(KM[0] if what == "ref" else KM[1]):
                        if not th and (q + j) % 2 and j:
                            continue
                        for L in ((None,) if si else (1, 2) if not multi or th else (2,)):
                            if o.get("load") and L == 1:
                                continue
                            K = KM[0] - (what == "ref")
                            T = max(4, K * (L or 1) + 3) if multi else 4
                            T += bool(o.get("zm"))
                            qq = q
                            sp = {what: (lambda i, qq=qq: i[-2] != qq)}
                            extra = {"e2": (1, T)} if fn in SAME and what == "est" else {}
                            sl = dict(mode="exact", free=free_est) if what == "ref" and multi else {}
                            if sl:
                                T += 3
                            g.add(be, KM[0], KM[1], T, L, fn=fn, multi=multi, what=what, q=q, sparse=sp, extra=extra, **sl,
                                  sx=",%s,%s%d" % (fn, what, q) + "".join("," + k for k in o if k != "load"), **o)
            if not si:
                for what, q, K, M in (("est", 1, 2, 2), ("est", 0, 2, 3)) if "pairwise" in fn or fn in SAME else (("est", 0, 2, 3), ("est", 2, 2, 3)):
                    if fn in SAME and M != K:
                        continue
                    L, T = 2, 7 if multi else 5
                    one = (lambda n, i, q=q: n in ("est", "e2") and i[-2] != q) if not multi else lambda n, i, q=q: n == "est" and i[-2] == (q + 1) % 2 and i[-1] == 3
                    g.add(be, K, M, T, L, fn=fn, multi=multi, what=what, q=q, cg=2, sparse={what: (lambda i, q=q: i[-2] != q)},
                          extra={"e2": (1, T)} if fn in SAME else {}, mode="exact", free=one, sx=",%s,%s%d,cg" % (fn, what, q))
            sp = {"est": lambda i: i[-2] != 1}
            if fn in SAME or "pairwise" in fn:
                L, T = (None, 4) if si else (2, 7 if multi else 4)
                g.add(be, 2, 2, T, L, B=(2,), fn=fn, multi=multi, what="est", q=1, sparse=sp,
                      extra={"e2": (2, 1, T)} if fn in SAME else {}, sx=",%s,est1,batch" % fn)
    return g.out


Prop("C18", "Silent channels are harmless and leave the other channels alone", cases_silent,
     "one silent channel in every position, up to 2x3 channels (silent estimate) and 4x2, 3x3 (silent reference with load_diag), n_samples "
     "<= 8, filter_length <= 2; the other channels are fully symbolic, except for bss_eval_sources with a silent reference, where the "
     "references are constant and the estimates symbolic; options clamp_db, zero_mean; batches of two", BASE + [
         "a silent reference is looked at with load_diag only (without it the system is singular); a SAR next to a silent reference, and "
         "si_bss_eval_sources with permutation and a silent reference, are outside (loading makes a one-tap SIR exceed its range)"],
     "The library runs on signals with an exactly zero channel; its own metrics must be exactly -inf (or -clamp_db) and the others must equal "
     "the results of the call without that channel, or with another signal in its place.")


# ----------------------------------------------------------------------------
# C20: allowed distortions


def filtered(A, refs, h, T):
    """sum of the references filtered by h[k] (lists)"""
    out = []
    for t in range(T):
        ts = []
        for r, f in zip(refs, h):
            for a, c in enumerate(f):
                v = _at(A, r, t - a)
                if not _zero(v):
                    ts.append(_prod(A, c, v))
        out.append(O._sum(A, ts))
    return out


def f_allowed(A, X, cfg):
    ref, h = X["ref"], X["h"]
    fn, how, clamp = cfg["fn"], cfg["how"], cfg.get("clamp")
    K, T = ref.shape[-2:]
    M = h.shape[-3]
    bs = ref.shape[:-2]
    target = cfg["target"]
    rows = []
    for b in np.ndindex(bs):
        R = [O._l(ref[b][k]) for k in range(K)]
        E = []
        for m in range(M):
            hm = [O._l(h[b][m][k]) for k in range(h.shape[-2])]
            if how == "target":
                E.append(filtered(A, [R[target[m]]], hm, T))
            elif how == "mix":
                E.append(filtered(A, R, hm, T))
            else:
                d = cfg["delay"]
                E.append(filtered(A, [R[target[m]]], [[_c(A, 0)] * d + hm[0]], T))
        rows.append(E)
    est = A.arr(rows[0]) if bs == () else A.arr(rows)
    a = invoke(A, fn, ref, est, cfg)
    parts, perm = metric_parts(fn, a)
    loss = fn in EST_FIRST or fn == "sdr_neg"
    best = (-1.0 if loss else 1.0) * (np.inf if clamp is None else clamp)
    bl = [(n, v[b]) for b in np.ndindex(bs) for n, v in parts]

    def const(shape):
        if clamp is None:
            return arr(A, np.full(shape, al.INF if best > 0 else -al.INF, dtype=object)) if A.symbolic else np.full(shape, best)
        return A.arr(np.full(shape, best).tolist())

    if how == "delay":
        for n, v in parts:
            if n in ("loss", "sdr"):
                for i in np.ndindex(np.shape(v)):
                    yield true("beyond the filter length: not perfect %s" % list(i), not is_best(A, v, i, best))
        return
    if how == "mix":
        n, v = parts[2]
        yield eq("mixture: " + n, v, const(np.shape(v)))
        if K > 1 and cfg.get("proper", True):
            for i in np.ndindex(np.shape(parts[0][1])):
                yield true("mixture: SDR is limited %s" % list(i), not is_best(A, parts[0][1], i, best))
        return
    n, v = parts[0]
    if "pairwise" in fn:
        for b in np.ndindex(bs):
            for m in range(M):
                yield eq("filtered reference %d" % m, v[b][target[m] : target[m] + 1, m], const((1,)))
                for k in range(K):
                    if k != target[m]:
                        yield true("other reference %d %d" % (k, m), not is_best(A, v[b], (k, m), best))
        return
    for n, v in parts:
        if n != "sar" or True:
            yield eq("filtered reference: " + n, v, const(np.shape(v)))
    if perm is not None:
        want = list(target) if K > M else [target.index(k) if k in target else -1 for k in range(K)]
        yield true("assignment", all(np.array_equal(np.asarray(perm)[b], want) for b in np.ndindex(bs)))


def is_best(A, v, i, best):
    if A.symbolic:
        x = npsym._raw(npsym.sym(v))[i]
        if type(x) is float:
            return x == best
        return False if np.isinf(best) else bool(x.is_const() and abs(float(x.shadow()) - best) < 1e-12)
    x = float(np.asarray(v)[i])
    return x >= min(best, 110) if best > 0 else x <= max(best, -110)


def dom_allowed(w, cfg):
    if any(not np.isfinite(x).all() or np.abs(x).max() > 1e4 for x in w.values()):
        return False
    if np.abs(w["h"]).max(axis=-1).min() < 1e-2:
        return False
    # no reference is (nearly) a filtered version of the others
    return core.default_domain({"ref": w["ref"]}, dict(cfg, multi=True))


def cases_allowed(tier):
    g = Gen("allowed", f_allowed, tier, domain=dom_allowed, assume=None, flips=False, mode="exact", stress=False)
    th = g.th

    def add(be, K, M, T, L, fn, how, target=(0, 1, 2), B=(), taps=None, sx="", **kw):
        n = taps or L or 1
        hk = 1 if how != "mix" else K
        sup = T - n + 1 if how != "delay" else T - kw["delay"] - n + 1
        id_ = ",%s,%s" % (fn, how) + sx
        free = kw.pop("free", lambda n, i: n == "h")
        g.add(be, K, M, T, L, B=B, mode="exact", fn=fn, how=how, target=tuple(target[:M]), multi=True,
              sparse={"ref": lambda i: i[-1] < sup}, extra={"h": tuple(B) + (M, hk, n)}, sx=id_, free=free, **kw)

    for be in BE:
        for fn in FUNCS:
            si, multi = fn.startswith("si_"), fn in MULTI
            Ls = (None,) if si else (1, 2, 4)
            for L in Ls:
                T = (L or 1) * 4 + 3
                for o in ({}, {"clamp": 10.0}) + (({"zm": True},) if (L or 1) == 1 else ()):
                    sx = "".join("," + k for k in o)
                    if multi and o.get("clamp") is None and fn in ("bss", "si_bss"):
                        # all SIR infinite: fine as long as no SIR is -inf
                        pass
                    if fn in SAME:
                        add(be, 2, 2, T, L, fn, "target", (0, 1), sx=sx, **o)
                    elif "pairwise" in fn:
                        add(be, 2, 3, T, L, fn, "target", (1, 0, 1), sx=sx, **o)
                    else:
                        add(be, 2, 2, T, L, fn, "target", (1, 0), sx=sx, **o)
                        if th or o == {} and L != 4:
                            add(be, 3, 3, T + 4 * (L or 1), L, fn, "target", (2, 0, 1), sx=sx, **o)
                            add(be, 3, 2, T + 4 * (L or 1), L, fn, "target", (2, 0), sx=sx, **o)
                    if multi:
                        add(be, 2, 2, T, L, fn, "mix", sx=sx, proper=not o.get("clamp"), **o)
                        if L != 4 or th:
                            add(be, 3, 3, T + 4 * (L or 1), L, fn, "mix", sx=sx, proper=not o.get("clamp"), **o)
                # fewer taps than allowed, a longer delay
                if (L or 1) > 1:
                    add(be, 2, 2, T, L, fn, "target", (0, 1) if fn in SAME else (1, 0), taps=L - 1, sx=",short")
                if "bss" in fn and not th and fn != "bss_noperm":
                    continue
                for d in ((L or 1), (L or 1) + 1):
                    add(be, 2, 2, T + d, L, fn, "delay", (0, 1) if fn in SAME else (1, 0), taps=1, delay=d, sx=",d=%d" % d)
            L = None if si else 2
            add(be, 2, 2, 9, L, fn, "target", (0, 1) if fn in SAME else (1, 0), B=(2,), sx=",batch")
        # symbolic references
        for fn in ("si_loss", "si_pairwise"):
            add(be, 1, 1, 3, None, fn, "target", (0,), free=None, sx=",all")
        add(be, 1, 1, 3, 2, "loss", "target", (0,), free=None, sx=",all")
        add(be, 1, 1, 4, 2, "sdr", "target", (0,), free=None, sx=",all")
        add(be, 2, 2, 3, None, "si_bss_noperm", "mix", free=None, sx=",all")
    return g.out


Prop("C20", "Filtered references count as target, their mixtures have no artifacts", cases_allowed,
     "symbolic filters of 1 to 4 taps (and fewer than filter_length), constant references drawn by the witness, up to 3x3 channels, up to 35 "
     "samples; fully symbolic references and filters for one channel (2 taps) and two channels (1 tap); clamp_db; batches of two; delays of "
     "filter_length and one more", [EXACT_REALS, LSA, COH,
         "references are not (nearly) filtered versions of each other; the linear systems are solved exactly (rational elimination)"],
     "Estimates are built by convolving the references with symbolic filters; the coherence computed by the library must be identically 1, so "
     "that the SDR (SAR for mixtures) is exactly +inf or clamp_db, and the filtered reference is found by the assignment; with a delay beyond "
     "the filter length the SDR must not be infinite.")


# ----------------------------------------------------------------------------
# C22: defaults


DEFAULTS = {
    "bss_eval_sources": {"filter_length": 512, "use_cg_iter": None, "zero_mean": False, "clamp_db": None, "compute_permutation": True,
                         "load_diag": None},
    "sdr": {"filter_length": 512, "use_cg_iter": None, "zero_mean": False, "clamp_db": None, "load_diag": None, "return_perm": False,
            "change_sign": False},
    "sdr_loss": {"filter_length": 512, "use_cg_iter": None, "zero_mean": False, "clamp_db": None, "load_diag": None, "pairwise": False},
    "sdr_pit_loss": {"filter_length": 512, "use_cg_iter": None, "zero_mean": False, "clamp_db": None, "load_diag": None},
    "si_bss_eval_sources": {"zero_mean": False, "clamp_db": None, "compute_permutation": True, "load_diag": None},
    "si_sdr": {"zero_mean": False, "clamp_db": None, "return_perm": False, "change_sign": False},
    "si_sdr_loss": {"zero_mean": False, "clamp_db": None, "pairwise": False},
    "si_sdr_pit_loss": {"zero_mean": False, "clamp_db": None},
}

ORDER = {f: list(d) for f, d in DEFAULTS.items()}
ORDER["pairwise_sdr_loss"] = ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag"]
ORDER["pairwise_si_sdr_loss"] = ["zero_mean", "clamp_db"]
DEFAULTS["pairwise_sdr_loss"] = {k: DEFAULTS["sdr_loss"][k] for k in ORDER["pairwise_sdr_loss"]}
DEFAULTS["pairwise_si_sdr_loss"] = {k: DEFAULTS["si_sdr_loss"][k] for k in ORDER["pairwise_si_sdr_loss"]}


def lookup(fn, where):
    m = core.fb()
    return getattr(m if where == "top" else getattr(m, where), fn)


def same_raw(name, a, b):
    a = a if isinstance(a, tuple) else (a,)
    b = b if isinstance(b, tuple) else (b,)
    ok = len(a) == len(b) and all(np.shape(u) == np.shape(v) for u, v in zip(a, b))
    yield true(name + ": number and shapes of the results", ok)
    if not ok:
        return
    for i, (u, v) in enumerate(zip(a, b)):
        if not isinstance(u, npsym.SymArray) and np.asarray(u).dtype.kind in "iu":
            yield true("%s: result %d" % (name, i), np.array_equal(np.asarray(u), np.asarray(v)))
        else:
            yield eq("%s: result %d" % (name, i), u, v)


def f_defaults(A, X, cfg):
    ref, est = X["ref"], X["est"]
    fn, how = cfg["fn"], cfg["how"]
    if how == "copy":
        est = ref * X["g"]
    loss = fn.endswith("_loss")
    sub = A.backend
    names = ("est", "ref") if loss else ("ref", "est")

    def call(where, *a, swap=True, **kw):
        x = [A.to(est), A.to(ref)] if loss else [A.to(ref), A.to(est)]
        return A.back(A.raw(lookup(fn, where), tuple(x) + a, kw))

    base = {} if how == "512" or "filter_length" not in DEFAULTS[fn] else {"filter_length": cfg["L"]}
    full = dict(DEFAULTS[fn], **base)
    pub = "top" if not fn.startswith("pairwise") else sub
    want = call(pub, **full)
    if how in ("omit", "copy", "512"):
        for w in (pub, sub) if pub != sub and how != "512" else (cfg.get("where", pub),):
            yield from same_raw("defaults of " + w, call(w, **base), want)
        return
    v = dict(full, **cfg["values"])
    want = call(pub, **v)
    if how == "module":
        yield from same_raw("through the subpackage", call(sub, **v), want)
        kw = {names[0]: A.to(est if loss else ref), names[1]: A.to(ref if loss else est)}
        # without the option spelled at its default
        yield from same_raw("other options omitted", call(pub, **dict(base, **cfg["values"])), want)
        yield from same_raw("keyword signals", A.back(A.raw(lookup(fn, sub), (), dict(v, **kw))), want)
        if fn.startswith("pairwise"):
            f = fn.replace("pairwise_", "")
            x = [A.to(est), A.to(ref)]
            yield from same_raw("pairwise helper", A.back(A.raw(lookup(f, "top"), tuple(x), dict(v, pairwise=True))), want)
        return
    yield from same_raw("by position", call(pub, *[v[k] for k in ORDER[fn]]), want)
    if pub != sub:
        yield from same_raw("by position, subpackage", call(sub, *[v[k] for k in ORDER[fn]]), want)


def cases_defaults(tier):
    g = Gen("defaults", f_defaults, tier, flips=False)
    th = g.th
    VAL = {"zero_mean": True, "clamp_db": 10.0, "load_diag": 0.125, "use_cg_iter": 1, "compute_permutation": False, "return_perm": True,
           "change_sign": True, "pairwise": True}
    for be in BE:
        for fn in ORDER:
            si = "si_" in fn
            multi = "bss" in fn
            L = None if si else 2
            T = 4 if not multi else 5 if si else 7
            g.add(be, 2, 2, T, L, fn=fn, how="omit", multi=multi, sx=",%s,omit" % fn)
            g.add(be, 1, 1, 4, L, fn=fn, how="copy", multi=multi, mode="exact", extra={"g": (1,)}, domain=dom_copy, stress=False, sx=",%s,copy" % fn)
            for k in ORDER[fn]:
                if k == "filter_length":
                    continue
                if k == "use_cg_iter":
                    if multi and not th:
                        continue
                    g.add(be, 1, 1, 3, L, fn=fn, how="module", multi=multi, values={k: VAL[k]}, sx=",%s,%s" % (fn, k), free=free_est, mode="exact")
                    continue
                g.add(be, 2, 2, T + (k == "zero_mean"), L, fn=fn, how="module", multi=multi, values={k: VAL[k]}, sx=",%s,%s" % (fn, k))
            for i, val in enumerate(({"zero_mean": True}, {"clamp_db": 10.0}, {"load_diag": 0.125},
                                     {"return_perm": True}, {"compute_permutation": False}, {"pairwise": True}, {"change_sign": True})):
                val = {k: v for k, v in val.items() if k in ORDER[fn]}
                if not val:
                    continue
                g.add(be, 2, 2, T + 1, L, fn=fn, how="position", multi=multi, values=val, sx=",%s,position%d" % (fn, i))
            if not si:
                rs, es = (0, 1), (0, 300, 511, 512)
                for w in ("top", be):
                    if fn.startswith("pairwise") and w == "top":
                        continue
                    if w != "top" and not th and (fn not in ("bss_eval_sources", "sdr") or be == "torch") and not fn.startswith("pairwise"):
                        continue
                    g.add(be, 1, 1, 513, None, fn=fn, how="512", multi=multi, where=w, sx=",%s,512,%s" % (fn, w), domain=None, assume=None,
                          sparse={"ref": lambda i: i[-1] in rs, "est": lambda i: i[-1] in es}, weight=50, timeout=400)
    return g.out


def dom_copy(w, cfg):
    if np.abs(w["g"]).min() < 1e-2 or np.abs(w["g"]).max() > 1e3:
        return False
    return core.default_domain({"ref": w["ref"]}, cfg)


Prop("C22", "Options have their documented defaults and always reach the computation", cases_defaults,
     "all public functions and pairwise_ helpers, package and subpackage; two channels, up to 8 samples, filter_length 2, every option at a "
     "value different from its default; the default of 512 taps with signals of 513 samples that are zero outside six symbolic samples at "
     "the lags 0, 1, 300, 511 and 512", BASE,
     "The call without an option, by keyword, by position and through the other entry point runs on the same symbolic signals as the call "
     "with every option spelled out; the solver shows the results identical for all sample values.")
