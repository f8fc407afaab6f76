"""Permutations (every ordering of the losses), infinite losses, clamping,
iterative solver, gradients, allowed distortions."""
import itertools

import numpy as np

from . import algebra as al
from . import core, explore, npsym
from . import oracle as O
from .core import Case, PreconditionFailed, eq, le, leall, true
from .props import BASE, BE, EXACT_REALS, SOLVE, LSA, AUDIBLE, COH, P, Prop, arr, audible, batches, chans, far, lin, near, opts, row, shape_is, shp, tag
from .props2 import FUNCS, MULTI, SAME, EST_FIRST, Gen, invoke, metric_parts, same_results, same_perm, approx

EXPL = (
    "the logarithms of different losses are treated as independent unknown reals (an over-approximation of the reachable losses)"
)


def ent(A, D, b=()):
    """entries of a loss matrix as terms / floats"""
    if A.symbolic:
        return npsym._raw(npsym.sym(D))[b]
    return np.asarray(D)[b]


def total(A, xs):
    if A.symbolic:
        if any(type(x) is float for x in xs):
            return float("nan")
        return al.fsum(list(xs))
    return float(np.sum(np.asarray(xs, dtype=float)))


def one(A, x):
    return npsym.wrap(np.array([x], dtype=object)) if A.symbolic else np.array([x])


def is_inf(A, v, sign):
    """is a loss infinite (concrete runs: out of reach of double precision)"""
    if A.symbolic:
        return type(v) is float and v == sign * al.INF
    return v * sign > 100


def optimal(A, D, perm, K, M, label=""):
    """the assignment has the least number of +inf (or most -inf), then the least
    sum of finite losses"""
    n = min(K, M)
    pr = O.pairs(perm, K, M)
    chosen = [D[k, m] for k, m in pr]

    def split(xs):
        np_ = sum(is_inf(A, x, 1) for x in xs)
        nm = sum(is_inf(A, x, -1) for x in xs)
        return np_, nm, [x for x in xs if not is_inf(A, x, 1) and not is_inf(A, x, -1)]

    cp, cm, cf = split(chosen)
    fewest = True
    others = []
    ex = getattr(A, "explorer", None)
    iv = {}
    if ex is not None and ex.box is not None and not cp and not cm:
        for i in np.ndindex(D.shape):
            l = ex.linear(D[i])
            iv[i] = ex.interval(l) if l is not None else None
    for q in itertools.permutations(range(max(K, M)), n):
        if iv:
            # clearly larger totals need no query
            qs = O.pairs(q, K, M)
            a, b = [iv[i] for i in qs if i not in pr], [iv[i] for i in pr if i not in qs]
            if None not in a and None not in b and a and sum(x[0] for x in a) > sum(x[1] for x in b) + 1e-9:
                continue
        qp, qm, qf = split([D[k, m] for k, m in O.pairs(q, K, M)])
        fewest = fewest and (cp - cm) <= (qp - qm)
        if (qp, qm) == (cp, cm) and cf:
            others.append(total(A, qf))
    yield true(label + "no assignment has fewer infinite losses", fewest)
    if cf:
        o = np.empty(len(others), dtype=object)
        for i, v in enumerate(others):
            o[i] = v
        yield leall(label + "no assignment has a smaller total loss", one(A, total(A, cf)), arr(A, o))


def f_perm(A, X, cfg):
    ref, est = X["ref"], X["est"]
    if "mix" in cfg:
        est = mixed(A, X, cfg)
    K, M = chans(ref), chans(est)
    bs = ref.shape[:-2]
    pre = "si_" if cfg.get("si") else ""
    D = invoke(A, pre + "pairwise", ref, est, cfg)[0]
    if hasattr(A, "explorer"):
        A.explorer.losses = [list(r) for r in ent(A, D).reshape(-1, M)]
    if not A.symbolic:
        faithful(D, cfg)
    s, perm = invoke(A, pre + "sdr", ref, est, cfg)
    neg = invoke(A, pre + "pit", ref, est, cfg)[0] if cfg.get("pit", True) else None
    for b in np.ndindex(bs):
        p = np.asarray(perm)[b]
        lb = str(list(b)) if bs else ""
        ok = O.one_to_one(p, K, M)
        yield true(lb + "one to one", ok)
        if not ok:
            return
        d = ent(A, D, b)
        yield from optimal(A, d, p, K, M, lb)
        g = [d[k, m] for k, m in O.pairs(p, K, M)]
        yield eq(lb + "returned SDRs are those of the assignment", s[b], arr(A, objrow(A, [negate(A, x) for x in g])))
        if neg is not None:
            yield eq(lb + "PIT loss is the loss of the assignment", neg[b], arr(A, objrow(A, g)))


def objrow(A, xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def negate(A, x):
    if type(x) is float or not A.symbolic:
        return -x
    return al.neg(x)


def f_perm_bss(A, X, cfg):
    """bss_eval_sources assigns by SIR and gathers SDR and SAR alike"""
    ref, est = X["ref"], X["est"]
    if "mix" in cfg:
        est = mixed(A, X, cfg)
    K, M = chans(ref), chans(est)
    bs = ref.shape[:-2]
    pre = "si_" if cfg.get("si") else ""
    # metrics of every pair, from calls without permutation on square problems
    # (the interference only depends on the references)
    tabs = [np.empty(bs + (K, M), dtype=object) for _ in range(3)]
    for sh in range(M if M >= K else K):
        sel = [(k + sh) % M for k in range(K)]
        if M < K and sh >= M:
            break
        o = invoke(A, pre + "bss_noperm", ref, est[..., sel, :], cfg)
        for j in range(3):
            e = ent(A, o[j], slice(None) if not bs else Ellipsis)
            for b in np.ndindex(bs):
                for k in range(K):
                    tabs[j][b + (k, sel[k])] = e[b + (k,)]
    neg = [np.vectorize(lambda x: negate(A, x), otypes=[object])(t) for t in tabs]
    if hasattr(A, "explorer"):
        A.explorer.losses = [list(r) for r in neg[1].reshape(-1, M)]
    if not A.symbolic:
        faithful(neg[1].astype(float), cfg)
    out = invoke(A, pre + "bss", ref, est, cfg)
    for b in np.ndindex(bs):
        p = np.asarray(out[3])[b]
        lb = str(list(b)) if bs else ""
        ok = O.one_to_one(p, K, M)
        yield true(lb + "one to one", ok)
        if not ok:
            return
        d = neg[1][b]
        yield from optimal(A, d, p, K, M, lb)
        for j, nm in enumerate(("sdr", "sir", "sar")):
            yield eq(lb + nm + " follows the assignment", out[j][b], arr(A, objrow(A, [tabs[j][b + km] for km in O.pairs(p, K, M)])))


def faithful(D, cfg):
    """concrete inputs must give cleanly finite or infinite losses of one kind"""
    D = np.asarray(D, dtype=float)
    if np.isnan(D).any():
        raise PreconditionFailed
    if ((np.abs(D) > 100) & np.isfinite(D)).any():
        raise PreconditionFailed
    if (D == np.inf).any() and (D == -np.inf).any():
        raise PreconditionFailed


def realise_si(case):
    """concrete signals for a matrix of losses (one tap, orthogonal references)"""

    def f(cost, w):
        C = np.array(cost, dtype=float)
        K, M = C.shape
        if "mix" in case.cfg or len(case.shapes["ref"]) > 2:
            return None
        fin = C[np.isfinite(C)]
        lo = fin.min() if fin.size else 0.0
        span = (fin.max() - lo) if fin.size else 0.0
        out = []
        T = K + 1 + M
        ref = np.zeros((K, T))
        for k in range(K):
            ref[k, k] = 1.0
        est = np.zeros((M, T))
        integer = np.all(fin == np.round(fin)) and span <= 14
        if integer:
            # equal losses are equal to the last bit: all the estimates share the
            # same multiset of amplitudes
            levels = int(span) + 1
            T = K + M * K * levels
            ref = np.zeros((K, T))
            est = np.zeros((M, T))
            for k in range(K):
                ref[k, k] = 1.0
            for m in range(M):
                bag = [2.0 ** -v for v in range(levels) for _ in range(K)]
                for k in range(K):
                    if np.isfinite(C[k, m]):
                        a = 2.0 ** -(C[k, m] - lo)
                        est[m, k] = a
                        bag.remove(a)
                o = K + m * K * levels
                est[m, o : o + len(bag)] = bag
            return {"ref": ref, "est": est}
        sc = 20.0 / span if span > 0 else 1.0
        for m in range(M):
            used = 0.0
            for k in range(K):
                if np.isfinite(C[k, m]):
                    coh = 1.0 / (1.0 + 10.0 ** (((C[k, m] - lo) * min(sc, 1e3) + 10.0) / 10.0))
                    est[m, k] = np.sqrt(coh)
                    used += coh
            est[m, K + 1 + m] = np.sqrt(max(1.0 - used, 1e-3))
        return {"ref": ref, "est": est}

    return f


def realise_bss(case):
    """orthogonal references: the SIR losses follow the weights of the mixture"""

    def f(cost, w):
        C = np.array(cost, dtype=float)
        K, M = C.shape
        if "mix" in case.cfg or len(case.shapes["ref"]) > 2:
            return None
        fin = C[np.isfinite(C)]
        lo = fin.min() if fin.size else 0.0
        span = (fin.max() - lo) if fin.size else 0.0
        sc = 1.0 if span <= 14 else 14.0 / span
        T = K + M
        ref = np.zeros((K, T))
        est = np.zeros((M, T))
        for k in range(K):
            ref[k, k] = 1.0
        for m in range(M):
            for k in range(K):
                if np.isfinite(C[k, m]):
                    est[m, k] = 2.0 ** -((C[k, m] - lo) * sc)
            est[m, K + m] = 1.0
        return {"ref": ref, "est": est}

    return f


def mixed(A, X, cfg):
    """some estimates are constants, the others symbolic"""
    rows = cfg["mix"]
    e = X["est"]
    j = 0
    if A.symbolic:
        raw = npsym._raw(e)
        out = np.empty((len(rows), raw.shape[-1]), dtype=object)
    else:
        out = np.zeros((len(rows), e.shape[-1]))
    for m, r in enumerate(rows):
        if r is None:
            out[m] = raw[j] if A.symbolic else e[j]
            j += 1
        else:
            for t, v in enumerate(r):
                out[m, t] = al.lift(v) if A.symbolic else v
    return npsym.wrap(out) if A.symbolic else out


def realise_mix(case):
    def f(cost, w):
        C = np.array(cost, dtype=float)
        K = C.shape[0]
        est = np.zeros_like(w["est"])
        j = 0
        for m, r in enumerate(case.cfg["mix"]):
            if r is not None:
                continue
            with np.errstate(all="ignore"):
                coh = 1.0 / (1.0 + 10.0 ** (C[:, m] / 10.0))
            if coh.sum() >= 1:
                coh = coh / coh.sum() * 0.999
            est[j, :K] = np.sqrt(coh)
            est[j, K] = np.sqrt(1.0 - coh.sum())
            j += 1
        return {"ref": w["ref"], "est": est}

    return f


def mkmix(g, be, K, M, nsym, v, levels, f=f_perm, **kw):
    """orthogonal references; nsym estimates are symbolic, the others constants
    with few different levels (many equal losses)"""
    import random

    r = random.Random("mix%d%d%d%d" % (K, M, nsym, v))
    T = K + 1
    rows = []
    for m in range(M):
        # equal norms: equal amplitudes give identical losses
        while True:
            x = [r.choice(levels) for _ in range(K)]
            rest = 4 * K * max(levels) ** 2 - sum(a * a for a in x)
            y = int(round(rest ** 0.5))
            if f is f_perm_bss or y * y == rest:
                break
        rows.append([float(a) for a in x] + [float(y)])
    for m in r.sample(range(M), nsym):
        rows[m] = None
    lim = kw.pop("lim", 60)
    pos = "".join("s" if x is None else "c" for x in rows)
    g.add(be, K, M, T, None, f=f, sx=",%s,%d" % (pos, v), runner=explore.explorer_runner(lim, 700), domain=dom_any, flips=False,
          fixed={"ref": np.eye(K, T)}, parallel=kw.pop("parallel", 1), timeout=lim + 60 if not g.th else 780, mix=rows, weight=4, **kw)
    c = g.out[-1]
    c.shapes = {"ref": (K, T), "est": (nsym, T)}
    c.realise = realise_mix(c)


def mkhard(g, be, K, M, v, box, lim=100, **kw):
    """products of the indices and noise: the losses take the assignment through
    long augmenting paths; the losses of one estimate vary around such values"""
    import random

    r = random.Random("hard%d%d%d" % (K, M, v))
    pr, pm = r.sample(range(K), K), r.sample(range(M), M)
    unit = 12.0 / (K * M + 2)
    rows = []
    for m in range(M):
        c = [8.0 + unit * ((pr[k] + 1) * (pm[m] + 1) + r.choice([0, 1, 2]) + r.uniform(-1e-2, 1e-2)) for k in range(K)]
        a = [round((1.0 + 10.0 ** (x / 10.0)) ** -0.5, 4) for x in c]
        rows.append(a + [round((1.0 - sum(x * x for x in a)) ** 0.5, 4)])
    j = r.randrange(M)
    base = rows[j]
    rows[j] = None
    T = K + 1
    g.add(be, K, M, T, None, f=f_perm, sx=",hard%d" % v, runner=explore.explorer_runner(lim, 700), domain=dom_any, flips=False,
          fixed={"ref": np.eye(K, T)}, parallel=kw.pop("parallel", 1), timeout=lim + 60 if not g.th else 780, mix=rows, weight=8, pit=False,
          box=box * unit / 10.0, witness=lambda rng: {"ref": np.eye(K, T), "est": np.array([base])}, **kw)
    c = g.out[-1]
    c.shapes = {"ref": (K, T), "est": (1, T)}
    c.realise = realise_mix(c)


def dom_any(w, cfg):
    """audible channels and independent references; the metrics may be infinite"""
    return core.default_domain(w, dict(cfg, edge=True))


def mkperm(g, be, K, M, T, f=f_perm, B=(), sx="", **kw):
    sparse = kw.pop("sparse", None)
    lim = kw.pop("lim", 60)
    par = kw.pop("parallel", 3)
    g.add(be, K, M, T, kw.pop("L", None), B=B, f=f, sx=sx, sparse=sparse, runner=explore.explorer_runner(lim, 700),
          domain=dom_any, flips=False, parallel=par, timeout=kw.pop("timeout", lim + 60 if not g.th else 780), **kw)
    c = g.out[-1]
    c.realise = (realise_bss if f is f_perm_bss else realise_si)(c)


def cases_perm(tier):
    g = Gen("perm", f_perm, tier, si=True)
    for be in BE:
        for K, M in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1)):
            mkperm(g, be, K, M, 4)
        mkperm(g, be, 2, 2, 4, B=(2,), sx=",batch")
        mkperm(g, be, 2, 2, 4, L=2, si=False, sx=",two taps")
        mkperm(g, be, 2, 3, 4, B=(2, 1) if be == "numpy" else (1,), sx=",batch")
        if be == "numpy" or g.th:
            mkperm(g, be, 2, 4, 4, lim=100, weight=20)
            mkperm(g, be, 4, 2, 4, lim=100, weight=20)
        if be == "numpy":
            for K, M in ((3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3)):
                mkperm(g, be, K, M, 6)
            mkperm(g, be, 3, 3, 5, B=(2,))
        else:
            mkperm(g, be, 3, 3, 5, lim=200, weight=50, parallel=7, pit=False, timeout=250)
        if be == "torch":
            # larger problems: one symbolic estimate among constants with ties
            for v in (3, 1, 7) if not g.th else range(24):
                mkmix(g, be, 4, 4, 1, v, (1, 2, 3, 4), pit=False, lim=110, parallel=2)
            for v in range(3 if not g.th else 12):
                mkmix(g, be, 5, 4, 1, v, (1, 2, 3), pit=False)
            for v in range(8):
                mkhard(g, be, 5, 5, v, 1.0)
            for v in (0, 1, 2, 3, 4, 6, 8, 9) if not g.th else range(24):
                mkhard(g, be, 6, 6, v, 0.75)
            for v in range(3):
                mkhard(g, be, 5, 6, v, 0.75)
                mkhard(g, be, 6, 5, v, 0.75)
            if g.th:
                for v in range(12):
                    mkhard(g, be, 5, 5, v + 20, 2.0)
                    mkhard(g, be, 7, 7, v, 0.5, partial=True)
            if g.th:
                for v in range(8):
                    mkmix(g, be, 5, 5, 1, v, (1, 2, 3, 4), pit=False, lim=600, parallel=2)
                    mkmix(g, be, 4, 5, 1, v, (1, 2, 3), pit=False, lim=600, parallel=2)
                    mkmix(g, be, 4, 4, 2, v, (1, 2, 3), pit=False, lim=600, parallel=3, partial=True)
        if g.th:
            if be == "numpy":
                mkperm(g, be, 5, 5, 6, lim=700, weight=50)
            else:
                mkperm(g, be, 3, 4, 5, lim=700, weight=60, parallel=7, pit=False, partial=True)
                mkperm(g, be, 4, 3, 5, lim=700, weight=60, parallel=7, pit=False, partial=True)
    return g.out


Prop("C04", "sdr, sdr_pit_loss and si_ variants return an optimal one-to-one assignment", cases_perm,
     "every ordering of the losses (all feasible paths of the assignment code) for up to 3 references x 3 estimates, 2x4, 4x2 "
     "(NumPy: up to 4x3), batches of 2; the matrix of losses is fully symbolic; torch: one fully symbolic column up to 5x4, and one column "
     "within a box around constants that force long augmenting paths for 5x5, 5x6, 6x5, 6x6 (thorough 7x7)", [EXACT_REALS, LSA, EXPL],
     "The assignment code runs on symbolic losses; wherever both outcomes of a comparison are feasible both are executed (decided by "
     "z3 in linear arithmetic), and on every path z3 shows that no other assignment has a smaller total and that the returned "
     "metrics are those of the assignment.")


def cases_perm_bss(tier):
    g = Gen("permbss", f_perm_bss, tier, si=True, multi=True)
    for be in BE:
        for K, M in ((2, 2), (2, 1), (2, 3), (3, 2)):
            mkperm(g, be, K, M, 5, f=f_perm_bss)
        mkperm(g, be, 2, 2, 5, L=2, si=False, f=f_perm_bss, sx=",two taps")
        mkperm(g, be, 2, 2, 4, B=(2,), f=f_perm_bss, sx=",batch", weight=5)
        if be == "numpy" or g.th:
            mkperm(g, be, 2, 4, 5, f=f_perm_bss, lim=100, weight=20)
        if be == "numpy":
            mkperm(g, be, 3, 3, 6, f=f_perm_bss, lim=100)
        else:
            mkperm(g, be, 3, 3, 6, f=f_perm_bss, lim=200, weight=50, parallel=7, timeout=250)
        if g.th:
            mkperm(g, be, 4, 2, 6, f=f_perm_bss, lim=700, weight=30)
            mkperm(g, be, 3, 4, 5, f=f_perm_bss, lim=700, weight=60, parallel=7, partial=True)
    return g.out


Prop("C05", "bss_eval_sources assigns by SIR and returns SDR, SIR, SAR of the same pairs", cases_perm_bss,
     "every ordering of the SIRs for up to 3x3, 2x4 channels (thorough also 4x2), filter_length 1 and 2, batches of 2",
     [EXACT_REALS, SOLVE, LSA, EXPL],
     "As C04 with the SIR as the optimised metric; all three metrics returned are compared with the definition for the assigned pairs.")


# ----------------------------------------------------------------------------
# C06: infinite losses


def blocks(K, L):
    """disjoint supports (also after filtering) for K references"""
    return [set(range((L + 1) * 2 * k, (L + 1) * 2 * k + 2)) for k in range(K)]


def f_inf(A, X, cfg):
    """some losses are infinite: est rows listed in cfg['copy'] are multiples of a
    reference (loss -inf)"""
    est = X["est"]
    for m, k in cfg.get("copy", ()):
        est = setrow(A, est, m, X["ref"][..., k, :] * X["g"][..., m : m + 1])
    Y = {"ref": X["ref"], "est": est}
    if cfg.get("expect"):
        K, M = chans(X["ref"]), chans(est)
        pre = "si_" if cfg.get("si") else ""
        D = invoke(A, pre + "pairwise", Y["ref"], est, cfg)[0]
        for b in np.ndindex(X["ref"].shape[:-2]):
            d = ent(A, D, b)
            for k in range(K):
                for m in range(M):
                    want = cfg["expect"][k][m]
                    if want == "p":
                        yield true("no reference in the estimate: the loss is +inf %s" % [k, m], is_inf(A, d[k, m], 1))
                    elif want == "n":
                        yield true("exact copy: the loss is -inf %s" % [k, m], is_inf(A, d[k, m], -1))
                    else:
                        yield true("finite loss %s" % [k, m], not is_inf(A, d[k, m], 1) and not is_inf(A, d[k, m], -1))
    yield from (f_perm_bss if cfg.get("bssinf") else f_perm)(A, Y, cfg)


def setrow(A, x, m, v):
    if A.symbolic:
        r = npsym._raw(x).copy()
        r[..., m, :] = npsym._raw(npsym.sym(v))
        return npsym.wrap(r)
    r = np.array(x)
    r[..., m, :] = v
    return r


def dom_inf(w, cfg):
    for n in ("ref", "est"):
        if not np.isfinite(w[n]).all() or np.abs(w[n]).max() > 1e4:
            return False
        nr = np.sqrt((w[n] ** 2).sum(axis=-1))
        if ((nr < 2e-6) & (nr > 0)).any():
            return False
    if "g" in w and (np.abs(w["g"]) < 1e-2).any():
        return False
    if cfg.get("bssinf") or (cfg.get("L") or 1) > 1:
        # regular systems
        return core.default_domain({"ref": w["ref"]}, dict(cfg, edge=True))
    return True


def witness_copy(K, M, T, B=()):
    """unit amplitudes on four samples: norms are exact in double precision"""

    def f(rng):
        w = {"ref": np.zeros(B + (K, T)), "est": np.zeros(B + (M, T)), "g": np.zeros(B + (M,))}
        for b in np.ndindex(B):
            for k in range(K):
                for t in rng.sample(range(T), 4):
                    w["ref"][b][k, t] = rng.choice([-1, 1]) * 2.0 ** rng.randint(-1, 1)
                s = abs(w["ref"][b][k]).max()
                w["ref"][b][k] = np.sign(w["ref"][b][k]) * s
            for m in range(M):
                w["est"][b][m] = [rng.choice([-4, -3, -2, -1, 1, 2, 3, 4]) / 4.0 for _ in range(T)]
                w["g"][b][m] = rng.choice([-4, -2, 1, 2])
        # no reference is orthogonal to (or a multiple of) another
        for b in np.ndindex(B):
            G = np.abs(w["ref"][b] @ w["ref"][b].T)
            d = np.sqrt(np.diag(G))
            C = G / d[:, None] / d[None, :]
            if (C < 1e-3).any() or (C - np.eye(K) > 0.99).any():
                return f(rng)
        return w

    return f


def cases_inf(tier):
    g = Gen("inf", f_inf, tier, domain=dom_inf, flips=False)

    def pattern(be, pat, L=None, silent=False, sx="", lim=60, par=2, B=(), weight=2, bss=False, **kw):
        """pat: rows of 'f' (finite) and 'p' (+inf)"""
        K, M = len(pat), len(pat[0])
        bl = blocks(K, L or 1)
        base = (L or 1) * 2 * K + 2 * K + 2
        T = base + (2 if not silent else 1)
        T = max(x for s in bl for x in s) + (L or 1) + 3
        rs = lambda i: i[-1] in bl[i[-2]]
        es = lambda i: (any(pat[k][i[-2]] == "f" and i[-1] in bl[k] for k in range(K))
                        or (not silent and i[-1] == T - 1))
        n = "".join("".join(r) + "." for r in pat)
        g.add(be, K, M, T, L, B=B, si=not L, sparse={"ref": rs, "est": es}, sx="," + n + sx + (",silent" if silent else "") + (",bss" if bss else ""),
              runner=explore.explorer_runner(lim, 700), parallel=par, timeout=lim + 60 if tier == "quick" else 780,
              expect=pat if not bss else None, weight=weight, bssinf=bss, multi=bss, **kw)

    def copy(be, K, M, pairs, T=6, sx="", lim=60, B=(), par=2, weight=2):
        exp = [["f"] * M for _ in range(K)]
        for m, k in pairs:
            exp[k][m] = "n"
        g.add(be, K, M, T, None, B=B, si=True, copy=pairs, expect=exp, extra={"g": tuple(B) + (M,)},
              sx=",copy" + "".join("%d%d" % p for p in pairs) + sx, runner=explore.explorer_runner(lim, 700), parallel=par,
              timeout=lim + 60 if tier == "quick" else 780, weight=weight, witness=witness_copy(K, M, T, tuple(B)), stress=False)

    th = tier == "thorough"
    for be in BE:
        two = [["pf", "fp"], ["fp", "ff"], ["pp", "ff"], ["fp", "fp"], ["pf", "pf"], ["pp", "pf"], ["pp", "pp"]]
        for pat in two:
            pattern(be, [list(r) for r in pat])
        pattern(be, [list("p")])
        pattern(be, [list("pf"), list("fp")], L=2)
        pattern(be, [list("pp"), list("ff")], L=2, bss=False)
        for pat in (["fpf", "ffp"], ["ppp", "fff"], ["pff", "pfp"]):
            pattern(be, [list(r) for r in pat])
            pattern(be, [list(r) for r in zip(*pat)])
        for pat in (["pfp", "pff", "fff"], ["pff", "pff", "pff"]) * (th or be == "numpy") + (["fpp", "ffp", "pff"], ["ppf", "pfp", "fpp"]):
            pattern(be, [list(r) for r in pat], lim=80, par=3)
        # silent estimates
        pattern(be, [list("fp"), list("fp")], silent=True)
        pattern(be, [list("pp"), list("pp")], silent=True)
        pattern(be, [list("fp"), list("fp")], silent=True, L=2)
        pattern(be, [list("pff"), list("pff")], silent=True)
        pattern(be, [list("pf"), list("fp")], B=(2,), sx=",batch")
        three = [["pff", "fpf", "ffp"], ["ppf", "ppf", "fff"], ["fpp", "fpp", "fff"], ["pfp", "ppp", "fpf"], ["ppp", "pff", "pff"]]
        for pat in three[0 if th else 1:]:
            pattern(be, [list(r) for r in pat], lim=80, par=3)
        if th:
            for pat in (["ppff", "ffpp", "pfpf", "fpfp"], ["pppf", "ppfp", "pfpp", "fppp"], ["fppp", "fppp", "fppp", "ffff"]):
                pattern(be, [list(r) for r in pat], lim=300, par=3)
        # exact copies
        copy(be, 1, 1, [(0, 0)])
        copy(be, 2, 2, [(0, 0)])
        copy(be, 2, 2, [(1, 0)])
        copy(be, 2, 2, [(0, 0), (1, 1)])
        copy(be, 2, 2, [(0, 1), (1, 1)])
        copy(be, 2, 3, [(1, 0), (2, 1)])
        copy(be, 3, 2, [(0, 2)])
        if th:
            copy(be, 2, 2, [(1, 0)], B=(2,), sx=",batch", weight=3)
        copy(be, 3, 3, [(0, 1), (2, 1)], lim=100, par=3, weight=4)
        if th:
            copy(be, 3, 3, [(0, 1), (1, 0)], lim=300, par=3)
            copy(be, 3, 4, [(0, 1), (3, 0)], lim=300, par=3)
        # bss_eval: the SIR of an estimate without any trace of a reference is -inf
        pattern(be, [list("p"), list("f"), list("f")], bss=True)
        pattern(be, [list("ff"), list("ff")], bss=True)
        pattern(be, [list("pff"), list("fpf"), list("ffp")], bss=True, lim=100, par=3)
        pattern(be, [list("pp"), list("ff"), list("ff")], bss=True, lim=100, par=3)
    return g.out


Prop("C06", "The assignment is optimal and never fails when losses are infinite", cases_inf,
     "+inf losses (estimate without the reference, silent estimate) and -inf losses (exact copies) in every position of 2x2 matrices and "
     "selected positions up to 3x3 (thorough 4x4), all losses infinite, filter_length 1 and 2, batches of 2; the finite losses are "
     "fully symbolic; matrices mixing +inf and -inf are excluded (the library rejects them)", [EXACT_REALS, LSA, EXPL],
     "Signals are built so that the chosen losses are exactly infinite; the assignment must use the least number of +inf (most -inf) "
     "entries and then the smallest finite total, on every feasible ordering of the finite losses.")


# ----------------------------------------------------------------------------
# C07: clamping


def clampdb(A, x, c):
    """min(max(x, -c), c) for a value in decibels"""
    if not A.symbolic:
        return float(min(max(x, -c), c)) if x == x else x
    if type(x) is float:
        if x != x:
            return x
        return al.lift(c if x > 0 else -c)
    one_ = np.empty((1,), dtype=object)
    one_[0] = x
    r = npsym._raw(lin(A, npsym.wrap(one_)))[0]
    # lin() drops the sign of the coefficient: 10 log10(r)
    return O.db(A, O.clampr(A, r, c)) if c else al.ZERO


def clamped(A, v, c):
    r = ent(A, v, Ellipsis)
    out = np.empty(np.shape(r), dtype=object)
    for i in np.ndindex(np.shape(r)):
        out[i] = clampdb(A, r[i], c)
    return arr(A, out)


def level(x):
    """value of a constant entry (saturated metric), else None"""
    from . import smt

    if type(x) is float:
        return x
    if x.is_const():
        return float(x.const_value())
    o = smt.single_log(x)
    if o is not None:
        a = al.ATOMS[o[1]].data
        if isinstance(a, al.RF) and a.is_const():
            return float(x.rshadow())
    return None


def same_level(A, name, a, b):
    """equality of metrics; saturated values up to the rounding of the bounds
    (1 - eps is a double)"""
    if not A.symbolic:
        yield eq(name, a, b)
        return
    ra, rb = npsym._raw(npsym.sym(a)), npsym._raw(npsym.sym(b))
    if ra.shape != rb.shape:
        yield eq(name, a, b)
        return
    for i in np.ndindex(ra.shape):
        u, v = level(ra[i]), level(rb[i])
        if u is not None and v is not None:
            yield true(name + "%s saturated" % list(i), u == v or abs(u - v) < 1e-5)
        else:
            yield eq(name + str(list(i)), one(A, ra[i]), one(A, rb[i]))
    yield eq(name, a, a)


def f_clamp(A, X, cfg):
    ref, est = X["ref"], X["est"]
    for m, k in cfg.get("copy", ()):
        est = setrow(A, est, m, ref[..., k, :] * 2.0)
    fn, c = cfg["fn"], cfg["clamp"]
    K, M = chans(ref), chans(est)
    free = {k: v for k, v in cfg.items() if k != "clamp"}
    v = invoke(A, fn, ref, est, cfg)
    mv, perm = metric_parts(fn, v)
    for n, x in mv:
        if not A.symbolic:
            x = np.asarray(x)
            yield true(n + " within the range", bool(np.all(np.abs(x) <= c + 1e-6)))
    if fn not in ("bss", "sdr", "si_bss", "si_sdr"):
        mu, _ = metric_parts(fn, invoke(A, fn, ref, est, free))
        for (n, x), (_, y) in zip(mv, mu):
            yield from same_level(A, n, x, clamped(A, y, c))
        return
    # the assignment may differ: same pairs without clamping
    pre = "si_" if fn.startswith("si_") else ""
    bs = ref.shape[:-2]
    if len(mv) == 1:
        D = invoke(A, pre + "pairwise", ref, est, free)[0]
        for b in np.ndindex(bs):
            d = ent(A, D, b)
            e = [clampdb(A, negate(A, d[k, m]), c) for k, m in O.pairs(np.asarray(perm)[b], K, M)]
            yield from same_level(A, "sdr", mv[0][1][b], arr(A, objrow(A, e)))
        return
    for b in np.ndindex(bs):
        # the assignment only has to be made on as many estimates as references
        pr = O.pairs(np.asarray(perm)[b], K, M)
        if K > M:
            yield eq("sdr", mv[0][1], mv[0][1])
            continue
        plain = invoke(A, fn + "_noperm", ref[b], est[b][[m for _, m in pr], :], free)
        for (n, x), y in zip(mv, plain):
            yield from same_level(A, n, x[b], clamped(A, y, c))


def cases_clamp(tier):
    g = Gen("clamp", f_clamp, tier)
    th = tier == "thorough"
    for be in BE:
        for fn in FUNCS:
            if fn in ("pit", "si_pit", "sdr_neg"):
                continue
            multi = fn in MULTI
            si = fn.startswith("si_")
            for L in [None] if si else [1, 2]:
                T = max(5, 2 * (L or 1) + 4 - (L or 1))
                for c in (10.0, 20.0, 0.0, 7.5) if not th else (10.0, 20.0, 30.0, 60.0, 0.0):
                    g.add(be, 2, 2, T, L, fn=fn, multi=multi, clamp=c, sx=",%s,%g,mid" % (fn, c))
                    g.add(be, 2, 2, T, L, fn=fn, multi=multi, clamp=c, tweak=near(0.0005), sx=",%s,%g,near" % (fn, c))
                # near the references but below the limit
                g.add(be, 2, 2, T, L, fn=fn, multi=multi, clamp=60.0, tweak=near(0.005), sx=",%s,60,near" % fn)
                q = {"ref": lambda i: i[-1] < 4}
                g.add(be, 2, 2, 4 + (L or 1) + 2, L, fn=fn, multi=multi, clamp=10.0, tweak=far(), sparse=q, sx=",%s,10,far" % fn)
                g.add(be, 2, 2, 4 + (L or 1) + 2, L, fn=fn, multi=multi, clamp=100.0, tweak=far(), sparse=q, sx=",%s,100,far" % fn)
                for c in (100.0, 110.0, 200.0):
                    g.add(be, 2, 2, 4 + (L or 1) + 2, L, fn=fn, multi=multi, clamp=c, tweak=far(2, 2.0**19), sparse=q, sx=",%s,%g,farther" % (fn, c))
                g.add(be, 2, 2, T, L, fn=fn, multi=multi, clamp=10.0, zm=True, tweak=near(0.0005), sx=",%s,10,near,zm" % fn)
                if fn not in SAME:
                    g.add(be, 2, 3, T, L, fn=fn, multi=multi, clamp=10.0, sx=",%s,10,mid" % fn)
                    g.add(be, 3, 2, T + 2, L, fn=fn, multi=multi, clamp=10.0, sx=",%s,10,mid" % fn)
            g.add(be, 2, 2, 5, None if si else 2, B=(2,), fn=fn, multi=multi, clamp=20.0, sx=",%s" % fn)
            # perfect estimates and silence
            for c in (20.0, 100.0, 160.0, 200.0, 300.0):
                one = dict(domain=dom_clamp, fn=fn, multi=multi, clamp=c, copy=[(0, 0)])
                g.add(be, 1, 1, 4, None if si else 1, sx=",%s,%g,copy" % (fn, c), **one)
                if not si and c in (20.0, 200.0) and not multi:
                    g.add(be, 1, 1, 3, 2, sx=",%s,%g,copy" % (fn, c), mode="exact", **one)
                if multi or fn in ("sdr", "pairwise", "si_sdr"):
                    g.add(be, 2, 2, 4, None if si else 1, mode="exact" if multi else "atom", sx=",%s,%g,copy" % (fn, c), **one)
                if not multi:
                    z = {"ref": lambda i: i[-1] < 2, "est": lambda i: i[-1] > 1}
                    g.add(be, 1, 1, 4, None if si else 1, sx=",%s,%g,absent" % (fn, c), domain=dom_clamp, fn=fn, multi=multi, clamp=c,
                          sparse=z)
    return g.out


def dom_clamp(w, cfg):
    return dom_inf(dict(w), dict(cfg, bssinf=True))


Prop("C07", "clamp_db limits every metric to [-clamp_db, clamp_db] and leaves the others", cases_clamp,
     "clamp_db 0 to 300 dB, estimates below, inside and above the range, exact copies and absent references; "
     "filter_length 1 and 2, n_ref, n_est <= 3, zero_mean, batches of 2", BASE,
     "The library runs with and without clamp_db on the same symbolic signals; each clamped output equals the unclamped one cut at "
     "+-clamp_db.")
