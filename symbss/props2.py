"""Properties that relate several calls: backends, permutation, options,
invariances."""
import itertools

import numpy as np

from . import algebra as al
from . import core, npsym
from . import oracle as O
from .core import Case, PreconditionFailed, eq, le, true
from .props import BASE, BE, EXACT_REALS, SOLVE, LSA, AUDIBLE, COH, P, Prop, arr, audible, batches, chans, far, lin, near, opts, row, shape_is, shp, tag


class Gen:
    """collects the cases of a property"""

    def __init__(self, name, f, tier, **defaults):
        self.name, self.f, self.tier, self.defaults = name, f, tier, defaults
        self.out = []
        self.seen = set()

    @property
    def th(self):
        return self.tier == "thorough"

    def add(self, be, K, M, T, L=None, B=(), mode="atom", sx="", sparse=None, f=None, extra=None, **kw):
        c = {}
        if L is not None:
            c["L"] = L
        params = dict(self.defaults)
        names = ("assume", "timeout", "weight", "tweak", "domain", "flips", "tol", "runner", "realise", "fixed", "scalars",
                 "witness", "stress", "grid", "z3ms", "free", "tiers")
        for k, v in kw.items():
            if k in names:
                params[k] = v
            else:
                c[k] = v
        for k in list(params):
            if k not in names:
                c.setdefault(k, params.pop(k))
        c["direct"] = mode == "exact"
        lbl = dict(K=K, M=M, T=T)
        if L is not None:
            lbl["L"] = L
        if B:
            lbl["B"] = "x".join(map(str, B))
        if mode != "atom":
            lbl["mode"] = mode
        cid = self.name + "/" + tag(be, **lbl) + sx
        if cid in self.seen:
            return
        self.seen.add(cid)
        shapes = {"ref": shp(K, T, B), "est": shp(M, T, B)}
        shapes.update(extra or {})
        params.setdefault("assume", audible)
        params.setdefault("flips", self.th)
        self.out.append(Case(cid, f or self.f, be, shapes, c, mode=mode,
                             sparse={"ref": sparse, "est": sparse} if sparse is not None and not isinstance(sparse, dict) else sparse,
                             **params))


def only(*names):
    """slice: symbolic entries of these inputs, the others keep the witness"""
    return lambda n, i: n in names


def at(name, k, t):
    """slice: one symbolic sample"""
    return lambda n, i: n == name and i[-2] == k and i[-1] == t


def large(g, be, fn, sx="", sizes=None, frees=None, **kw):
    """larger problems along slices: symbolic estimates (or single samples),
    constant references; systems solved exactly"""
    si, multi = fn.startswith("si_"), fn in MULTI
    sizes = sizes or [(3, 3, 16, 4), (2, 4, 24, 8), (4, 2, 20, 3)]
    for j, (K, M, T, L) in enumerate(sizes):
        if fn in SAME and K != M:
            K = M = max(K, M) - 1
        fr = (frees or [only("est"), at("est", 0, 3), at("ref", 0, 3)])[j % 3]
        g.add(be, K, M, T, None if si else L, mode="exact", fn=fn, multi=multi, free=fr, flips=False, sx=",%s%s,slice%d" % (fn, sx, j), **kw)


def sparse6(T):
    return {0, 1, T // 3, T // 2 + 1, T - 2, T - 1}


def longs(g, be, fn, sx="", sizes=None, **kw):
    """long signals and filters, symbolic at six positions of each channel"""
    si, multi = fn.startswith("si_"), fn in MULTI
    sizes = sizes or ([(2, 2, 1000, 1)] if si else [(2, 2, 150, 40)] if multi else [(1, 1, 520, 300), (2, 2, 300, 100)])
    for K, M, T, L in sizes:
        g.add(be, K, M, T, None if si else L, fn=fn, multi=multi, sparse=sparse6(T), flips=False, sx=",%s%s,long" % (fn, sx), weight=8, timeout=200,
              stress=False, **kw)


def flat(A, x):
    return list(npsym._raw(npsym.sym(x)).ravel()) if A.symbolic else [float(v) for v in np.asarray(x).ravel()]


def same_perm(name, p, q):
    return true(name, np.array_equal(np.asarray(p), np.asarray(q)))


# ----------------------------------------------------------------------------
# C03: the two backends

FUNCS = {
    "bss": ("bss_eval_sources", {}, ("L", "cg", "zm", "clamp", "load")),
    "bss_noperm": ("bss_eval_sources", {"compute_permutation": False}, ("L", "cg", "zm", "clamp", "load")),
    "sdr": ("sdr", {"return_perm": True}, ("L", "cg", "zm", "clamp", "load")),
    "sdr_neg": ("sdr", {"change_sign": True}, ("L", "cg", "zm", "clamp", "load")),
    "loss": ("sdr_loss", {}, ("L", "cg", "zm", "clamp", "load")),
    "pairwise": ("sdr_loss", {"pairwise": True}, ("L", "cg", "zm", "clamp", "load")),
    "pit": ("sdr_pit_loss", {}, ("L", "cg", "zm", "clamp", "load")),
    "si_bss": ("si_bss_eval_sources", {}, ("zm", "clamp", "load")),
    "si_bss_noperm": ("si_bss_eval_sources", {"compute_permutation": False}, ("zm", "clamp", "load")),
    "si_sdr": ("si_sdr", {"return_perm": True}, ("zm", "clamp")),
    "si_loss": ("si_sdr_loss", {}, ("zm", "clamp")),
    "si_pairwise": ("si_sdr_loss", {"pairwise": True}, ("zm", "clamp")),
    "si_pit": ("si_sdr_pit_loss", {}, ("zm", "clamp")),
}
MULTI = {k for k in FUNCS if "bss" in k}
EST_FIRST = {"loss", "pairwise", "pit", "si_loss", "si_pairwise", "si_pit"}
SAME = {"bss_noperm", "loss", "si_bss_noperm", "si_loss"}


def invoke(A, which, ref, est, cfg, backend=None, layout=None, **over):
    """tuple of results of one entry of FUNCS"""
    fn, kw, names = FUNCS[which]
    kw = dict(kw)
    m = {"L": "filter_length", "zm": "zero_mean", "clamp": "clamp_db", "load": "load_diag", "cg": "use_cg_iter"}
    for n in names:
        if cfg.get(n) is not None:
            kw[m[n]] = cfg[n]
    kw.update(over)
    a = (est, ref) if which in EST_FIRST else (ref, est)
    out = A.call(fn, *a, backend=backend, layout=layout, **kw)
    return out if isinstance(out, tuple) else (out,)


def metric_parts(which, out):
    """(list of (name, metric array), permutation or None)"""
    if which in ("bss", "si_bss"):
        return [("sdr", out[0]), ("sir", out[1]), ("sar", out[2])], out[3]
    if which in ("bss_noperm", "si_bss_noperm"):
        return [("sdr", out[0]), ("sir", out[1]), ("sar", out[2])], None
    if which in ("sdr", "si_sdr"):
        return [("sdr", out[0])], out[1]
    return [("loss", out[0])], None


PERMUTED = {"bss", "sdr", "sdr_neg", "pit", "si_bss", "si_sdr", "si_pit"}


def approx(a, b):
    a = npsym.tofloat(npsym.sym(a)) if not isinstance(a, np.ndarray) or a.dtype == object or isinstance(a, npsym.SymArray) else a
    b = npsym.tofloat(npsym.sym(b)) if not isinstance(b, np.ndarray) or b.dtype == object or isinstance(b, npsym.SymArray) else b
    a, b = np.real(np.asarray(a, dtype=complex)), np.real(np.asarray(b, dtype=complex))
    with np.errstate(all="ignore"):
        return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= 1e-6 * (1 + np.abs(a)))))


def total(A, v):
    if isinstance(v, npsym.SymArray):
        return npsym.wrap(np.array([al.fsum(list(npsym._raw(v).ravel()))], dtype=object))
    return np.array([np.sum(v)])


def gathered(which, mu, pu, mv, pv, label=""):
    """results of an optimal assignment for one batch entry: equal, unless the
    assignment is not unique, in which case the optimised totals are equal"""
    tie = False
    if which in PERMUTED:
        if pu is not None:
            tie = not np.array_equal(np.asarray(pu), np.asarray(pv))
        else:
            tie = not approx(mu[0][1], mv[0][1]) and approx(total(None, mu[0][1]), total(None, mv[0][1]))
    if tie:
        j = 1 if len(mu) == 3 else 0
        yield eq(label + "total " + mu[j][0], total(None, mu[j][1]), total(None, mv[j][1]))
        return
    for (n, a), (_, b) in zip(mu, mv):
        yield eq(label + n, a, b)


def same_results(which, u, v, label=""):
    mu, pu = metric_parts(which, u)
    mv, pv = metric_parts(which, v)
    ok = len(u) == len(v) and all(np.shape(a) == np.shape(b) for (_, a), (_, b) in zip(mu, mv))
    yield true(label + "shapes", ok)
    if not ok:
        return
    if which not in PERMUTED:
        for (n, a), (_, b) in zip(mu, mv):
            yield eq(label + n, a, b)
        return
    bs = np.shape(mu[0][1])[:-1]
    for b in np.ndindex(bs):
        yield from gathered(which, [(n, a[b]) for n, a in mu], None if pu is None else np.asarray(pu)[b],
                            [(n, a[b]) for n, a in mv], None if pv is None else np.asarray(pv)[b], label + (str(list(b)) if bs else ""))


def f_agree(A, X, cfg):
    a = invoke(A, cfg["fn"], X["ref"], X["est"], cfg, backend="numpy")
    b = invoke(A, cfg["fn"], X["ref"], X["est"], cfg, backend="torch")
    yield from same_results(cfg["fn"], a, b)


def cases_agree(tier):
    g = Gen("agree", f_agree, tier)
    for fn in FUNCS:
        multi = fn in MULTI
        si = fn.startswith("si_")

        def size(K, M, L):
            """smallest number of samples that is not degenerate"""
            return max(3, K * L + 2 - L + 1, L + 1) if multi else 4

        KM = [(2, 2), (3, 3)] if fn in SAME else [(2, 2), (2, 3), (3, 2)]
        opt = [{}, {"zm": True}, {"clamp": 10.0}, {"zm": True, "clamp": 20.0}]
        if not si:
            opt += [{"load": 0.125}, {"load": 0.5, "zm": True, "clamp": 30.0}]
        elif "load" in FUNCS[fn][2]:
            opt += [{"load": 0.125}]
        for j, o in enumerate(opt):
            sx = "," + fn + "".join(",%s=%s" % kv for kv in sorted(o.items()))
            for i, (K, M) in enumerate(KM):
                Ls = [None] if si else [1, 2, 3]
                for L in Ls:
                    if not g.th and L == 3 and (K, M) != (2, 2):
                        continue
                    if not g.th and (i + j + (L or 0)) % 3 and not (i == 0 and L in (None, 2) and j < 2):
                        continue
                    T = size(K, M, L or 1) + (1 if o.get("zm") else 0)
                    g.add("both", K, M, T, L, fn=fn, multi=multi, sx=sx, **o)
            K, M = KM[-1]
            if j < 2 or g.th:
                g.add("both", 2, 2, size(2, 2, 1) + 1, None if si else 1, B=(2,), fn=fn, multi=multi, sx=sx, **o)
        for o in ({}, {"clamp": 100.0}):
            sx = "," + fn + "".join(",%s=%s" % kv for kv in sorted(o.items()))
            for L in [None] if si else [1, 2]:
                q = {"ref": lambda i: i[-1] < 5}
                g.add("both", 2, 2, 7 + (L or 1), L, fn=fn, multi=multi, tweak=far(2, 2.0**19), sparse=q, sx=sx + ",far", **o)
                if L != 1:
                    g.add("both", 2, 2, 4 + (L or 1), L, fn=fn, multi=multi, tweak=near(2.0**-14), sx=sx + ",near", **o)
        large(g, "both", fn)
        large(g, "both", fn, sx=",zm,clamp", sizes=[(3, 2, 17, 3), (2, 3, 10, 2)], frees=[at("est", 1, 2), at("ref", 1, 2)], zm=True, clamp=10.0)
        large(g, "both", fn, sx=",batch", sizes=[(2, 3, 12, 3)], frees=[at("est", 0, 2)], B=(2, 1, 2))
        longs(g, "both", fn)
        if "load" in FUNCS[fn][2] and not si:
            longs(g, "both", fn, sx=",load", load=0.01, sizes=[(2, 2, 150, 40)])
            large(g, "both", fn, sx=",load", sizes=[(3, 4, 16, 4)], frees=[at("est", 2, 2)], load=0.01)
        if not si:
            g.add("both", 2, 2, 9, 4, fn=fn, multi=multi, sx="," + fn)
            g.add("both", 2, 2, 5, 2, B=(2, 1), fn=fn, multi=multi, sx="," + fn)
            g.add("both", 1, 1, 3, 5, fn=fn, multi=multi, sx="," + fn)
            if g.th:
                for T in range(5, 14):
                    g.add("both", 2, 2, T, 2, fn=fn, multi=multi, sx="," + fn)
                g.add("both", 3, 3, 12, 3, fn=fn, multi=multi, sx="," + fn)
                g.add("both", 4, 4, 8, 1, fn=fn, multi=multi, sx="," + fn)
        else:
            g.add("both", 4, 4, 6, None, fn=fn, multi=multi, sx="," + fn)
            g.add("both", 2, 2, 4, None, B=(2, 2), fn=fn, multi=multi, sx="," + fn)
    return g.out


Prop("C03", "NumPy and PyTorch backends return the same metrics and permutation", cases_agree,
     "all 8 public functions (13 calling modes) and zero_mean / clamp_db / load_diag options; n_ref, n_est <= 4, n_samples <= 13, "
     "filter_length <= 5, batches up to 2x2; all samples symbolic reals; conjugate gradient agreement is part of C15", BASE,
     "Both backends run on the same symbolic signals; z3 shows each pair of outputs equal for all sample values on the path.")


# ----------------------------------------------------------------------------
# C08: scale, C09: order and batches


def gains(g, name):
    for n, shp_ in (("gr", None), ("ge", None)):
        pass


def assume_gain(X, cfg):
    out = []
    ref, est = npsym._raw(X["ref"]), npsym._raw(X["est"])
    for n, x, gn in (("ref", ref, "gr"), ("est", est, "ge")):
        g = npsym._raw(X[gn])
        for i in np.ndindex(x.shape[:-1]):
            v = list(x[i])
            if cfg.get("zm"):
                m = al.mul(al.fsum(v), al.lift(1.0 / len(v)))
                v = [al.sub(y, m) for y in v]
            e = al.fsum([al.mul(y, y) for y in v])
            out.append(("ge", al.sub(e, al.lift(4e-12))))
            out.append(("ge", al.sub(al.mul(e, al.mul(g[i], g[i])), al.lift(4e-12))))
    return out


def dom_gain(w, cfg):
    if not core.default_domain({"ref": w["ref"], "est": w["est"]}, cfg):
        return False
    return core.default_domain({"ref": w["ref"] * w["gr"][..., None], "est": w["est"] * w["ge"][..., None]}, cfg)


def f_scale(A, X, cfg):
    ref, est = X["ref"], X["est"]
    a = invoke(A, cfg["fn"], ref, est, cfg)
    b = invoke(A, cfg["fn"], ref * X["gr"][..., None], est * X["ge"][..., None], cfg)
    yield from same_results(cfg["fn"], a, b)


def cases_scale(tier):
    g = Gen("scale", f_scale, tier, assume=assume_gain, domain=dom_gain)
    for be in BE:
        for fn in FUNCS:
            multi = fn in MULTI
            si = fn.startswith("si_")
            KM = [(2, 2)] if fn in SAME else [(2, 2), (2, 3)] if not g.th else [(2, 2), (2, 3), (3, 2)]
            for K, M in KM:
                for L in ([None] if si else [1, 2] if not g.th else [1, 2, 3]):
                    T = max(4, K * (L or 1) + 3 - (L or 1)) if multi else 4
                    for o in ({}, {"zm": True}) if g.th or K == M else ({},):
                        g.add(be, K, M, T + bool(o), L, fn=fn, multi=multi, extra={"gr": (K,), "ge": (M,)},
                              sx="," + fn + "".join(",%s" % k for k in o), **o)
            for K, M, T, L in ((3, 3, 12, 3), (2, 4, 20, 5)):
                if fn in SAME:
                    M = K
                for o in ({}, {"zm": True, "clamp": 20.0}):
                    g.add(be, K, M, T, None if si else L, fn=fn, multi=multi, extra={"gr": (K,), "ge": (M,)}, mode="exact", flips=False,
                          free=lambda n, i, K=K: n in ("gr", "ge") and i[-1] in (0, K - 1), sx="," + fn + ",gains" + "".join("," + k for k in o), **o)
            z = 1000 if si else 100 if multi else 150
            g.add(be, 2, 2, z, None if si else 20 if multi else 40, fn=fn, multi=multi, extra={"gr": (2,), "ge": (2,)}, sparse=dict.fromkeys(("ref", "est"), sparse6(z)),
                  flips=False, stress=False, weight=8, sx="," + fn + ",long")
            g.add(be, 2, 2, 8, None if si else 2, B=(2, 2), fn=fn, multi=multi, extra={"gr": (2, 2, 2), "ge": (2, 2, 2)}, mode="exact",
                  flips=False, free=lambda n, i: n in ("gr", "ge") and i[-1] == 1 and i[:2] == (0, 1), sx="," + fn + ",gains")
            if not si:
                g.add(be, 2, 2, 6, 2, fn=fn, multi=multi, extra={"gr": (2,), "ge": (2,)}, load=0.25, sx="," + fn + ",load")
                g.add(be, 2, 2, 5, 2, B=(2,), fn=fn, multi=multi, extra={"gr": (2, 2), "ge": (2, 2)}, sx="," + fn)
    return g.out


Prop("C08", "Metrics do not depend on the scale or polarity of any channel", cases_scale,
     "all calling modes; one independent symbolic gain (either sign) per reference and estimate channel; n_ref, n_est <= 3, "
     "n_samples <= 7, filter_length <= 3, batches of 2", BASE,
     "The library runs on the signals and on the rescaled signals; outputs are shown equal for all samples and gains.")


def f_order(A, X, cfg):
    ref, est = X["ref"], X["est"]
    K, M = chans(ref), chans(est)
    pr, pe = list(cfg["pr"]), list(cfg["pe"])
    a = invoke(A, cfg["fn"], ref, est, cfg)
    b = invoke(A, cfg["fn"], ref[..., pr, :], est[..., pe, :], cfg)
    ma, pa = metric_parts(cfg["fn"], a)
    mb, pb = metric_parts(cfg["fn"], b)
    if cfg["fn"].endswith("pairwise"):
        yield eq("pairwise", ma[0][1][..., pr, :][..., pe], mb[0][1])
        return
    # outputs follow the references (n_ref <= n_est) or the estimates
    o = pr if K <= M else pe
    ok = all(np.shape(u) == np.shape(v) for (_, u), (_, v) in zip(ma, mb))
    yield true("shapes", ok)
    if not ok:
        return
    inner = np.array(pe if K <= M else pr)
    for b in np.ndindex(np.shape(ma[0][1])[:-1]):
        yield from gathered(cfg["fn"], [(n, u[b][o]) for n, u in ma], None if pa is None else np.asarray(pa)[b][o],
                            [(n, v[b]) for n, v in mb], None if pb is None else inner[np.asarray(pb)[b]], str(list(b)))


def cases_order(tier):
    g = Gen("order", f_order, tier)
    for be in BE:
        for fn in FUNCS:
            multi = fn in MULTI
            si = fn.startswith("si_")
            for j, (K, M, T, L, pr, pe) in enumerate(((3, 3, 12, 3, (2, 0, 1), (2, 0, 1)), (3, 4, 20, 4, (1, 2, 0), (3, 0, 2, 1)),
                                                      (4, 3, 17, 2, (3, 1, 0, 2), (1, 2, 0)), (2, 2, 9, 2, (1, 0), (1, 0)))):
                if fn in SAME and K != M:
                    continue
                B = (2,) if j == 3 else ()
                g.add(be, K, M, T, None if si else L, B=B, mode="exact", fn=fn, multi=multi, pr=pr, pe=pe, flips=False,
                      free=(only("est"), at("est", 1, 2), at("ref" if not multi else "est", 1, 2), at("est", 0, 4))[j], sx=",%s,slice%d" % (fn, j),
                      **({"zm": True} if j == 1 else {"clamp": 20.0} if j == 2 else {}))
            if multi:
                # permuted unknowns: solved exactly
                for K, M in [(2, 2)] if fn in SAME else [(2, 2), (2, 3), (2, 1)]:
                    pe = tuple(reversed(range(M)))
                    if fn in SAME:
                        pe = (1, 0)
                    g.add(be, K, M, 3, None if si else 1, mode="exact", fn=fn, multi=True, pr=(1, 0), pe=pe, sx="," + fn, timeout=200,
                          weight=3)
                if g.th:
                    g.add(be, 2, 2, 4, None if si else 1, mode="exact", fn=fn, multi=True, pr=(1, 0), pe=(1, 0), sx="," + fn,
                          timeout=400, weight=9)
                    g.add(be, 2, 2, 3, None if si else 1, B=(2,), mode="exact", fn=fn, multi=True, pr=(1, 0), pe=(1, 0),
                          sx="," + fn, timeout=400, weight=9)
                continue
            perms = [(2, 2, (1, 0), (1, 0)), (3, 3, (1, 2, 0), (1, 2, 0))]
            if fn not in SAME:
                perms += [(2, 3, (1, 0), (2, 0, 1)), (3, 2, (2, 0, 1), (1, 0)), (2, 2, (0, 1), (1, 0)), (3, 3, (2, 0, 1), (1, 0, 2))]
            if g.th and fn not in SAME:
                perms += [(3, 3, p, q) for p in itertools.permutations(range(3)) for q in itertools.permutations(range(3))]
                perms += [(2, 5, (1, 0), (3, 1, 4, 0, 2)), (4, 4, (3, 1, 0, 2), (1, 3, 2, 0))]
            for K, M, pr, pe in perms:
                for L in ([None] if si else [1, 2]):
                    g.add(be, K, M, 4, L, fn=fn, multi=False, pr=pr, pe=pe,
                          sx=",%s,%s,%s" % (fn, "".join(map(str, pr)), "".join(map(str, pe))))
            K, M, pr, pe = perms[-1] if not g.th else perms[1]
            g.add(be, K, M, 4, None if si else 2, B=(2,), fn=fn, multi=False, pr=pr, pe=pe, sx=",%s" % fn)
    return g.out


Prop("C09", "Reordering the channels only reorders the results", cases_order,
     "all calling modes, n_ref, n_est <= 3 (5 thorough), n_samples <= 4, filter_length <= 2, every permutation of three channels in "
     "the thorough tier; bss_eval functions: two references, three samples, exact elimination", BASE,
     "The library runs on the original and on reordered channels; outputs and permutations are compared entry by entry.")


def f_batch(A, X, cfg):
    ref, est = X["ref"], X["est"]
    bs = ref.shape[:-2]
    a = invoke(A, cfg["fn"], ref, est, cfg)
    ma, pa = metric_parts(cfg["fn"], a)
    for b in np.ndindex(bs):
        s = invoke(A, cfg["fn"], ref[b], est[b], cfg)
        ms, ps = metric_parts(cfg["fn"], s)
        ok = all(np.shape(u) == bs + np.shape(v) for (_, u), (_, v) in zip(ma, ms)) and len(a) == len(s)
        yield true("shapes%s" % list(b), ok)
        if not ok:
            return
        yield from gathered(cfg["fn"], [(n, u[b]) for n, u in ma], None if pa is None else np.asarray(pa)[b], ms, ps, str(list(b)))


def mixed_batch(K, M, T, B):
    """entries of very different character: a loud narrow-band one, a quiet
    broad-band one, an ordinary one"""

    def f(rng):
        w = {"ref": np.zeros(B + (K, T)), "est": np.zeros(B + (M, T))}
        for i, b in enumerate(np.ndindex(B)):
            for n, C in (("ref", K), ("est", M)):
                for c in range(C):
                    for t in range(T):
                        z = rng.choice([-3, -2, -1, 1, 2, 3]) / 4.0
                        if i % 3 == 0:
                            v = (16 + z) * (1 if c == 0 else (-1) ** (t * c)) + (8 * z if n == "est" or c > 1 else 0)
                        elif i % 3 == 1:
                            v = (z / 16 + (t == c % T) - (t == (c + 1) % T)) / 16
                        else:
                            v = z
                        w[n][b + (c, t)] = v
        return w

    return f


def fast_entry(K, M, T, B, q):
    """the references of entry q are impulses: the iterations converge in one step"""

    def f(rng):
        w = {n: np.array([[[rng.choice([-3, -2, -1, 1, 2, 3]) / 2.0 for _ in range(T)] for _ in range(C)] for _ in range(B)])
             for n, C in (("ref", K), ("est", M))}
        w["ref"][q] = 0.0
        for k in range(K):
            w["ref"][q, k, 4 * k] = 1.0
        return w

    return f


def cases_batch(tier):
    g = Gen("batch", f_batch, tier)
    for be in BE:
        for fn in FUNCS:
            multi = fn in MULTI
            si = fn.startswith("si_")
            for B in ((2,), (3,), (1, 2), (2, 2)) if not g.th else ((2,), (3,), (4,), (1, 2), (2, 2), (3, 2), (1, 2, 2), (2, 1, 1, 2)):
                for K, M in [(2, 2)] if fn in SAME else [(2, 2), (2, 3), (3, 2)]:
                    if not g.th and B != (2,) and (K, M) != (2, 2) and not (B == (1, 2) and not multi):
                        continue
                    L = None if si else (1 if len(B) > 1 and multi else 2)
                    T = max(4, K * (L or 1) + 3 - (L or 1)) if multi else 4
                    for o in ({}, {"zm": True, "clamp": 10.0}) if B == (2,) and (g.th or K == M and not (multi and L == 3)) else ({},):
                        g.add(be, K, M, T + len(o) // 2, L, B=B, fn=fn, multi=multi, sx="," + fn + "".join("," + k for k in o), **o)
            for j, (B, K, M, T, L) in enumerate((((3,), 2, 3, 12, 3), ((2, 1, 2), 3, 2, 13, 3), ((2, 2), 3, 3, 14, 2), ((1, 1), 2, 2, 8, 2))):
                if fn in SAME:
                    M = K
                g.add(be, K, M, T, None if si else L, B=B, mode="exact", fn=fn, multi=multi, flips=False, sx=",%s,slice%d" % (fn, j),
                      free=lambda n, i, B=B, j=j: n == ("ref" if j == 2 else "est") and all(x == y - 1 for x, y in zip(i, B)) and i[-2] == 0 and i[-1] < (4 if j != 2 else 1),
                      **({"zm": True} if j == 1 else {"clamp": 20.0} if j == 2 else {}))
            if not si:
                g.add(be, 2, 2, 5, 2, B=(2,), fn=fn, multi=multi, sx="," + fn + ",load", load=0.25)
                if not multi:
                    g.add(be, 1, 1, 2, 2, B=(2,), fn=fn, multi=multi, sx="," + fn + ",cg", cg=1)
                    for L in (2, 3, 4) if g.th else (4,) if fn in ("sdr", "pairwise") else (2,):
                        T = 4 if L == 2 else 6
                        g.add(be, 1, 1, T, L, B=(2,), fn=fn, multi=multi, sx="," + fn + ",cg,mixed", cg=1, witness=mixed_batch(1, 1, T, (2,)),
                              free=None if L == 2 else lambda n, i: i[-1] == 1)
            longs(g, be, fn, B=(2,), sizes=[(2, 2, 500, 1)] if si else [(2, 2, 100, 20)] if multi else [(1, 2 - (fn in SAME), 200, 100)])
            if not si:
                # one entry converges at once, the other does not
                for q in (0, 1):
                    L, n, K = (3, 2, 1) if not multi else (2, 2, 2)
                    T = 6 if not multi else 9
                    for M in (K,) if fn in SAME or multi and not g.th else (K, K + 1):
                        g.add(be, K, M, T, L, B=(2,), fn=fn, multi=multi, sx=",%s,cg,fast%d" % (fn, q), cg=n, witness=fast_entry(K, M, T, 2, q),
                              free=lambda nm, i, q=q: nm == "est" and i[0] != q and i[-1] == 3 and i[-2] == 0, mode="exact")
            for K, M in [(2, 2)] if fn in SAME else [(2, 2), (2, 3)]:
                L = None if si else 2
                T = max(4, K * (L or 1) + 3 - (L or 1)) if multi else 4
                g.add(be, K, M, T, L, B=(2,), fn=fn, multi=multi, sx="," + fn + ",mixed", witness=mixed_batch(K, M, T, (2,)))
    return g.out


Prop("C10", "Each batch entry is evaluated on its own", cases_batch,
     "all calling modes, batch shapes up to 2x2 (2x1x1x2 thorough), n_ref, n_est <= 3, n_samples <= 5, filter_length <= 2, options "
     "zero_mean, clamp_db, load_diag and one conjugate gradient iteration", BASE,
     "The library runs on the batch and on each entry separately; every entry of the batched outputs equals the separate result.")


# ----------------------------------------------------------------------------
# C11: scale invariant functions


def f_si(A, X, cfg):
    ref, est = X["ref"], X["est"]
    fn = cfg["fn"]
    a = invoke(A, fn, ref, est, cfg)
    b = invoke(A, fn[3:], ref, est, dict(cfg, L=1))
    yield from same_results(fn, a, b, "filter_length=1: ")
    if cfg.get("load") is not None or cfg.get("clamp") is not None or fn in MULTI:
        return
    # the classical definition: |a s|^2 / |e - a s|^2 with a = <e, s> / <s, s>
    out, perm = metric_parts(fn, a)
    out = out[0][1]
    sign = -1 if fn in EST_FIRST else 1
    K, M = chans(ref), chans(est)
    exp = []
    for b_ in batches(ref):
        R = [O.center(A, ref[b_][k]) if cfg.get("zm") else ref[b_][k] for k in range(K)]
        E = [O.center(A, est[b_][m]) if cfg.get("zm") else est[b_][m] for m in range(M)]

        def val(k, m):
            al_ = O.quot(A, O.corr(A, R[k], E[m], 0), O.corr(A, R[k], R[k], 0))
            tgt = [al_ * v for v in O._l(R[k])]
            num = O._sum(A, [v * v for v in tgt])
            den = O._sum(A, [(u - v) * (u - v) for u, v in zip(O._l(E[m]), tgt)])
            d = O.db(A, O.quot(A, num, den))
            return d if sign > 0 else -d

        if fn == "si_pairwise":
            exp.append([val(k, m) for k in range(K) for m in range(M)])
        else:
            if perm is None and fn == "si_loss":
                pr = [(k, k) for k in range(K)]
            elif perm is None:
                p = invoke(A, "si_sdr", ref, est, cfg)[1]
                pr = O.pairs(np.asarray(p)[b_], K, M)
            else:
                pr = O.pairs(np.asarray(perm)[b_], K, M)
            exp.append([val(k, m) for k, m in pr])
    e = arr(A, row(exp, ref.shape[:-2]))
    if fn == "si_pairwise":
        e = e.reshape(ref.shape[:-2] + (K, M))
    yield eq("si-sdr", out, e)


def cases_si(tier):
    g = Gen("si", f_si, tier)
    for be in BE:
        for fn in FUNCS:
            if not fn.startswith("si_"):
                continue
            multi = fn in MULTI
            for K, M in [(1, 1), (2, 2), (3, 3)] if fn in SAME else [(1, 1), (2, 2), (2, 3), (3, 2), (4, 4)]:
                for T in (3, 5) if not g.th else (2, 3, 4, 5, 6, 9):
                    if multi and T <= K:
                        continue
                    if K == 1 and M == 1 and multi and T < 3:
                        continue
                    g.add(be, K, M, T, fn=fn, multi=multi, sx="," + fn)
                    g.add(be, K, M, T + 1, fn=fn, multi=multi, zm=True, sx="," + fn + ",zm")
            large(g, be, fn, sizes=[(3, 3, 16, 1), (2, 5, 40, 1), (5, 3, 33, 1)])
            longs(g, be, fn)
            large(g, be, fn, sx=",zm", sizes=[(3, 3, 16, 1), (2, 5, 40, 1), (5, 3, 33, 1)], zm=True)
            large(g, be, fn, sx=",batch", sizes=[(2, 3, 12, 1)], B=(2, 1, 2))
            g.add(be, 2, 2, 4, fn=fn, multi=multi, clamp=10.0, sx="," + fn + ",clamp")
            g.add(be, 2, 2, 4, fn=fn, multi=multi, clamp=20.0, tweak=near(0.01), sx="," + fn + ",clamp,near")
            g.add(be, 2, 2, 4, fn=fn, multi=multi, tweak=near(2.0**-14), sx="," + fn + ",near")
            for o in ({}, {"clamp": 100.0}):
                g.add(be, 2, 2, 7, fn=fn, multi=multi, tweak=far(2, 2.0**19), sparse={"ref": lambda i: i[-1] < 5},
                      sx="," + fn + "".join("," + k for k in o) + ",far", **o)
            g.add(be, 2, 2, 4, fn=fn, multi=multi, B=(2,), sx="," + fn)
            if multi:
                g.add(be, 2, 2, 4, fn=fn, multi=multi, load=0.5, sx="," + fn + ",load")
    return g.out


Prop("C11", "The si_ functions are the scale-invariant (one tap) metrics", cases_si,
     "all si_ functions, n_ref, n_est <= 4, n_samples <= 6 (10 thorough), zero_mean, clamp_db, load_diag, batches of 2", BASE,
     "si_ functions run symbolically and are compared with filter_length=1 of the general functions and with the textbook SI-SDR "
     "|a s|^2/|e - a s|^2.")


# ----------------------------------------------------------------------------
# C12: zero_mean


def dom_zm(w, cfg):
    c = dict(cfg, zm=True)
    return core.default_domain({"ref": w["ref"], "est": w["est"]}, c)


def f_zm(A, X, cfg):
    ref, est = X["ref"], X["est"]
    fn = cfg["fn"]
    c = dict(cfg)
    c["zm"] = True
    a = invoke(A, fn, ref, est, c)
    c0 = dict(cfg)
    c0["zm"] = False
    b = invoke(A, fn, O.center(A, ref), O.center(A, est), c0)
    yield from same_results(fn, a, b, "centered: ")
    # offsets are irrelevant
    d = invoke(A, fn, ref + X["dr"][..., None], est + X["de"][..., None], c)
    yield from same_results(fn, a, d, "offset: ")


def assume_zm(X, cfg):
    return audible(X, dict(cfg, zm=True))


def cases_zm(tier):
    g = Gen("zm", f_zm, tier, domain=dom_zm, assume=assume_zm)
    for be in BE:
        for fn in FUNCS:
            multi = fn in MULTI
            si = fn.startswith("si_")
            for K, M in [(2, 2)] if fn in SAME else [(2, 2), (2, 3)] if not g.th else [(2, 2), (2, 3), (3, 2)]:
                for L in [None] if si else ([1, 2] if not g.th else [1, 2, 3]):
                    T = max(4, K * (L or 1) + 4 - (L or 1)) if multi else 4
                    g.add(be, K, M, T, L, fn=fn, multi=multi, extra={"dr": (K,), "de": (M,)}, sx="," + fn)
            for j, (K, M, T, L, B) in enumerate(((3, 3, 16, 3, ()), (2, 4, 24, 5, ()), (3, 2, 12, 2, (2,)), (2, 2, 9, 2, (2, 1, 2)))):
                if fn in SAME:
                    M = K
                g.add(be, K, M, T, None if si else L, B=B, mode="exact", fn=fn, multi=multi, flips=False,
                      extra={"dr": B + (K,), "de": B + (M,)}, free=lambda n, i: n in ("dr", "de") or n == "est" and i[-2:] == (0, 3),
                      sx=",%s,slice%d" % (fn, j), **({"clamp": 20.0} if j == 2 else {}))
            if not multi or si or g.th:
                g.add(be, 2, 2, 4, None if si else 2, B=(2,), fn=fn, multi=multi, extra={"dr": (2, 2), "de": (2, 2)}, sx="," + fn)
            if not si:
                g.add(be, 2, 2, 5, 2, fn=fn, multi=multi, extra={"dr": (2,), "de": (2,)}, load=0.25, sx="," + fn + ",load")
                if not multi:
                    g.add(be, 1, 1, 3, 2, fn=fn, multi=multi, extra={"dr": (1,), "de": (1,)}, cg=1, sx="," + fn + ",cg")
            g.add(be, 2, 2, 5, None if si else 2, fn=fn, multi=multi, extra={"dr": (2,), "de": (2,)}, clamp=10.0, sx="," + fn + ",clamp")
    return g.out


Prop("C12", "zero_mean removes the mean of every channel and nothing else", cases_zm,
     "all calling modes, n_ref, n_est <= 3, n_samples <= 7, filter_length <= 3, one symbolic offset per channel, batches of 2", BASE,
     "zero_mean=True is compared with zero_mean=False on centered signals, and with zero_mean=True on signals shifted by arbitrary "
     "symbolic offsets.")


# ----------------------------------------------------------------------------
# C13: load_diag


def f_load(A, X, cfg):
    ref, est = X["ref"], X["est"]
    fn = cfg["fn"]
    L = cfg.get("L") or 1
    K, M = chans(ref), chans(est)
    lv = cfg["load"]
    lc = al.lift(al.snap(lv)) if A.symbolic else lv
    out, perm = metric_parts(fn, invoke(A, fn, ref, est, cfg))
    sign = -1 if fn in EST_FIRST or fn == "sdr_neg" else 1
    exp = [[] for _ in out]
    for b in batches(ref):
        R = [O.center(A, ref[b][k]) if cfg.get("zm") else ref[b][k] for k in range(K)]
        E = [O.center(A, est[b][m]) if cfg.get("zm") else est[b][m] for m in range(M)]

        def val(k, m):
            if len(out) == 3:
                r = O.bss_ratios(A, R, k, E[m], L, load=lc)
                return [O.db(A, O.clampr(A, x, cfg.get("clamp"))) for x in r]
            d = O.db(A, O.clampr(A, O.sdr_ratio(A, R[k], E[m], L, load=lc), cfg.get("clamp")))
            return [d if sign > 0 else -d]

        if fn.endswith("pairwise"):
            vals = [val(k, m) for k in range(K) for m in range(M)]
        elif fn in SAME:
            vals = [val(k, k) for k in range(K)]
        else:
            p = perm
            if p is None:
                p = invoke(A, "sdr", ref, est, cfg)[1]
            vals = [val(k, m) for k, m in O.pairs(np.asarray(p)[b], K, M)]
        for j in range(len(out)):
            exp[j].append([v[j] for v in vals])
    for j, (n, o) in enumerate(out):
        e = arr(A, row(exp[j], ref.shape[:-2]))
        if fn.endswith("pairwise"):
            e = e.reshape(ref.shape[:-2] + (K, M))
        yield eq(n, o, e)


def f_load_sar(A, X, cfg):
    """filter_length=1: only the SAR (the SDR is a recorded finding)"""
    for o in f_load(A, X, cfg):
        if o.kind != "eq" or o.name == "sar":
            yield o


def cases_load(tier):
    g = Gen("load", f_load, tier)
    for be in BE:
        for fn in FUNCS:
            if "load" not in FUNCS[fn][2]:
                continue
            multi = fn in MULTI
            si = fn.startswith("si_")
            if si:
                g.add(be, 2, 2, 4, fn=fn, multi=multi, load=0.25, sx="," + fn + ",sar", f=f_load_sar)
                continue
            for ld in (0.125, 1e-3, 2.0) if not g.th else (0.125, 1e-6, 1e-3, 0.01, 0.5, 2.0):
                for K, M in [(1, 1), (2, 2)] if fn in SAME else [(1, 1), (2, 2), (2, 3), (3, 2)]:
                    for L in (2, 3):
                        if not g.th and ((K, M) not in ((2, 2), (1, 1)) and ld != 0.125 or (L == 3 and (K, M) != (2, 2))):
                            continue
                        T = max(4, K * L + 3 - L) if multi else 4
                        g.add(be, K, M, T, L, fn=fn, multi=multi, load=ld, sx=",%s,%g" % (fn, ld))
            for j, ld in enumerate((0.125, 1e-3, 2.0)):
                large(g, be, fn, sx=",%g" % ld, load=ld, sizes=[((3, 3, 16, 4), (2, 4, 24, 8), (4, 2, 20, 3))[j]], frees=[(only("est"), at("est", 0, 3), at("ref", 0, 3))[j]])
            large(g, be, fn, sx=",batch", sizes=[(2, 3, 12, 3)], frees=[at("est", 0, 2)], B=(2, 1, 2), load=0.01)
            longs(g, be, fn, load=0.01, sizes=[(2, 2, 150, 40)])
            if not multi:
                longs(g, be, fn, load=0.01, sizes=[(1, 1, 520, 300)])
            large(g, be, fn, sx=",short", sizes=[(2, 2, 3, 4)], frees=[at("est", 0, 2)], load=0.01)
            g.add(be, 2, 2, 6, 2, fn=fn, multi=multi, load=0.25, zm=True, sx="," + fn + ",zm")
            g.add(be, 2, 2, 5, 2, fn=fn, multi=multi, load=0.25, clamp=10.0, sx="," + fn + ",clamp")
            g.add(be, 2, 2, 5, 2, B=(2,), fn=fn, multi=multi, load=0.25, sx="," + fn)
            if multi:
                g.add(be, 2, 2, 4, 1, fn=fn, multi=multi, load=0.25, sx="," + fn + ",sar", f=f_load_sar)
        # recorded finding: one tap, the loading is not applied to the SDR
        g.add(be, 1, 1, 3, 1, fn="sdr", multi=False, load=0.25, sx=",one_tap")
    return g.out


Prop("C13", "load_diag regularises every filter system by the given amount", cases_load,
     "sdr, sdr_loss (plain, pairwise), sdr_pit_loss, bss_eval_sources; loads 1e-6 .. 2; n_ref, n_est <= 3, n_samples <= 9, "
     "filter_length 2 and 3 (1 for the SAR), zero_mean, clamp_db, batches of 2", BASE,
     "The outputs are compared with the projections computed from the Gram matrix whose diagonal is raised by load_diag times the "
     "energy of each reference (the library normalises the references first).")


# ----------------------------------------------------------------------------
# C14: calling conventions


def f_conv(A, X, cfg):
    ref, est = X["ref"], X["est"]
    K, M = chans(ref), chans(est)
    n = min(K, M)
    bs = ref.shape[:-2]
    pre = "si_" if cfg.get("si") else ""
    c = cfg
    D = invoke(A, pre + "pairwise", ref, est, c)[0]
    yield shape_is("pairwise", D, bs + (K, M))
    s, p = invoke(A, pre + "sdr", ref, est, c)
    yield shape_is("sdr", s, bs + (n,))
    yield shape_is("perm", p, bs + (n,))
    yield true("integer permutation", np.asarray(p).dtype.kind in "iu")
    s1 = invoke(A, pre + "sdr", ref, est, c, return_perm=False)
    yield true("one output", len(s1) == 1)
    yield eq("return_perm only adds the permutation", s1[0], s)
    s2 = invoke(A, pre + "sdr", ref, est, c, return_perm=True, change_sign=True)
    yield eq("change_sign negates", s2[0], -s)
    yield same_perm("change_sign keeps the permutation", s2[1], p)
    pit = invoke(A, pre + "pit", ref, est, c)
    yield true("pit is a single array", len(pit) == 1)
    yield eq("pit loss is the negative sdr", pit[0], -s)
    exp = []
    for b in np.ndindex(bs):
        exp.append([-D[b][k, m] for k, m in O.pairs(np.asarray(p)[b], K, M)] if not A.symbolic
                   else [al.neg(npsym._raw(D)[b][k, m]) for k, m in O.pairs(np.asarray(p)[b], K, M)])
    yield eq("sdr gathers the pairwise losses", s, arr(A, row(exp, bs)))
    if K == M:
        l = invoke(A, pre + "loss", ref, est, c)[0]
        yield shape_is("loss", l, bs + (K,))
        d = [[D[b][k, k] if not A.symbolic else npsym._raw(D)[b][k, k] for k in range(K)] for b in np.ndindex(bs)]
        yield eq("loss is the diagonal of the pairwise loss", l, arr(A, row(d, bs)))


def f_conv_bss(A, X, cfg):
    ref, est = X["ref"], X["est"]
    K, M = chans(ref), chans(est)
    bs = ref.shape[:-2]
    pre = "si_" if cfg.get("si") else ""
    full = invoke(A, pre + "bss", ref, est, cfg)
    yield true("four outputs", len(full) == 4)
    yield true("integer permutation", np.asarray(full[3]).dtype.kind in "iu")
    D = invoke(A, pre + "pairwise", ref, est, {k: v for k, v in cfg.items() if k != "load"} if cfg.get("si") else cfg)[0]
    exp = []
    for b in np.ndindex(bs):
        pr = O.pairs(np.asarray(full[3])[b], K, M)
        exp.append([al.neg(npsym._raw(D)[b][k, m]) if A.symbolic else -D[b][k, m] for k, m in pr])
    yield eq("SDR of bss_eval is the pairwise SDR", full[0], arr(A, row(exp, bs)))
    if K == M:
        plain = invoke(A, pre + "bss_noperm", ref, est, cfg)
        yield true("three outputs", len(plain) == 3)
        # reorder the estimates as the permutation says
        for b in np.ndindex(bs):
            pp = [int(v) for v in np.asarray(full[3])[b]]
            again = invoke(A, pre + "bss_noperm", ref[b], est[b][pp, :], cfg)
            for nm, u, v in zip(("sdr", "sir", "sar"), full, again):
                yield eq(nm + " of the reordered estimates", u[b], v)
        loss = invoke(A, pre + "loss", ref, est, {k: v for k, v in cfg.items() if k != "load"} if cfg.get("si") else cfg)[0]
        yield eq("SDR without permutation is the negative loss", plain[0], -loss)


def cases_conv(tier):
    g = Gen("conv", f_conv, tier)
    for be in BE:
        for si in (False, True):
            for j, (K, M, T, L, B) in enumerate(((3, 3, 16, 4, ()), (2, 5, 20, 5, ()), (5, 2, 24, 3, ()), (3, 2, 12, 3, (2, 1, 2)), (6, 6, 16, 2, ()))):
                for multi in (False, True):
                    if multi and K == 6:
                        continue
                    for o in ({}, {"zm": True, "clamp": 20.0}) if j < 2 else ({},):
                        g.add(be, K, M, T, None if si else L, B=B, mode="exact", si=si, multi=multi, f=f_conv_bss if multi else f_conv,
                              flips=False, free=at("ref" if j in (2, 4) and not multi else "est", 1, 3) if j or multi or o else only("est"),
                              sx=(",si" if si else "") + (",bss" if multi else "") + ",slice%d" % j + "".join("," + k for k in o), **o)
            for K, M in [(1, 1), (2, 2), (1, 2), (2, 1), (2, 3), (3, 2), (3, 3)] + ([(4, 4), (5, 3), (3, 5)] if not si or g.th else []):
                for L in [None] if si else [1, 2] if not g.th else [1, 2, 3]:
                    g.add(be, K, M, 4, L, si=si, sx=",si" if si else "")
                    for o in ({"zm": True}, {"clamp": 10.0}):
                        if K * M <= 4 or g.th:
                            g.add(be, K, M, 4, L, si=si, sx=(",si" if si else "") + "".join("," + k for k in o), **o)
            g.add(be, 2, 2, 4, None if si else 2, B=(2,), si=si, sx=",si" if si else "")
            g.add(be, 2, 3, 4, None if si else 1, B=(2, 1), si=si, sx=",si" if si else "")
            T = 500 if si else 150
            lg = dict(sparse=sparse6(T), flips=False, stress=False, weight=8, sx=(",si" if si else "") + ",long", si=si)
            g.add(be, 2, 3, T, None if si else 40, **lg)
            lg["sx"] += ",bss"
            g.add(be, 2, 2, T, None if si else 20, multi=True, f=f_conv_bss, **lg)
            if not si:
                g.add(be, 2, 2, 4, 2, si=si, load=0.25, sx=",load")
                g.add(be, 1, 1, 2, 2, si=si, cg=1, sx=",cg")
            for K, M in [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3)]:
                for L in [None] if si else [1, 2]:
                    T = max(4, K * (L or 1) + 3 - (L or 1))
                    g.add(be, K, M, T, L, si=si, multi=True, f=f_conv_bss, sx=(",si" if si else "") + ",bss")
                    if K == M == 2:
                        for o in ({"zm": True}, {"clamp": 10.0}) + (() if si or L == 1 else ({"load": 0.25},)):
                            g.add(be, K, M, T + 1, L, si=si, multi=True, f=f_conv_bss,
                                  sx=(",si" if si else "") + ",bss" + "".join("," + k for k in o), **o)
            g.add(be, 2, 2, 5, None if si else 2, B=(2,), si=si, multi=True, f=f_conv_bss, sx=(",si" if si else "") + ",bss")
    return g.out


Prop("C14", "All entry points agree up to argument order, sign and gathering", cases_conv,
     "n_ref, n_est <= 5, n_samples 4 (bss_eval: up to 6), filter_length <= 3, options zero_mean, clamp_db, load_diag, batches up to 2x1",
     BASE,
     "All entry points run on the same symbolic signals; losses, pairwise losses, PIT losses, signs, permutation flags and output "
     "shapes are compared with each other.")


# ----------------------------------------------------------------------------
# C16: inputs and layouts


def f_inputs(A, X, cfg):
    ref, est = X["ref"], X["est"]
    fn = cfg["fn"]
    name, kw, names = FUNCS[fn]
    kw = dict(kw)
    m = {"L": "filter_length", "zm": "zero_mean", "clamp": "clamp_db", "load": "load_diag", "cg": "use_cg_iter"}
    for n_ in names:
        if cfg.get(n_) is not None:
            kw[m[n_]] = cfg[n_]
    base = invoke(A, fn, ref, est, cfg)
    for lay in cfg["layouts"]:
        r, e = A.to(ref, layout=lay), A.to(est, layout=lay)
        args = (e, r) if fn in EST_FIRST else (r, e)
        first = A.back(A.raw(name, args, kw))
        lbl = "%s: " % (lay or "contiguous")
        yield eq(lbl + "reference unchanged", A.back(r), ref)
        yield eq(lbl + "estimate unchanged", A.back(e), est)
        second = A.back(A.raw(name, args, kw))
        first = first if isinstance(first, tuple) else (first,)
        second = second if isinstance(second, tuple) else (second,)
        yield from same_results(fn, base, first, lbl)
        yield from same_results(fn, base, second, lbl + "second call: ")
    # the same array used as both arguments
    if chans(ref) == chans(est) and cfg.get("alias"):
        r = A.to(ref)
        e = A.to(ref)
        yield from same_results(fn, A.back(tup(A.raw(name, (r, r), kw))), A.back(tup(A.raw(name, (r, e), kw))), "same array: ")
    if not cfg.get("history"):
        return
    r, e = A.to(ref), A.to(est)
    first = tup(A.back(A.raw(name, args2(fn, e, r), kw)))
    # a call on other signals in between
    A.raw(name, args2(fn, A.to(est[..., ::-1]), A.to(ref[..., ::-1])), kw)
    A.raw(name, args2(fn, A.to(est[..., :-1]), A.to(ref[..., :-1])), kw)
    yield from same_results(fn, first, tup(A.back(A.raw(name, args2(fn, e, r), kw))), "after other calls: ")
    # both signals in one buffer
    both = A.to(np.concatenate([ref, est], axis=-2))
    K = chans(ref)
    yield from same_results(fn, first, tup(A.back(A.raw(name, args2(fn, both[..., K:, :], both[..., :K, :]), kw))), "shared buffer: ")
    # the same arrays holding other values
    ref2, est2 = ref[..., ::-1].copy(), est + ref[..., : 1, ::-1]
    for which in ("ref", "est"):
        A.raw(name, args2(fn, e, r), kw)
        if which == "ref":
            r[...] = A.to(ref2)
        else:
            e[...] = A.to(est2)
        got = tup(A.back(A.raw(name, args2(fn, e, r), kw)))
        want = tup(A.back(A.raw(name, args2(fn, A.to(est2 if which == "est" else est), A.to(ref2)), kw)))
        yield from same_results(fn, want, got, "%s overwritten: " % which)


def args2(fn, e, r):
    return (e, r) if fn in EST_FIRST else (r, e)


def tup(x):
    return x if isinstance(x, tuple) else (x,)


def cases_inputs(tier):
    g = Gen("inputs", f_inputs, tier)
    LAY = (None, "strided", "reversed", "fortran", "offset")
    for be in BE:
        for fn in FUNCS:
            multi = fn in MULTI
            si = fn.startswith("si_")
            for L in [None] if si else [1, 2]:
                T = max(4, 2 * (L or 1) + 3 - (L or 1)) if multi else 4
                g.add(be, 2, 2, T, L, fn=fn, multi=multi, layouts=LAY, sx="," + fn)
                g.add(be, 2, 2, T + 1, L, fn=fn, multi=multi, layouts=LAY[:2], zm=True, clamp=10.0, sx="," + fn + ",zm,clamp")
                if fn not in SAME:
                    g.add(be, 2, 3, T, L, fn=fn, multi=multi, layouts=(None, "fortran"), sx="," + fn)
                if not si:
                    g.add(be, 2, 2, T + 1, L, fn=fn, multi=multi, layouts=(None, "offset"), load=0.25, sx="," + fn + ",load")
            if not si and not multi:
                g.add(be, 1, 1, 2, 2, fn=fn, multi=multi, layouts=(None, "reversed"), cg=1, sx="," + fn + ",cg")
            g.add(be, 2, 2, 5, None if si else 2, B=(2,), fn=fn, multi=multi, layouts=(None, "strided", "fortran"), sx="," + fn)
            # histories of calls; slices: symbolic estimates, larger problems
            L, T = (None, 6) if si else (2, 9)
            fe = lambda n, i: n == "est"
            hs = dict(fn=fn, multi=multi, history=True, mode="exact", free=fe)
            if g.th or not si and (not multi or be == "numpy"):
                g.add(be, 2, 2, T, L, layouts=(None,), sx=",history," + fn, alias=True, **hs)
            hs["free"] = lambda n, i: i[-2:] == ((0, 2) if n == "ref" else (1, 1)) and i[0] < 2
            g.add(be, 2, 2, T, L, layouts=(), zm=True, clamp=10.0, sx=",history,zm,clamp," + fn, **hs)
            g.add(be, 2, 2, T, L, B=(2,), layouts=(), sx=",history," + fn, **hs)
            if fn not in SAME:
                g.add(be, 2, 3, T, L, layouts=(), sx=",history," + fn, **hs)
                g.add(be, 3, 2, T + 3, L, layouts=("strided",), sx=",history," + fn, **hs)
            if not si:
                g.add(be, 2, 2, T, L, layouts=("fortran",), load=0.25, sx=",history,load," + fn, **hs)
            g.add(be, 2, 2, T, L, layouts=(None,), sx=",history,samples," + fn, alias=True, **hs)
            if not si:
                hs["free"] = lambda n, i: n == "est" and i[-2:] == (0, 2)
                g.add(be, 2, 2, T, L, layouts=("offset",), cg=1, sx=",history,cg," + fn, **hs)
            longs(g, be, fn, layouts=(None, "strided"), sizes=[(2, 2, 500, 1)] if si else [(2, 2, 100, 30)])
            if g.th:
                g.add(be, 2, 2, 4, None if si else 1, B=(2, 2), fn=fn, multi=multi, layouts=LAY, sx="," + fn)
                if not multi:
                    g.add(be, 3, 3, 5, None if si else 3, fn=fn, multi=multi, layouts=LAY, sx="," + fn)
    return g.out


Prop("C16", "Inputs are never modified and results do not depend on memory layout or history", cases_inputs,
     "all calling modes; contiguous, strided, reversed, transposed and offset views; n_ref, n_est <= 3, n_samples <= 6, filter_length "
     "<= 3, all options, batches up to 2x2; each call made twice", BASE,
     "The library runs on views of the symbolic signals; afterwards every input element is compared with its original value, and all "
     "results with those of the first call.")


# ----------------------------------------------------------------------------
# C19: padding and delays


def pad(A, x, n, front):
    sh = x.shape[:-1] + (n,)
    z = npsym.wrap(np.full(sh, al.ZERO, dtype=object)) if A.symbolic else np.zeros(sh)
    return np.concatenate([z, x] if front else [x, z], axis=-1)


def f_pad(A, X, cfg):
    ref, est = X["ref"], X["est"]
    fn = cfg["fn"]
    a = invoke(A, fn, ref, est, cfg)
    for n in cfg["n"]:
        for front in (False, True):
            b = invoke(A, fn, pad(A, ref, n, front), pad(A, est, n, front), cfg)
            yield from same_results(fn, a, b, "%d zeros %s: " % (n, "first" if front else "last"))


def cases_pad(tier):
    g = Gen("pad", f_pad, tier)
    for be in BE:
        for fn in ("bss", "sdr", "loss", "pairwise", "si_sdr", "si_bss", "bss_noperm"):
            multi = fn in MULTI
            si = fn.startswith("si_")
            for T in (4, 5, 7, 8) if not g.th else range(4, 14):
                for L in [None] if si else ([2] if not g.th else [1, 2, 3]):
                    K = 2
                    if multi and T < K * (L or 1) + 2 - (L or 1):
                        continue
                    g.add(be, K, 2, T, L, fn=fn, multi=multi, n=(1, 2, 5) if not multi else (1, 4), sx="," + fn, flips=T < 6)
            for K, M, T, L in ((2, 2, 13, 3), (3, 2, 15, 2), (2, 3, 16, 5), (2, 2, 31, 2)):
                if fn in SAME:
                    M = K
                g.add(be, K, M, T, None if si else L, mode="exact", fn=fn, multi=multi, n=(1, 16) if T < 20 else (2,), flips=False, sx=",%s,slice" % fn,
                      free=at("est", 0, 3))
            if not si:
                # long filters on short signals: every power of two boundary
                for T, L in ((3, 5), (2, 8), (4, 6)) if not multi else ((3, 5),):
                    g.add(be, 1, 1, T, L, fn=fn, multi=multi, n=(1, 2, 3, 6), sx="," + fn, flips=False)
                for T, L in ((60, 16),) if not g.th else ((60, 16), (127, 33), (250, 64)):
                    S = {0, 1, T // 3, T // 2 + 1, T - 2, T - 1}
                    if not multi:
                        g.add(be, 1, 1, 250, 256, fn=fn, multi=multi, n=(7,), sparse=sparse6(250), sx="," + fn, flips=False, weight=5, timeout=300)
                    else:
                        g.add(be, 2, 2, 100, 28, fn=fn, multi=multi, n=(2,), sparse=sparse6(100), sx="," + fn, flips=False, weight=5, timeout=300)
                    g.add(be, 1, 1, T, L, fn=fn, multi=multi, n=(3, 70), sparse=S, sx="," + fn, flips=False, weight=5, timeout=300)
    return g.out


Prop("C19", "Zero padding or delaying all signals together changes nothing", cases_pad,
     "zeros appended or prepended (1 to 70) to all signals; n_samples <= 13 with filters up to 8 taps, sparse signals up to 250 samples "
     "with 64 taps; one or two references", BASE,
     "The library runs on the signals and on the padded signals, which have other transform sizes; all outputs are shown equal.")


# ----------------------------------------------------------------------------
# C21: decomposition


def f_decomp(A, X, cfg):
    ref, est = X["ref"], X["est"]
    fn = cfg["fn"]
    out = invoke(A, fn, ref, est, cfg)
    s, i, a = (lin(A, v) for v in out[:3])
    # distortion = interference + artifacts (all relative to the target):
    # 1 / SDR = 1 / SIR + (1 + 1 / SIR) / SAR, multiplied out
    yield eq("energy balance", i * a, s * (a + 1 + i))
    yield eq("sdr", out[0], out[0])


def cases_decomp(tier):
    g = Gen("decomp", f_decomp, tier, multi=True)
    for be in BE:
        for fn in ("bss", "bss_noperm", "si_bss", "si_bss_noperm"):
            si = fn.startswith("si_")
            for K, M in [(2, 2), (3, 3)] if fn in SAME else [(2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (2, 1)]:
                for L in [None] if si else [1, 2, 3]:
                    for o in ({}, {"zm": True}) + (() if si or L == 1 else ({"load": 0.25},)):
                        if not g.th and (L == 3 and K > 2 or o and K > 2):
                            continue
                        T = K * (L or 1) + 3 - (L or 1) + bool(o)
                        g.add(be, K, M, T, L, fn=fn, sx="," + fn + "".join("," + k for k in o), **o)
            g.add(be, 2, 2, 5, None if si else 2, B=(2,), fn=fn, sx="," + fn)
            large(g, be, fn)
            large(g, be, fn, sx=",zm", sizes=[(3, 3, 16, 4), (2, 3, 9, 2)], frees=[at("est", 0, 3), at("ref", 0, 3)], zm=True)
            large(g, be, fn, sx=",batch", sizes=[(2, 3, 12, 3)], frees=[at("est", 0, 2)], B=(2, 1, 2))
            longs(g, be, fn)
            if not si:
                longs(g, be, fn, sx=",load", load=0.01)
                large(g, be, fn, sx=",load", sizes=[(3, 3, 14, 4)], frees=[at("est", 0, 3)], load=0.01)
    return g.out


Prop("C21", "Distortion is the sum of interference and artifacts", cases_decomp,
     "bss_eval_sources and si_bss_eval_sources with and without permutation, n_ref, n_est <= 4, filter_length <= 3, n_samples <= 9, "
     "zero_mean, load_diag, batches of 2", BASE,
     "The three returned ratios satisfy 1/SDR = 1/SIR + (1 + 1/SIR)/SAR in linear scale for all inputs, so SDR <= SIR and SDR <= SAR.")
