"""The properties: what is run symbolically, and against what."""
import itertools
import math

import numpy as np

from . import algebra as al
from . import core, npsym
from . import oracle as O
from .core import Case, PreconditionFailed, eq, le, true

BE = ("numpy", "torch")
PROPS = {}


class Prop:
    def __init__(self, pid, title, cases, bounds, assumptions, explanation, level="model_checking"):
        self.id = pid
        self.title = title
        self.cases = cases
        self.bounds = bounds
        self.assumptions = assumptions
        self.explanation = explanation
        self.level = level
        PROPS[pid] = self


def extent(cases):
    """the sizes covered by a list of cases, in words"""
    groups = {}
    for c in cases:
        if "ref" not in c.shapes:
            continue
        g = "slices (some samples symbolic, the others fixed)" if c.free or c.fixed else "symbolic at listed positions, zero elsewhere" if c.sparse else "all samples symbolic"
        r, e = c.shapes["ref"], c.shapes.get("est", c.shapes["ref"])
        d = groups.setdefault(g, {"K": 0, "M": 0, "T": 0, "L": 0, "B": set(), "n": 0})
        d["n"] += 1
        d["K"], d["M"], d["T"] = max(d["K"], r[-2]), max(d["M"], e[-2]), max(d["T"], r[-1])
        d["L"] = max(d["L"], int(c.cfg.get("L") or 1))
        if r[:-2]:
            d["B"].add("x".join(map(str, r[:-2])))
    out = []
    for g, d in groups.items():
        out.append("%s: %d cases, up to %d references, %d estimates, %d samples, %d taps%s" % (
            g, d["n"], d["K"], d["M"], d["T"], d["L"], ", batches " + " ".join(sorted(d["B"])) if d["B"] else ""))
    return "; ".join(out)


EXACT_REALS = (
    "sample values are exact real numbers: floating-point rounding is outside the claim (the shadow of every symbolic "
    "output is compared with a double precision run)"
)
SOLVE = (
    "numpy.linalg.solve / torch.linalg.solve return the solution of the system they are given; the system must be regular "
    "(in 'exact' cases the system is solved by fraction-free elimination instead)"
)
LSA = "scipy.optimize.linear_sum_assignment returns a one-to-one assignment of minimal total cost (torch: the library's own solver is executed)"
AUDIBLE = "every channel (after mean removal when zero_mean) has norm >= 2e-6, above the library's normalisation floor 1e-6"
COH = (
    "branches that clip a coherence to [0, 1] follow the witness: a coherence is the squared cosine of an angle; sides of "
    "branches the solver could not close are counted as open in coverage.branches"
)
BASE = [EXACT_REALS, SOLVE, LSA, AUDIBLE, COH]


# ----------------------------------------------------------------------------
# helpers


def audible(X, cfg):
    out = []
    for n in ("ref", "est"):
        if n not in X:
            continue
        r = npsym._raw(X[n])
        for i in np.ndindex(r.shape[:-1]):
            v = list(r[i])
            if cfg.get("zm"):
                m = al.mul(al.fsum(v), al.lift(1.0 / len(v)))
                v = [al.sub(x, m) for x in v]
            e = al.fsum([al.mul(x, x) for x in v])
            out.append(("ge", al.sub(e, al.lift(4e-12))))
    return out


def chans(x):
    """number of channels"""
    return x.shape[-2]


def vals(A, out, nested):
    return A.arr(nested)


def opts(cfg, *names):
    m = {"L": "filter_length", "zm": "zero_mean", "clamp": "clamp_db", "load": "load_diag", "cg": "use_cg_iter"}
    return {m[n]: cfg[n] for n in names if cfg.get(n) is not None}


def lin(A, v):
    """10 ** (v / 10), entry by entry"""
    if not A.symbolic:
        with np.errstate(all="ignore"):
            return 10.0 ** (np.asarray(v, dtype=float) / 10.0)
    r = npsym._raw(npsym.sym(v))
    out = np.empty(r.shape, dtype=object)
    from . import smt

    for i in np.ndindex(r.shape):
        x = r[i]
        if type(x) is float:
            out[i] = al.INF if x == al.INF else (al.ZERO if x == -al.INF else al.NAN)
            continue
        if not x.num:
            out[i] = al.ONE
            continue
        s = smt.single_log(x)
        if s is None:
            if x.is_const():
                out[i] = al.lift(al.snap(10.0 ** (float(x.const_value()) / 10.0)))
                continue
            raise al.Unsupported("not a logarithm")
        c, f = s
        a = al.ATOMS[f].data
        if c == 10:
            out[i] = a
        elif c == -10:
            out[i] = al.div(al.ONE, a)
        else:
            raise al.Unsupported("not ten times a logarithm")
    return npsym.wrap(out)


def shape_is(name, v, shp):
    return true("%s has shape %s" % (name, tuple(shp)), tuple(np.shape(v)) == tuple(shp))


def batches(x):
    return list(np.ndindex(x.shape[:-2]))


def row(nested, shp):
    """flat list of per-batch lists -> nested array of shape shp + (n,)"""
    n = len(nested[0])
    if shp == ():
        return nested[0]
    out = np.empty(tuple(shp) + (n,), dtype=object)
    for b, v in zip(np.ndindex(*shp), nested):
        for i, x in enumerate(v):
            out[b + (i,)] = x
    return out.tolist() if not isinstance(out.ravel()[0], al.RF) else out


def arr(A, nested):
    if isinstance(nested, np.ndarray) and nested.dtype == object:
        if A.symbolic:
            return npsym.wrap(nested)
        return np.array(nested.tolist(), dtype=float)
    return A.arr(nested)


def P(perm):
    return np.asarray(perm)


def tag(be, **kw):
    return be + "/" + ",".join("%s=%s" % (k, v) for k, v in kw.items())


def shp(K, T, B=()):
    return tuple(B) + (K, T)


def near(scale, extra=0):
    """tweak: estimates close to the references"""

    def f(w):
        w = dict(w)
        n = min(w["ref"].shape[-2], w["est"].shape[-2])
        e = w["est"].copy() * scale
        e[..., :n, :] += w["ref"][..., :n, :]
        w["est"] = e
        return w

    return f


def far(n=2, s=64.0):
    """tweak: estimates far from the references (large last samples, where the
    references are zero)"""

    def f(w):
        w = dict(w)
        e = w["est"].copy()
        e[..., -n:] *= s
        w["est"] = e
        return w

    return f


# ----------------------------------------------------------------------------
# C01, C02: the definitions


def f_sdr_def(A, X, cfg):
    L = cfg["L"]
    ref, est = X["ref"], X["est"]
    K, M = chans(ref), chans(est)
    n = min(K, M)
    s, perm = A.call("sdr", ref, est, return_perm=True, **opts(cfg, "L"))
    bs = ref.shape[:-2]
    yield shape_is("sdr", s, bs + (n,))
    yield shape_is("perm", perm, bs + (n,))
    exp = []
    for b in batches(ref):
        p = P(perm)[b]
        yield true("one to one", O.one_to_one(p, K, M))
        exp.append([O.db(A, O.sdr_ratio(A, ref[b][k], est[b][m], L, direct=cfg.get("direct"))) for k, m in O.pairs(p, K, M)])
    yield eq("sdr", s, arr(A, row(exp, bs)))


def f_bss_def(A, X, cfg):
    L = cfg["L"]
    ref, est = X["ref"], X["est"]
    K, M = chans(ref), chans(est)
    n = min(K, M)
    bs = ref.shape[:-2]
    if cfg.get("noperm"):
        out = A.call("bss_eval_sources", ref, est, compute_permutation=False, **opts(cfg, "L"))
        perm = None
    else:
        out = A.call("bss_eval_sources", ref, est, **opts(cfg, "L"))
        perm = out[3]
    yield true("number of outputs", len(out) == (3 if cfg.get("noperm") else 4))
    exp = [[], [], []]
    for b in batches(ref):
        p = list(range(n)) if perm is None else P(perm)[b]
        yield true("one to one", O.one_to_one(p, K, M))
        R = [O.bss_ratios(A, ref[b], k, est[b][m], L, direct=cfg.get("direct")) for k, m in O.pairs(p, K, M)]
        for j in range(3):
            exp[j].append([O.db(A, r[j]) for r in R])
    for j, nm in enumerate(("sdr", "sir", "sar")):
        yield shape_is(nm, out[j], bs + (n,))
        yield eq(nm, out[j], arr(A, row(exp[j], bs)))


def _def_cases(f, name, multi):
    def cases(tier):
        out = []

        th = tier == "thorough"

        def add(be, K, M, T, L, B=(), mode="atom", sparse=None, timeout=120, weight=1, tw=None, sx="", free=None, **cfg):
            c = {"L": L, "direct": mode == "exact", "multi": multi, "paths": 3}
            c.update(cfg)
            sp = {"ref": sparse, "est": sparse} if sparse and not isinstance(sparse, dict) else sparse
            out.append(Case(name + "/" + tag(be, K=K, M=M, T=T, L=L, B="x".join(map(str, B)) or 1, mode=mode) + sx, f, be,
                            {"ref": shp(K, T, B), "est": shp(M, T, B)}, c, mode=mode, sparse=sp, assume=audible,
                            timeout=timeout, weight=weight, tweak=tw, flips=(th or T <= 6) and not free, free=free))

        def at(n, k, t):
            return lambda a, i: a == n and i[-2] == k and i[-1] == t

        for be in BE:
            # larger problems along slices: symbolic estimates, single samples
            est = lambda n, i: n == "est"
            for j, (K, M, T, L, B, fr) in enumerate((
                    (3, 3, 16, 4, (), est), (2, 4, 24, 8, (), at("est", 0, 5)), (4, 2, 33, 5, (), at("est", 1, 0)), (3, 3, 20, 3, (), at("ref", 1, 19)),
                    (3, 4, 24, 8, (), est if not multi else at("est", 3, 23)), (5, 5, 31, 4, (), at("est", 4, 30)), (2, 3, 9, 3, (2, 1, 2), at("est", 1, 4)),
                    (2, 2, 50, 12, (), at("est", 1, 40)), (6, 6, 30, 2, (), at("est", 2, 7)), (1, 3, 64, 4, (), at("est", 0, 63)),
                    (2, 2, 127, 3, (), at("est", 0, 100)), (1, 1, 255, 2, (), at("ref", 0, 254)))):
                if j < 10 or th:
                    add(be, K, M, T, L, B=B, mode="exact", free=fr, sx=",slice%d" % j, weight=3 if j < 10 else 60, timeout=120 if j < 10 else 700)
            if not multi:
                # one source: every length around the transform sizes
                for T in range(2, 18 if not th else 36):
                    for L in (2, 3) if not th else (2, 3, 4, 5):
                        add(be, 1, 1, T, L)
                for T, L in ((2, 4), (3, 5), (2, 8), (5, 9), (4, 4), (1, 3)):
                    add(be, 1, 1, T, L)
                for T in (2, 3, 5, 8):
                    add(be, 1, 2, T, 1)
                add(be, 1, 1, 2, 2, mode="exact")
                add(be, 1, 1, 3, 2, mode="exact", weight=3)
                add(be, 1, 2, 3, 1, mode="exact")
                if th:
                    add(be, 1, 1, 4, 2, mode="exact", weight=5)
                    add(be, 1, 1, 3, 3, mode="exact", weight=9, timeout=300)
                sizes = [(2, 2, 4, 2), (2, 3, 5, 3), (3, 2, 8, 3), (3, 3, 6, 2), (2, 2, 3, 1), (4, 4, 5, 1), (5, 3, 6, 2),
                         (2, 4, 7, 1), (2, 2, 3, 6)]
                if th:
                    sizes += [(3, 3, 16, 4), (4, 3, 9, 4), (3, 4, 17, 2), (5, 5, 8, 1), (6, 2, 7, 3), (2, 6, 12, 5), (4, 4, 10, 3)]
                for z in sizes:
                    add(be, *z)
                add(be, 2, 2, 4, 2, B=(2,))
                add(be, 2, 3, 3, 1, B=(2, 2))
                add(be, 1, 2, 5, 2, B=(3, 1))
                # long signals with few non zero samples: long filters
                for K, T, L in ((1, 100, 64), (1, 129, 32), (1, 1000, 256), (1, 300, 512), (2, 513, 256), (1, 1025, 64)) + (
                        ((1, 600, 16), (1, 700, 128), (2, 1200, 512), (1, 5000, 300), (1, 9000, 32), (3, 2049, 100)) if th else ()):
                    S = {0, 1, T // 3, T // 2 + 1, T - 2, T - 1}
                    add(be, K, K, T, L, sparse=S, weight=8, timeout=300 if not th else 700)
                add(be, 2, 2, 4, 2, tw=near(0.01), sx=",near")
                for K, M in ((1, 1), (2, 2), (2, 3)):
                    for L in (1, 2):
                        add(be, K, M, 4, L, tw=near(2.0**-14), sx=",nearer")
                        add(be, K, M, 7, L, tw=far(2, 2.0**10), sparse={"ref": {0, 1, 2, 3}}, sx=",far")
                        add(be, K, M, 7, L, tw=far(2, 2.0**19), sparse={"ref": {0, 1, 2, 3}}, sx=",farther")
            else:
                sizes = [(2, 2, 4, 2), (2, 3, 6, 2), (3, 2, 9, 3), (3, 3, 8, 2), (2, 2, 3, 1), (4, 4, 6, 1), (2, 1, 5, 2),
                         (1, 2, 5, 3), (2, 4, 5, 1), (4, 2, 6, 1), (1, 1, 3, 2), (2, 2, 7, 3), (2, 2, 9, 4)]
                if th:
                    sizes += [(3, 3, 10, 3), (4, 3, 13, 3), (3, 4, 9, 2), (5, 5, 7, 1), (2, 2, 12, 5), (2, 3, 16, 4), (2, 2, 17, 2),
                              (4, 4, 12, 2)] + [(2, 2, T, 2) for T in range(5, 20)]
                for T in range(4, 12):
                    add(be, 2, 2, T, 2)
                for z in sizes:
                    if z[:4] not in [(2, 2, 4, 2)]:
                        if not (z[0] == z[1] == 2 and z[3] == 2 and 4 <= z[2] < 12):
                            add(be, *z, weight=2)
                # filters longer than the signals (still T + L - 1 >= K L)
                add(be, 1, 1, 2, 5)
                add(be, 1, 2, 3, 6)
                add(be, 2, 2, 3, 1, mode="exact", weight=4)
                add(be, 1, 1, 2, 2, mode="exact")
                if th:
                    add(be, 2, 2, 4, 1, mode="exact", weight=5)
                    add(be, 2, 2, 3, 2, mode="exact", weight=9, timeout=400)
                add(be, 2, 2, 4, 2, B=(2,), weight=2)
                add(be, 2, 3, 4, 1, B=(2, 2), weight=2)
                add(be, 3, 2, 5, 1, B=(2,), weight=2)
                add(be, 2, 2, 5, 2, noperm=True, sx=",noperm")
                add(be, 3, 3, 5, 1, noperm=True, sx=",noperm")
                add(be, 2, 2, 5, 2, B=(2,), noperm=True, sx=",noperm")
                for K, T, L in ((2, 60, 16), (2, 200, 64), (1, 300, 256)) + (((2, 150, 32), (2, 400, 128), (3, 300, 60), (2, 1030, 257), (2, 3000, 40)) if th else ()):
                    S = {0, 1, T // 3, T // 2 + 1, T - 2, T - 1}
                    add(be, K, K, T, L, sparse=S, weight=8, timeout=300 if not th else 700)
                add(be, 2, 2, 5, 2, tw=near(0.01), sx=",near")
                for K, M in ((1, 1), (2, 2), (2, 3)):
                    for L in (1, 2):
                        add(be, K, M, 4 + L, L, tw=near(2.0**-14), sx=",nearer")
                        add(be, K, M, 7 + L, L, tw=far(2, 2.0**10), sparse={"ref": {0, 1, 2, 3, 4}}, sx=",far")
                        add(be, K, M, 7 + L, L, tw=far(2, 2.0**19), sparse={"ref": {0, 1, 2, 3, 4}}, sx=",farther")
        seen = {}
        for c in out:
            seen.setdefault(c.id, c)
        return list(seen.values())

    return cases


Prop("C01", "SDR is the energy ratio of the projection on the delayed reference",
     _def_cases(f_sdr_def, "sdr", False),
     "numpy and torch; 1 <= n_ref, n_est <= 5 (6 thorough), n_samples <= 17 (35 thorough) and filter_length <= 9, batch shapes up "
     "to 2x2, plus sparse signals up to 1025 (9000) samples with filters up to 512 taps; all listed samples symbolic reals",
     BASE,
     "The public sdr() runs on symbolic signals; each returned value is compared by z3 with the textbook ratio |Pe|^2/|e-Pe|^2 "
     "computed in the time domain, for all sample values on the executed path.")
Prop("C02", "SIR and SAR follow the BSS Eval decomposition",
     _def_cases(f_bss_def, "bss", True),
     "numpy and torch; n_ref, n_est <= 4 (5 thorough), n_samples <= 11 (19), filter_length <= 6, with and without permutation, "
     "batches up to 2x2, sparse signals up to 300 (3000) samples with 256 taps; all listed samples symbolic reals",
     BASE,
     "bss_eval_sources() runs on symbolic signals; SDR, SIR and SAR are compared with the target / interference / artifact energies "
     "of the time-domain decomposition.")
