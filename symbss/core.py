"""Cases: run the library symbolically, collect obligations, let z3 decide,
replay counterexamples on the real library."""
import hashlib
import importlib
import itertools
import json
import math
import os
import random
import signal
import subprocess
import sys
import threading
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FBE_REPO", "/repo")
SCRATCH = os.path.join(VERIF, "build")

import numpy as np

from . import algebra as al
from . import npsym

_lib = {}


def lib(patched=True):
    """the library under test, imported from /repo's working tree"""
    if "fb" in _lib:
        return _lib["fb"]
    if patched:
        npsym.install()
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import torch

    torch.set_num_threads(1)
    fb = importlib.import_module("fast_bss_eval")
    if not os.path.abspath(fb.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("library imported from %s" % fb.__file__)
    _lib["fb"] = fb
    _lib["torch"] = torch
    return fb


def fb():
    return _lib["fb"]


class Obl:
    __slots__ = ("kind", "name", "a", "b")

    def __init__(self, kind, name, a=None, b=None):
        self.kind, self.name, self.a, self.b = kind, name, a, b


def eq(name, a, b):
    return Obl("eq", name, a, b)


def true(name, v):
    return Obl("true", name, bool(v))


def le(name, a, b):
    return Obl("le", name, a, b)


def leall(name, a, b):
    """a (one entry) is at most every entry of b"""
    return Obl("leall", name, a, b)


class Api:
    """calls into the library; symbolic or concrete, numpy or torch"""

    def __init__(self, backend, symbolic, opts=None):
        self.backend = backend
        self.symbolic = symbolic
        self.opts = opts or {}
        self.meta = None

    # -- conversions
    def to(self, x, backend=None, layout=None):
        backend = backend or self.backend
        if self.symbolic:
            x = npsym.sym(x) if not isinstance(x, npsym.SymArray) else x
            if backend == "numpy":
                y = x
                return _np_layout(y, layout) if layout else y.copy()
            from . import thsym

            t = thsym.from_terms(npsym._raw(x), _lib["torch"].float64)
            return _th_layout(t, layout) if layout else t
        if backend == "numpy":
            y = np.array(x, dtype=np.float64)
            return _np_layout(y, layout) if layout else y
        t = _lib["torch"].tensor(np.array(x, dtype=np.float64))
        return _th_layout(t, layout) if layout else t

    def back(self, y):
        """library value -> SymArray / ndarray"""
        torch = _lib["torch"]
        if isinstance(y, (tuple, list)):
            return tuple(self.back(v) for v in y)
        if isinstance(y, torch.Tensor):
            if self.symbolic:
                from . import thsym

                if isinstance(y, thsym.SymT):
                    o = thsym.terms(y)
                    return npsym.wrap(o, y.dtype.is_complex)
                if y.dtype.is_floating_point:
                    return npsym.sym(np.array(y.detach().tolist(), dtype=np.float64).reshape(tuple(y.shape)))
            return y.detach().numpy()
        if self.symbolic and isinstance(y, al.RF):
            return npsym.sym(y)
        if self.symbolic and isinstance(y, np.ndarray) and not isinstance(y, npsym.SymArray) and y.dtype.kind in "fc":
            return npsym.sym(y)
        if isinstance(y, np.ndarray):
            return y
        return np.asarray(y)

    def raw(self, fn, args, kw, backend=None):
        f = getattr(fb(), fn) if isinstance(fn, str) else fn
        backend = backend or self.backend
        if self.symbolic:
            if backend == "torch":
                from . import thsym

                with thsym.Mode():
                    return f(*args, **kw)
            with npsym.active():
                return f(*args, **kw)
        return f(*args, **kw)

    def call(self, fn, *arrays, backend=None, layout=None, **kw):
        args = [self.to(a, backend, layout) for a in arrays]
        out = self.raw(fn, args, kw, backend)
        return self.back(out)

    # -- arrays of values for specifications
    def arr(self, nested):
        if self.symbolic:
            return npsym.sym(npsym._listarr(nested))
        return np.array(nested, dtype=np.float64)

    def const(self, x):
        return al.lift(x) if self.symbolic else float(x)


def _np_layout(y, layout):
    """same values, other memory layout"""
    if layout == "strided":
        big = np.repeat(y, 2, axis=-1)
        if isinstance(y, npsym.SymArray):
            big = npsym.wrap(np.repeat(npsym._raw(y), 2, axis=-1), y._cplx)
        return big[..., ::2]
    if layout == "reversed":
        return y[..., ::-1].copy()[..., ::-1]
    if layout == "fortran":
        r = npsym._raw(y) if isinstance(y, npsym.SymArray) else y
        r = np.ascontiguousarray(r.swapaxes(-1, -2)).swapaxes(-1, -2)
        return npsym.wrap(r, y._cplx) if isinstance(y, npsym.SymArray) else r
    if layout == "offset":
        r = npsym._raw(y) if isinstance(y, npsym.SymArray) else y
        big = np.empty(r.shape[:-1] + (r.shape[-1] + 3,), dtype=object if isinstance(y, npsym.SymArray) else y.dtype)
        big[...] = al.lift(1) if isinstance(y, npsym.SymArray) else 1.0
        big[..., 2:-1] = r
        big = npsym.wrap(big, y._cplx) if isinstance(y, npsym.SymArray) else big
        return big[..., 2:-1]
    raise ValueError(layout)


def _th_layout(t, layout):
    torch = _lib["torch"]
    if layout == "strided":
        return t.repeat_interleave(2, dim=-1)[..., ::2] if not hasattr(t, "_ids") else _rewrap(t, t._ids.repeat_interleave(2, dim=-1)[..., ::2])
    if layout == "reversed":
        return t.flip(-1).flip(-1)
    if layout == "fortran":
        f = lambda x: x.transpose(-1, -2).contiguous().transpose(-1, -2)
        return f(t) if not hasattr(t, "_ids") else _rewrap(t, f(t._ids))
    if layout == "offset":
        def f(x):
            big = x.new_ones(tuple(x.shape[:-1]) + (x.shape[-1] + 3,))
            big[..., 2:-1] = x
            return big[..., 2:-1]

        return f(t) if not hasattr(t, "_ids") else _rewrap(t, f(t._ids))
    raise ValueError(layout)


def _rewrap(t, ids):
    from . import thsym

    return thsym.SymT(ids, t.dtype)


def default_domain(w, cfg):
    """concrete inputs inside the domain of the properties: audible channels,
    well conditioned systems"""
    for n in ("ref", "est"):
        if n not in w:
            continue
        x = w[n]
        if cfg.get("zm"):
            x = x - x.mean(axis=-1, keepdims=True)
        if not np.all(np.isfinite(x)):
            return False
        nr = np.sqrt((x * x).sum(axis=-1))
        if (nr < 2e-6).any() or (nr > 1e8).any():
            return False
    if "ref" in w and cfg.get("load") is None:
        x = w["ref"]
        if cfg.get("zm"):
            x = x - x.mean(axis=-1, keepdims=True)
        L = int(cfg.get("L") or 1)
        x = x / np.sqrt((x * x).sum(axis=-1, keepdims=True))
        T = x.shape[-1]
        for b in np.ndindex(x.shape[:-2]):
            groups = [list(x[b])] if cfg.get("multi") else [[c] for c in x[b]]
            for g in groups:
                D = []
                for c in g:
                    for a in range(L):
                        v = np.zeros(T + L - 1)
                        v[a : a + T] = c
                        D.append(v)
                D = np.array(D)
                e = np.linalg.eigvalsh(D @ D.T)
                if e[0] <= 1e-5 * e[-1]:
                    return False
        if "est" in w and not cfg.get("edge") and w["est"].shape[:-2] == w["ref"].shape[:-2]:
            # infinite metrics are covered by their own property
            y = w["est"]
            if cfg.get("zm"):
                y = y - y.mean(axis=-1, keepdims=True)
            y = y / np.sqrt((y * y).sum(axis=-1, keepdims=True))
            for b in np.ndindex(x.shape[:-2]):
                for s in y[b]:
                    v = np.zeros(T + L - 1)
                    v[:T] = s
                    al_ = _coh(list(x[b]), v, L) if cfg.get("multi") else 1.0
                    for c in x[b]:
                        one = _coh([c], v, L)
                        if T > 1 and not 1e-13 < one < 1 - 1e-9:
                            return False
                        if cfg.get("multi") and len(x[b]) > 1 and one > al_ * (1 - 1e-9):
                            return False
    return True


def _coh(refs, v, L):
    T = len(v) - L + 1
    D = []
    for c in refs:
        for a in range(L):
            r = np.zeros(len(v))
            r[a : a + T] = c
            D.append(r)
    q = np.linalg.qr(np.array(D).T)[0]
    return float(((q.T @ v) ** 2).sum())


def _in(m, i):
    if m is None:
        return True
    return bool(m(i)) if callable(m) else i[-1] in m


class Case:
    def __init__(self, cid, fn, backend, shapes, cfg=None, mode="atom", sparse=None, assume=None, timeout=150,
                 scalars=None, flips=True, witness=None, logfree=False, tiers=("quick", "thorough"), tol=1e-5, tweak=None, grid=4, stress=True, inputs_of=None, z3ms=4000, weight=1, runner=None, realise=None, fixed=None, free=None,
                 domain="default"):
        self.id = cid
        self.weight = weight
        self.domain = default_domain if domain == "default" else domain
        self.fixed = fixed or {}
        # slice: only these entries (name, index) are symbolic, the others keep
        # the value of the witness
        self.free = free
        if runner is not None:
            self.runner = runner
        if realise is not None:
            self.realise = realise
        self.fn = fn
        self.backend = backend
        self.shapes = shapes
        self.cfg = cfg or {}
        self.mode = mode
        self.sparse = sparse or {}
        self.assume = assume
        self.timeout = timeout
        self.scalars = scalars or {}
        self.flips = flips
        self.witness = witness
        self.tiers = tiers
        self.tol = tol
        self.tweak = tweak
        self.grid = grid
        self.stress = stress
        self.z3ms = z3ms
        self.logfree = logfree

    # -- inputs
    def rng(self, seed, k=0):
        h = hashlib.sha256(("%s|%s|%s" % (self.id, seed, k)).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def draw(self, seed, k=0):
        """concrete witness values, exact rationals"""
        if self.witness is not None:
            w = self.witness(self.rng(seed, k))
            if w is not None:
                return w
        r = self.rng(seed, k)
        out = {}
        for name, shp in self.shapes.items():
            a = np.zeros(shp)
            m = self.sparse.get(name)
            for i in np.ndindex(*shp):
                if not _in(m, i):
                    continue
                v = 0
                while v == 0:
                    v = r.randint(-9, 9)
                a[i] = v / self.grid
            out[name] = a
        for name, val in self.fixed.items():
            out[name] = np.array(val, dtype=float)
        for name, choices in self.scalars.items():
            out[name] = np.array(r.choice(choices), dtype=float)
        if self.tweak:
            out = self.tweak(out)
        return out

    def symbolic_inputs(self, w):
        X = {}
        for name, shp in self.shapes.items():
            raw = np.empty(shp, dtype=object)
            m = self.sparse.get(name)
            for i in np.ndindex(*shp):
                if not _in(m, i):
                    raw[i] = al.ZERO
                elif name in self.fixed or self.free is not None and not self.free(name, i):
                    raw[i] = al.lift(float(w[name][i]))
                else:
                    raw[i] = al.new_input(name + "_" + "_".join(map(str, i)), w[name][i])
            X[name] = npsym.wrap(raw)
        for name in self.scalars:
            raw = np.empty((), dtype=object)
            raw[()] = al.new_input(name, float(w[name]))
            X[name] = npsym.wrap(raw)
        return X

    def from_model(self, model, w):
        """inputs with the values of a z3 model (by atom id) over the witness"""
        out = {k: np.array(v, dtype=float).copy() for k, v in w.items()}
        byname = {a.name: a.id for a in al.ATOMS if a.kind == "in"}
        for name in list(self.shapes) + list(self.scalars):
            shp = self.shapes.get(name, ())
            for i in np.ndindex(*shp):
                aid = byname.get(name + "_" + "_".join(map(str, i)) if shp != () else name)
                if aid is not None and aid in model:
                    out[name][i] = float(model[aid])
        return out


# ----------------------------------------------------------------------------
# concrete evaluation of a property (used for replay and validation)


def concrete(case, w, details=None):
    """evaluate the property on the real library with floats: None if it holds,
    else a description"""
    A = Api(case.backend, False)
    X = {k: np.array(v, dtype=float) for k, v in w.items()}
    if case.domain is not None and not case.domain(X, case.cfg):
        return None
    try:
        with np.errstate(all="ignore"):
            obls = list(case.fn(A, X, case.cfg))
    except PreconditionFailed:
        return None
    except Exception as e:
        return "exception %s: %s" % (type(e).__name__, str(e)[:300])
    for o in obls:
        if details is not None:
            details.append(o)
        if o.kind == "true":
            if not o.a:
                return "%s: false" % o.name
            continue
        a, b = np.asarray(o.a, dtype=float), np.asarray(o.b, dtype=float)
        if o.kind == "leall":
            b = np.min(b, keepdims=True)
        if a.shape != b.shape:
            return "%s: shapes %s and %s" % (o.name, a.shape, b.shape)
        for i in np.ndindex(a.shape):
            u, v = a[i], b[i]
            if o.kind == "eq":
                if np.isnan(u) and np.isnan(v):
                    continue
                if u == v:
                    continue
                # values at the limits of double precision are compared loosely
                if min(u, v) > 110 or max(u, v) < -110:
                    continue
                if not abs(u - v) <= case.tol * max(1.0, abs(u), abs(v)) * (1 if max(abs(u), abs(v)) < 60 else 1e3):
                    return "%s%s: got %.12g, expected %.12g" % (o.name, list(i), u, v)
            else:
                if not u <= v + case.tol * max(1.0, abs(v)):
                    return "%s%s: %.12g not <= %.12g" % (o.name, list(i), u, v)
    return None


class PreconditionFailed(Exception):
    """the inputs lie outside the domain of the property"""


# ----------------------------------------------------------------------------
# symbolic evaluation


FUNCS_SEEN = set()


def _profile(frame, event, arg):
    if event == "call":
        c = frame.f_code
        if "fast_bss_eval" in c.co_filename and c.co_filename.startswith(REPO):
            FUNCS_SEEN.add(os.path.relpath(c.co_filename, REPO) + ":" + c.co_qualname)


def fresh():
    from . import thsym

    al.reset()
    al.CTX.clear()
    al.CTX.explorer = None
    thsym.reset()
    npsym.ASSIGN_LOG.clear()


class Run:
    pass


def symbolic(case, w, mode=None):
    fresh()
    al.set_solve_mode(mode or case.mode)
    A = Api(case.backend, True)
    X = case.symbolic_inputs(w)
    r = Run()
    r.X = X
    r.assume = list(case.assume(X, case.cfg)) if case.assume else []
    n0 = len(al.CTX.pc)
    sys.setprofile(_profile)
    try:
        r.obls = list(case.fn(A, X, case.cfg))
    finally:
        sys.setprofile(None)
    r.pc = list(al.CTX.pc)
    r.merges = list(al.CTX.merges)
    return r


def _flat(a, b, kind=None):
    a, b = npsym.sym(a), npsym.sym(b)
    ra, rb = npsym._raw(a), npsym._raw(b)
    if kind == "leall":
        return [((i,), ra[0], v) for i, v in enumerate(rb)]
    if ra.shape != rb.shape:
        return None
    return [(i, ra[i], rb[i]) for i in np.ndindex(ra.shape)]


class Finding(Exception):
    def __init__(self, msg, inputs):
        self.msg, self.inputs = msg, inputs


def stress(case, w, seed):
    """further replay candidates around a witness: other draws, high quality
    estimates, other levels"""
    yield w
    if not case.stress:
        return
    for k in range(1, 3):
        yield case.draw(seed, 1000 + k)
    if "ref" in w and "est" in w:
        r = case.rng(seed, 77)
        for eps in (1e-2, 1e-4):
            v = {k: np.array(x) for k, x in w.items()}
            n = min(v["ref"].shape[-2], v["est"].shape[-2])
            if v["ref"].shape[:-2] == v["est"].shape[:-2]:
                v["est"][..., :n, :] = v["ref"][..., :n, :] + eps * v["est"][..., :n, :]
                yield v
        for sc in (1e-3, 1e-4, 1e3):
            for which in (("ref",), ("est",), ("ref", "est")):
                yield {k: np.array(x) * (sc if k in which else 1.0) for k, x in w.items()}


def hunt(case, w, seed, model=None, limit=14):
    """find concrete inputs on which the real library breaks the property"""
    n = 0
    if model is not None:
        m = concrete(case, model)
        if m:
            return m, model
    for v in stress(case, w, seed):
        m = concrete(case, v)
        if m:
            return m, v
        n += 1
        if n > limit:
            break
    return None


def discharge(case, run, w, seed, out, mode):
    """decide the obligations of one path"""
    from . import smt

    failures = []
    for o in run.obls:
        if o.kind == "true":
            smt.STATS["obligations"] += 1
            smt.load()
            s = smt.z3.Solver()
            s.add(smt.z3.BoolVal(not o.a))
            if smt.check(s, 1000) == "unsat":
                smt.STATS["discharged"] += 1
            else:
                failures.append((o.name, None))
            continue
        pairs = _flat(o.a, o.b, o.kind)
        if pairs is None:
            failures.append(("%s: shapes %s %s" % (o.name, np.shape(o.a), np.shape(o.b)), None))
            continue
        for i, a, b in pairs:
            if o.kind == "eq":
                r = smt.prove_equal(a, b, case.z3ms)
            else:
                if type(a) is float or type(b) is float:
                    fa = a if type(a) is float else 0.0
                    fb_ = b if type(b) is float else 0.0
                    if type(a) is float and type(b) is float:
                        ok = fa <= fb_
                    elif type(a) is float:
                        ok = fa == -al.INF
                    else:
                        ok = fb_ == al.INF
                    r = smt.Result("unsat" if ok else "sat")
                else:
                    r = smt.prove_cond("le", al.sub(a, b), run.pc_le if hasattr(run, "pc_le") else log_assumptions(run.pc), case.z3ms)
            if r.status != "unsat":
                failures.append(("%s%s (%s)" % (o.name, list(i), r.status), r.model))
            if len(failures) > 3:
                break
        if len(failures) > 3:
            break
    for u, v in run.merges:
        r = smt.prove_equal(u, v, case.z3ms)
        if r.status != "unsat":
            failures.append(("equal log arguments (%s)" % r.status, r.model))
    return failures


def log_assumptions(pc):
    """path conditions that are linear in logarithms"""
    out = []
    for op, d in pc:
        if d.fac and not all(al.ATOMS[f].kind == "log" and e == 2 for f, e in d.fac.items()):
            continue
        if all(all(al.ATOMS[x].kind == "log" for x in m) for m in d.num) and not any(
            type(c) is al.Cyc for c in d.num.values()
        ):
            out.append((op, d))
    return out


def explore_flips(case, run, w, budget_s, out):
    """the other side of every branch taken: unsat under the domain assumptions
    (closed), sat (a new witness) or unknown (left open, reported)"""
    from . import smt

    t0 = time.time()
    new = []
    st = out["branches"]
    seen = set()
    for op, d in run.pc:
        key = (op, al.pkey(d.num), frozenset(d.fac.items()))
        if key in seen:
            continue
        seen.add(key)
        st["total"] += 1
        if op == "ne":
            st["measure_zero"] += 1
            continue
        if time.time() - t0 > budget_s:
            st["open"] += 1
            continue
        kinds = {al.ATOMS[x].kind for m in d.num for x in m} | {al.ATOMS[f].kind for f in d.fac}
        if "log" in kinds:
            st["assignment"] += 1
            continue
        if "solve" in kinds or len(d.num) > 40:
            st["open"] += 1
            continue
        try:
            res = None
            for inline in (False, True):
                e = smt.Enc(inline=inline)
                s = smt.z3.Solver()
                s.add(smt.cond_expr(e, smt._NEG[op], d))
                for o, x in run.assume:
                    s.add(smt.cond_expr(e, o, x))
                if not inline:
                    for f in list(e.fc):
                        pass
                e.finish(s)
                res = smt.check(s, 400 if budget_s < 10 else 3000)
                if res == "unsat":
                    break
            if res == "unsat":
                st["closed"] += 1
            elif res == "sat":
                st["flipped"] += 1
                mi = case.from_model(smt.model_inputs(e, s.model()), w)
                new.append(mi)
                rg = case.rng(0, len(new))
                for amp in (0.02, 0.2):
                    new.append({k: (np.asarray(v) if k in case.fixed else np.array(
                        [float(x) + amp * rg.choice([-3, -2, -1, 1, 2, 3]) / 4 * (1 if x else 0 if k in case.sparse else 1)
                         for x in np.asarray(v).ravel()]).reshape(np.shape(v)))
                        for k, v in mi.items()})
            else:
                st["open"] += 1
                # slices: scale one channel of one signal
                for v in slices(case, w):
                    new.append(v)
        except al.Unsupported:
            st["open"] += 1
    return new


def slices(case, w):
    return []


def validate(case, w, run, out):
    """translation check: shadows of the symbolic outputs against a concrete run"""
    det = []
    A = Api(case.backend, False)
    X = {k: np.array(v, dtype=float) for k, v in w.items()}
    with np.errstate(all="ignore"):
        det = list(case.fn(A, X, case.cfg))
    n = 0
    byname = {}
    for c in det:
        byname.setdefault(c.name, []).append(c)
    if not {o.name for o in run.obls} & set(byname):
        return "no common output"
    for o in run.obls:
        # (ties between assignments may be broken differently)
        if o.kind == "true" or not byname.get(o.name):
            continue
        c = byname[o.name].pop(0)
        if o.kind == "leall":
            continue
        s = npsym.tofloat(npsym.sym(o.a))
        cc = np.asarray(c.a, dtype=float)
        if s.shape != cc.shape:
            return "%s: shape %s vs %s" % (o.name, s.shape, cc.shape)
        for i in np.ndindex(cc.shape):
            u, v = float(np.real(s[i])), float(cc[i])
            n += 1
            if (np.isnan(u) and np.isnan(v)) or u == v:
                continue
            if max(abs(u), abs(v)) > 100:
                continue
            if not abs(u - v) <= 1e-5 * max(1, abs(u)):
                return "%s%s: symbolic %.10g, concrete %.10g" % (o.name, list(i), u, v)
    out["validated_values"] += n
    out["validated_traces"] += 1
    return None


def new_out(case):
    return {
        "case": case.id,
        "backend": case.backend,
        "status": "ok",
        "paths": 0,
        "validated_values": 0,
        "validated_traces": 0,
        "branches": {"total": 0, "closed": 0, "flipped": 0, "open": 0, "measure_zero": 0, "assignment": 0},
        "notes": [],
    }


def run_case(case, seed, tier):
    """returns the result dict of a case"""
    from . import smt

    out = new_out(case)
    t0 = time.time()
    for k in smt.STATS:
        smt.STATS[k] = 0 if k != "time" else 0.0
    FUNCS_SEEN.clear()
    try:
        if hasattr(case, "runner"):
            case.runner(case, seed, tier, out)
        else:
            _run_case(case, seed, tier, out)
    except Finding as f:
        out["status"] = "violation"
        out["message"] = f.msg
        out["inputs"] = {k: np.asarray(v).tolist() for k, v in f.inputs.items()}
    out["solver"] = dict(smt.STATS)
    out["functions"] = sorted(FUNCS_SEEN)
    out["wall_s"] = round(time.time() - t0, 3)
    return out


def _inconclusive(case, w, seed, out, note):
    h = hunt(case, w, seed)
    if h:
        raise Finding(h[0], h[1])
    out["status"] = "inconclusive"
    out["notes"].append(note)


def _run_case(case, seed, tier, out):
    pend = []
    w = None
    # first witness
    err = None
    for k in range(80):
        w = case.draw(seed, k)
        try:
            run = symbolic(case, w)
            err = None
            break
        except al.Ambiguous as e:
            err = "ambiguous branch: %s" % str(e)[:200]
            continue
        except PreconditionFailed:
            err = "precondition"
            continue
        except al.Unsupported as e:
            _inconclusive(case, w, seed, out, "outside the encoding: %s" % e)
            return
        except Exception as e:
            err = "exception %s: %s" % (type(e).__name__, str(e)[:300])
            m = concrete(case, w)
            if m:
                raise Finding(m, w)
            if isinstance(e, (np.linalg.LinAlgError,)) or "singular" in str(e):
                continue
            _inconclusive(case, w, seed, out, "symbolic execution failed: %s %s" % (err, traceback.format_exc()[-600:]))
            return
    if err:
        _inconclusive(case, w, seed, out, "no usable witness: %s" % err)
        return
    max_paths = case.cfg.get("paths", 4) if tier == "quick" else 3 * case.cfg.get("paths", 4)
    queue = []
    while True:
        out["paths"] += 1
        v = None
        try:
            v = validate(case, w, run, out)
        except Exception as e:
            v = "concrete run raises %s: %s" % (type(e).__name__, str(e)[:200])
        fails = discharge(case, run, w, seed, out, case.mode)
        if fails:
            models = [m for _, m in fails if m]
            h = None
            for m in models[:4]:
                mi = case.from_model(m, w)
                msg = concrete(case, mi)
                if msg:
                    h = (msg, mi)
                    break
            if h is None:
                h = hunt(case, w, seed)
            if h:
                raise Finding(h[0], h[1])
            if case.mode == "atom" and small_enough(case):
                # decide again with the linear systems solved exactly
                try:
                    r2 = symbolic(case, w, "exact")
                    f2 = discharge(case, r2, w, seed, out, "exact")
                    if not f2:
                        out["notes"].append("decided with exact elimination")
                        run = r2
                        fails = []
                except (al.Unsupported, al.Ambiguous) as e:
                    pass
            if fails:
                out["status"] = "inconclusive"
                out["notes"].append("not discharged, not reproduced: %s" % "; ".join(n for n, _ in fails[:4]))
                return
        if v:
            # the encoding and the real code disagree at the witness
            m = concrete(case, w)
            if m:
                raise Finding(m, w)
            out["status"] = "inconclusive"
            out["notes"].append("translation check failed: %s" % v)
            return
        if not case.flips:
            st = out["branches"]
            st["total"] += len(run.pc)
            st["open"] += len(run.pc)
        elif out["paths"] <= max_paths:
            queue.extend(explore_flips(case, run, w, 2 if tier == "quick" else 20, out))
        nxt = None
        while queue and out["paths"] < max_paths:
            w2 = queue.pop(0)
            try:
                run2 = symbolic(case, w2)
                nxt = (w2, run2)
                break
            except (al.Ambiguous, PreconditionFailed, np.linalg.LinAlgError):
                out["branches"]["open"] += 1
                continue
            except al.Unsupported as e:
                out["branches"]["open"] += 1
                m = concrete(case, w2)
                if m:
                    raise Finding(m, w2)
                continue
            except Exception as e:
                m = concrete(case, w2)
                if m:
                    raise Finding(m, w2)
                out["branches"]["open"] += 1
                continue
        if nxt is None:
            return
        w, run = nxt


def small_enough(case):
    L = case.cfg.get("L", 1)
    K = max([s[-2] if len(s) > 1 else 1 for s in case.shapes.values()] or [1])
    T = max([s[-1] if len(s) else 1 for s in case.shapes.values()] or [1])
    return L * K <= 4 and T <= 6
