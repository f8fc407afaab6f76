"""Symbolic torch tensors at the aten level.

A SymT wraps an int64 tensor of term ids; movement operators (views, indexing,
in-place copies) run natively on the ids, so aliasing is torch's own; arithmetic
operators compute exact terms (algebra.RF).  Autograd runs on top unchanged.
"""
import functools
import itertools
import math

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map

from . import algebra as al
from .algebra import RF, ZERO, ONE, Unsupported, lift

TERMS = []
_interned = {}


def reset():
    TERMS.clear()
    _interned.clear()
    TERMS.append(ZERO)
    TERMS.append(ONE)


reset()


def tid(v):
    if type(v) is not float and not isinstance(v, RF):
        v = lift(v)
    if isinstance(v, RF) and not isinstance(v, al.LazyRF):
        if not v.num:
            return 0
    TERMS.append(v)
    return len(TERMS) - 1


class SymT(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls,
            ids.shape,
            strides=ids.stride(),
            storage_offset=ids.storage_offset(),
            dtype=dtype,
            device=torch.device("cpu"),
            requires_grad=requires_grad,
        )
        r._ids = ids
        return r

    def __repr__(self):
        return "SymT(%s, %s)" % (tuple(self.shape), self.dtype)

    __torch_function__ = torch._C._disabled_torch_function_impl

    def numpy(self, *a, **k):
        raise Unsupported("torch tensor converted to numpy")

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def terms(x):
    """numpy object array of terms of a SymT"""
    n = _npids(x._ids)
    out = np.empty(n.shape, dtype=object)
    fo = out.reshape(-1)
    for i, t in enumerate(n.ravel().tolist()):
        fo[i] = TERMS[t]
    return out


def _npids(ids):
    return np.array(ids.tolist(), dtype=np.int64).reshape(tuple(ids.shape))


def from_terms(o, dtype):
    o = np.asarray(o, dtype=object)
    flat = [tid(v) for v in o.ravel()]
    ids = torch.tensor(flat, dtype=torch.int64).reshape(o.shape)
    return SymT(ids, dtype)


def is_c(dtype):
    return dtype.is_complex


def cdtype(dt):
    return {torch.float32: torch.complex64, torch.float64: torch.complex128, torch.float16: torch.complex32}.get(dt, dt)


def rdtype(dt):
    return {torch.complex64: torch.float32, torch.complex128: torch.float64, torch.complex32: torch.float16}.get(dt, dt)


def sym(x, dtype=None):
    if isinstance(x, SymT):
        return x
    if isinstance(x, torch.Tensor):
        dt = dtype or (x.dtype if x.dtype.is_floating_point or x.dtype.is_complex else torch.float64)
        single = x.dtype in (torch.float32, torch.complex64, torch.float16)
        flat = [lift(v, single) for v in x.detach().reshape(-1).tolist()]
        o = np.empty(len(flat), dtype=object)
        for i, v in enumerate(flat):
            o[i] = v
        return from_terms(o.reshape(tuple(x.shape)), dt)
    if isinstance(x, (int, float, complex, bool, RF)):
        o = np.empty((), dtype=object)
        o[()] = lift(x)
        return from_terms(o, dtype or torch.float64)
    raise Unsupported("operand %r" % type(x))


def shadow(x):
    """concrete torch tensor of shadow values"""
    t = terms(x)
    c = x.dtype.is_complex
    flat = []
    for v in t.ravel():
        s = v.shadow() if isinstance(v, RF) else v
        if isinstance(s, complex) and not c:
            s = s.real
        flat.append(s)
    return torch.tensor(flat, dtype=x.dtype).reshape(tuple(t.shape))


def _obj(x):
    """operand -> object array"""
    if isinstance(x, SymT):
        return terms(x)
    if isinstance(x, torch.Tensor):
        return terms(sym(x))
    o = np.empty((), dtype=object)
    o[()] = lift(x)
    return o


def _rdt(*xs):
    """result dtype, torch promotion on meta tensors"""
    ms = []
    for x in xs:
        if isinstance(x, torch.Tensor):
            ms.append(torch.empty([1] * x.dim(), dtype=x.dtype))
        elif isinstance(x, RF):
            ms.append(1.0)
        else:
            ms.append(x)
    if len(ms) == 1:
        m = ms[0]
        return m.dtype if isinstance(m, torch.Tensor) else torch.float64
    dt = torch.result_type(ms[0], ms[1])
    for m in ms[2:]:
        dt = torch.result_type(torch.empty((1,), dtype=dt), m)
    return dt


def _ew(f, *xs):
    os = np.broadcast_arrays(*[_obj(x) for x in xs])
    out = np.empty(os[0].shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(*[o[i] for o in os])
    return out


def _dtf(dt):
    return dt if (dt.is_floating_point or dt.is_complex) else torch.get_default_dtype()


H = {}  # op name -> handler(func, args, kwargs)


def op(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f

    return deco


def _name(func):
    return func._schema.name.split("::")[1]


def _assign(dst, o):
    """in-place write of object array o into SymT dst (same aliasing)"""
    o = np.broadcast_to(o, tuple(dst.shape))
    if not dst.dtype.is_complex:
        pass
    flat = [tid(v) for v in o.ravel()]
    dst._ids.copy_(torch.tensor(flat, dtype=torch.int64).reshape(tuple(dst.shape)))
    return dst


def unary(name, f, dt=None):
    def h(func, args, kw):
        x = args[0]
        o = _ew(f, x)
        return from_terms(o, (dt(x.dtype) if dt else x.dtype))

    def hi(func, args, kw):
        return _assign(args[0], _ew(f, args[0]))

    H[name] = h
    H[name + "_"] = hi


unary("neg", al.neg)
unary("negative", al.neg)
unary("abs", al.absval, rdtype)
unary("sqrt", al.sqrt)
unary("rsqrt", lambda a: al.div(ONE, al.sqrt(a)))
unary("square", lambda a: al.mul(a, a))
unary("reciprocal", lambda a: al.div(ONE, a))
unary("log10", al.log10)
unary("log", al.ln)
unary("log2", lambda a: al.mul(al.log10(a), lift(math.log2(10.0))) if isinstance(al.log10(a), RF) else al.log10(a))
unary("_conj", al.conj)
unary("_conj_physical", al.conj)
unary("conj_physical", al.conj)
unary("resolve_conj", lambda a: a)
unary("resolve_neg", lambda a: a)
unary("_neg_view", al.neg)
unary("sign", lambda a: a if al.isnan(a) else lift(al._sgn(a)))
unary("sgn", lambda a: a if al.isnan(a) else lift(al._sgn(a)))
unary("real", al.re_part, rdtype)
unary("imag", al.im_part, rdtype)


def _int_f(fn):
    def f(a):
        if type(a) is float:
            return a
        if a.is_const():
            return lift(fn(a.const_value()))
        raise Unsupported("rounding")

    return f


unary("ceil", _int_f(math.ceil))
unary("floor", _int_f(math.floor))
unary("round", _int_f(round))


def binary(name, f, alpha=False, truediv=False):
    def comp(args, kw):
        a, b = args[0], args[1]
        al_ = kw.get("alpha", args[2] if alpha and len(args) > 2 else 1)
        if alpha and al_ != 1:
            o = _ew(lambda u, v: f(u, al.mul(lift(al_), v)), a, b)
        else:
            o = _ew(f, a, b)
        if kw.get("rounding_mode") is not None:
            raise Unsupported("rounding mode")
        dt = _rdt(a, b)
        if truediv:
            dt = _dtf(dt)
        return o, dt

    def h(func, args, kw):
        o, dt = comp(args, kw)
        return from_terms(o, dt)

    def hi(func, args, kw):
        o, dt = comp(args, kw)
        if not isinstance(args[0], SymT):
            raise Unsupported("in-place symbolic write to a concrete tensor")
        return _assign(args[0], o)

    H[name] = h
    H[name + "_"] = hi


binary("add", al.add, alpha=True)
binary("sub", al.sub, alpha=True)
binary("mul", al.mul)
binary("div", al.div, truediv=True)
binary("true_divide", al.div, truediv=True)
binary("maximum", al.maximum)
binary("minimum", al.minimum)
binary("fmax", lambda a, b: b if al.isnan(a) else (a if al.isnan(b) else al.maximum(a, b)))
binary("fmin", lambda a, b: b if al.isnan(a) else (a if al.isnan(b) else al.minimum(a, b)))
binary("hypot", lambda a, b: al.sqrt(al.add(al.mul(a, a), al.mul(b, b))))
binary("pow", al.power)


@op("rsub")
def _rsub(func, args, kw):
    a, b = args[0], args[1]
    alpha = kw.get("alpha", args[2] if len(args) > 2 else 1)
    return from_terms(_ew(lambda u, v: al.sub(v, al.mul(lift(alpha), u)), a, b), _rdt(a, b))


@op("addcmul", "addcdiv")
def _addc(func, args, kw):
    g = al.mul if _name(func) == "addcmul" else al.div
    v = kw.get("value", 1)
    o = _ew(lambda a, b, c: al.add(a, al.mul(lift(v), g(b, c))), *args[:3])
    return from_terms(o, _rdt(*args[:3]))


@op("lerp")
def _lerp(func, args, kw):
    o = _ew(lambda a, b, w: al.add(a, al.mul(w, al.sub(b, a))), *args[:3])
    return from_terms(o, args[0].dtype)


def _bool(o):
    flat = [bool(v) for v in o.ravel()]
    return torch.tensor(flat, dtype=torch.bool).reshape(o.shape)


def pred2(name, f):
    def h(func, args, kw):
        return _bool(_ew(lambda u, v: f(u, v), args[0], args[1]))

    H[name] = h


def _nn(f, nanval=False):
    def g(u, v):
        if al.isnan(u) or al.isnan(v):
            return nanval
        return f(u, v)

    return g


pred2("lt", _nn(al.lt))
pred2("gt", _nn(lambda u, v: al.lt(v, u)))
pred2("le", _nn(lambda u, v: not al.lt(v, u)))
pred2("ge", _nn(lambda u, v: not al.lt(u, v)))
pred2("eq", _nn(al.eq))
pred2("ne", _nn(lambda u, v: not al.eq(u, v), True))


def pred1(name, f):
    def h(func, args, kw):
        return _bool(_ew(f, args[0]))

    H[name] = h


pred1("isnan", al.isnan)
pred1("isinf", al.isinf)
pred1("isfinite", lambda a: not (al.isnan(a) or al.isinf(a)))
pred1("isneginf", lambda a: type(a) is float and a == -al.INF)
pred1("isposinf", lambda a: type(a) is float and a == al.INF)
pred1("signbit", lambda a: al.lt(a, ZERO))
pred1("logical_not", lambda a: al.eq(a, ZERO))


@op("logical_and", "logical_or", "logical_xor", "logical_and_", "logical_or_")
def _logical(func, args, kw):
    conc = []
    for a in args:
        conc.append(_bool(_ew(lambda u: not al.eq(u, ZERO), a)) if isinstance(a, SymT) else a)
    return func(*conc, **kw)


@op("any", "all")
def _anyall(func, args, kw):
    b = _bool(_ew(lambda u: not al.eq(u, ZERO), args[0]))
    return func(b, *args[1:], **kw)


@op("nonzero")
def _nonzero(func, args, kw):
    b = _bool(_ew(lambda u: not al.eq(u, ZERO), args[0]))
    return torch.nonzero(b)


@op("_local_scalar_dense")
def _lsd(func, args, kw):
    o = terms(args[0])
    v = o.reshape(-1)[0]
    if type(v) is float:
        return v
    if v.is_const():
        return float(v.const_value())
    raise Unsupported("symbolic tensor converted to a python number")


@op("is_nonzero")
def _isnz(func, args, kw):
    return not al.eq(terms(args[0]).reshape(-1)[0], ZERO)


@op("allclose", "equal")
def _allclose(func, args, kw):
    raise Unsupported(_name(func))


def _clampv(v, lo, hi):
    if al.isnan(v):
        return v
    if lo is not None:
        v = al.maximum(v, lo)
    if hi is not None:
        v = al.minimum(v, hi)
    return v


@op("clamp", "clamp_", "clamp_min", "clamp_min_", "clamp_max", "clamp_max_", "clip", "clip_", "hardtanh")
def _clamp(func, args, kw):
    n = _name(func)
    x = args[0]
    a = list(args[1:])
    lo = kw.get("min")
    hi = kw.get("max")
    if n.startswith("clamp_min"):
        lo = a[0] if a else lo
    elif n.startswith("clamp_max"):
        hi = a[0] if a else hi
    else:
        if a:
            lo = a[0]
        if len(a) > 1:
            hi = a[1]
    o = terms(x) if isinstance(x, SymT) else _obj(x)
    dt = x.dtype
    if lo is not None:
        o = _ewo(lambda u, v: u if al.isnan(u) else al.maximum(u, v), o, _obj(lo))
    if hi is not None:
        o = _ewo(lambda u, v: u if al.isnan(u) else al.minimum(u, v), o, _obj(hi))
    if n.endswith("_") :
        return _assign(x, o)
    return from_terms(o, dt)


def _ewo(f, a, b):
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(a[i], b[i])
    return out


@op("where")
def _where(func, args, kw):
    if len(args) == 1:
        return _nonzero(func, args, kw)
    c, x, y = args
    if isinstance(c, SymT):
        c = _bool(_ew(lambda u: not al.eq(u, ZERO), c))
    c = np.array(c.tolist(), dtype=bool).reshape(tuple(c.shape))
    cc, ox, oy = np.broadcast_arrays(c, _obj(x), _obj(y))
    out = np.empty(cc.shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = ox[i] if cc[i] else oy[i]
    return from_terms(out, _rdt(x, y))


@op("nan_to_num")
def _ntn(func, args, kw):
    x = args[0]
    nan = args[1] if len(args) > 1 and args[1] is not None else kw.get("nan") or 0.0
    big = torch.finfo(rdtype(x.dtype)).max
    pos = args[2] if len(args) > 2 and args[2] is not None else kw.get("posinf")
    neg = args[3] if len(args) > 3 and args[3] is not None else kw.get("neginf")
    pos = big if pos is None else pos
    neg = -big if neg is None else neg

    def f(v):
        if type(v) is float:
            if v != v:
                return lift(nan)
            return lift(pos) if v > 0 else lift(neg)
        return v

    return from_terms(_ew(f, x), x.dtype)


# -- reductions


def _axes(dim, nd):
    if dim is None:
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    if len(dim) == 0:
        return tuple(range(nd))
    if nd == 0:
        return ()
    return tuple(sorted(d % nd for d in dim))


def _red(o, dim, keep, f):
    nd = o.ndim
    axes = _axes(dim, nd)
    rest = [a for a in range(nd) if a not in axes]
    n = 1
    for a in axes:
        n *= o.shape[a]
    shp = tuple(o.shape[a] for a in rest)
    t = o.transpose(rest + list(axes)).reshape(shp + (n,))
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        out[i] = f(list(t[i]))
    if keep:
        out = out.reshape(tuple(1 if a in axes else o.shape[a] for a in range(nd)))
    return out


def _dimkeep(args, kw, i=1):
    dim = kw.get("dim", args[i] if len(args) > i else None)
    keep = kw.get("keepdim", args[i + 1] if len(args) > i + 1 else False)
    return dim, keep


@op("sum", "nansum")
def _sum(func, args, kw):
    dim, keep = _dimkeep(args, kw)
    return from_terms(_red(terms(args[0]), dim, keep, al.fsum), kw.get("dtype") or args[0].dtype)


@op("mean")
def _mean(func, args, kw):
    dim, keep = _dimkeep(args, kw)
    return from_terms(
        _red(terms(args[0]), dim, keep, lambda l: al.div(al.fsum(l), lift(len(l)))), kw.get("dtype") or args[0].dtype
    )


@op("prod")
def _prod(func, args, kw):
    dim, keep = _dimkeep(args, kw)
    return from_terms(_red(terms(args[0]), dim, keep, lambda l: functools.reduce(al.mul, l, ONE)), args[0].dtype)


@op("var", "std", "var_mean", "std_mean")
def _var(func, args, kw):
    raise Unsupported("variance")


def _argbest(l, better):
    b = 0
    for i in range(1, len(l)):
        if al.isnan(l[b]):
            break
        if al.isnan(l[i]) or better(l[i], l[b]):
            b = i
    return b


def _minmax(better):
    def h(func, args, kw):
        x = args[0]
        if len(args) > 1 and isinstance(args[1], torch.Tensor):
            f = al.minimum if better is al.lt else al.maximum
            return from_terms(_ew(f, x, args[1]), _rdt(x, args[1]))
        o = terms(x)
        if len(args) == 1 and "dim" not in kw:
            if o.size == 0:
                raise RuntimeError("min(): Expected reduction dim to be specified for input.numel() == 0.")
            l = list(o.ravel())
            r = np.empty((), dtype=object)
            r[()] = l[_argbest(l, better)]
            return from_terms(r, x.dtype)
        dim, keep = _dimkeep(args, kw)
        idx = _red(o, dim, True, lambda l: _argbest(l, better))
        d = dim % o.ndim
        vals = np.take_along_axis(o, idx.astype(np.int64), axis=d)
        ii = torch.tensor(idx.astype(np.int64).tolist(), dtype=torch.int64).reshape(idx.shape)
        v = from_terms(vals, x.dtype)
        if not keep:
            v = SymT(v._ids.squeeze(d), x.dtype)
            ii = ii.squeeze(d)
        return v, ii

    return h


H["min"] = _minmax(al.lt)
H["max"] = _minmax(lambda a, b: al.lt(b, a))


def _amm(better):
    def h(func, args, kw):
        dim, keep = _dimkeep(args, kw)
        return from_terms(_red(terms(args[0]), dim, keep, lambda l: l[_argbest(l, better)]), args[0].dtype)

    return h


H["amin"] = _amm(al.lt)
H["amax"] = _amm(lambda a, b: al.lt(b, a))


def _argmm(better):
    def h(func, args, kw):
        dim, keep = _dimkeep(args, kw)
        o = _red(terms(args[0]), dim, keep, lambda l: _argbest(l, better))
        o = np.asarray(o)
        return torch.tensor(o.astype(np.int64).tolist(), dtype=torch.int64).reshape(o.shape)

    return h


H["argmin"] = _argmm(al.lt)
H["argmax"] = _argmm(lambda a, b: al.lt(b, a))


@op("sort", "argsort", "topk", "kthvalue", "median", "unique", "_unique2")
def _sort(func, args, kw):
    raise Unsupported(_name(func))


@op("cumsum")
def _cumsum(func, args, kw):
    o = terms(args[0]).copy()
    d = args[1] % max(o.ndim, 1)
    m = np.moveaxis(o, d, 0)
    for i in range(1, m.shape[0]):
        for j in np.ndindex(m.shape[1:]):
            m[i][j] = al.add(m[i - 1][j], m[i][j])
    return from_terms(o, args[0].dtype)


@op("linalg_vector_norm", "norm")
def _vnorm(func, args, kw):
    x = args[0]
    n = _name(func)
    ordv = kw.get("ord", kw.get("p", args[1] if len(args) > 1 else 2))
    if ordv is None:
        ordv = 2
    dim, keep = _dimkeep(args, kw, 2)
    o = terms(x)
    if ordv == 2:
        f = lambda l: al.sqrt(al.fsum([al.mul(v, al.conj(v)) for v in l]))
    elif ordv == 1:
        f = lambda l: al.fsum([al.absval(v) for v in l])
    elif ordv == float("inf"):
        f = lambda l: functools.reduce(al.maximum, [al.absval(v) for v in l])
    else:
        raise Unsupported("norm order")
    return from_terms(_red(o, dim, keep, f), rdtype(x.dtype))


# -- products


def _mm(a, b):
    """(..., i, j) x (..., j, k) object arrays, same batch"""
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, bs + a.shape[-2:])
    b = np.broadcast_to(b, bs + b.shape[-2:])
    out = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    for m in np.ndindex(bs):
        A, B = a[m], b[m]
        for i in range(A.shape[0]):
            for k in range(B.shape[1]):
                out[m + (i, k)] = al.fsum([al.mul(A[i, j], B[j, k]) for j in range(A.shape[1])])
    return out


@op("bmm", "mm", "matmul")
def _bmm(func, args, kw):
    return from_terms(_mm(_obj(args[0]), _obj(args[1])), _rdt(args[0], args[1]))


@op("baddbmm", "addmm")
def _baddbmm(func, args, kw):
    beta, alpha = kw.get("beta", 1), kw.get("alpha", 1)
    p = _mm(_obj(args[1]), _obj(args[2]))
    o = _ewo(lambda u, v: al.add(al.mul(lift(beta), u), al.mul(lift(alpha), v)), np.broadcast_to(_obj(args[0]), p.shape), p)
    return from_terms(o, args[1].dtype)


@op("mv")
def _mv(func, args, kw):
    o = _mm(_obj(args[0]), _obj(args[1])[:, None])[:, 0]
    return from_terms(o, args[0].dtype)


@op("dot", "vdot")
def _dot(func, args, kw):
    a, b = _obj(args[0]), _obj(args[1])
    c = al.conj if _name(func) == "vdot" else (lambda v: v)
    o = np.empty((), dtype=object)
    o[()] = al.fsum([al.mul(c(u), v) for u, v in zip(a, b)])
    return from_terms(o, args[0].dtype)


# -- linear algebra


def _rows(m):
    return [list(r) for r in m]


def _solve_obj(a, b, left=True):
    if not left:
        x = _solve_obj(np.swapaxes(a, -1, -2), np.swapaxes(b, -1, -2))
        return np.swapaxes(x, -1, -2)
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, bs + a.shape[-2:])
    b = np.broadcast_to(b, bs + b.shape[-2:])
    out = np.empty(b.shape, dtype=object)
    for m in np.ndindex(bs):
        try:
            xs = al.solve_many(_rows(a[m]), [list(b[m][:, j]) for j in range(b.shape[-1])])
        except al.SingularSystem:
            raise torch._C._LinAlgError("torch.linalg.solve: The solver failed because the input matrix is singular.")
        for j, x in enumerate(xs):
            for i, v in enumerate(x):
                out[m + (i, j)] = v
    return out


@op("_linalg_solve_ex")
def _solve_ex(func, args, kw):
    A, B = args[0], args[1]
    left = kw.get("left", True)
    oa, ob = _obj(A), _obj(B)
    vec = ob.ndim == 1 or (ob.ndim == oa.ndim - 1 and ob.shape == oa.shape[:-1])
    if vec:
        ob = ob[..., None]
    x = _solve_obj(oa, ob, left)
    if vec:
        x = x[..., 0]
    res = from_terms(x, A.dtype)
    # LU carries the matrix itself: used only by linalg_lu_solve in backward
    lu = SymT(A._ids.clone() if isinstance(A, SymT) else sym(A)._ids, A.dtype)
    piv = torch.zeros(tuple(A.shape[:-1]), dtype=torch.int32)
    info = torch.zeros(tuple(A.shape[:-2]), dtype=torch.int32)
    return res, lu, piv, info


@op("linalg_lu_solve")
def _lu_solve(func, args, kw):
    LU, piv, B = args[:3]
    left = kw.get("left", True)
    adj = kw.get("adjoint", False)
    a = _obj(LU)
    if adj:
        a = np.swapaxes(_ewo(lambda u, v: al.conj(u), a, a), -1, -2)
    return from_terms(_solve_obj(a, _obj(B), left), B.dtype)


@op("linalg_inv_ex")
def _inv_ex(func, args, kw):
    A = args[0]
    o = _obj(A)
    out = np.empty(o.shape, dtype=object)
    for m in np.ndindex(o.shape[:-2]):
        x = al.inverse(_rows(o[m]))
        for i, r in enumerate(x):
            for j, v in enumerate(r):
                out[m + (i, j)] = v
    return from_terms(out, A.dtype), torch.zeros(tuple(A.shape[:-2]), dtype=torch.int32)


@op("_linalg_check_errors")
def _chk(func, args, kw):
    return None


@op("_linalg_det", "linalg_cholesky_ex", "linalg_lu_factor_ex", "_linalg_eigh", "_linalg_svd", "linalg_lstsq", "_linalg_slogdet")
def _la_uns(func, args, kw):
    raise Unsupported(_name(func))


# -- transforms


def _axis_map(o, d, f):
    m = np.moveaxis(o, d, -1)
    out = None
    for i in np.ndindex(m.shape[:-1]):
        v = f(list(m[i]))
        if out is None:
            out = np.empty(m.shape[:-1] + (len(v),), dtype=object)
        for j, e in enumerate(v):
            out[i + (j,)] = e
    return np.moveaxis(out, -1, d)


def _fftnorm(norm, n):
    # 0 none, 1 by 1/sqrt(n), 2 by 1/n
    if norm == 0:
        return None
    if norm == 2:
        return al.Fraction(1, n)
    raise Unsupported("fft normalisation")


@op("_fft_r2c")
def _r2c(func, args, kw):
    x, dim, norm, onesided = args[:4]
    if len(dim) != 1:
        raise Unsupported("multi-dimensional fft")
    o = terms(x)
    n = o.shape[dim[0]]
    sc = _fftnorm(norm, n)
    ks = range(n // 2 + 1) if onesided else range(n)
    r = _axis_map(o, dim[0], lambda l: al.dft(l, n, ks, scale=sc))
    return from_terms(r, cdtype(x.dtype))


@op("_fft_c2r")
def _c2r(func, args, kw):
    x, dim, norm, last = args[:4]
    if len(dim) != 1:
        raise Unsupported("multi-dimensional fft")
    o = terms(x)
    n = int(last)
    sc = _fftnorm(norm, n)
    r = _axis_map(o, dim[0], lambda l: al.irfft(l, n))
    if sc is None:
        r = _ewo(lambda u, v: al.mul(u, v), r, np.broadcast_to(_obj(n), r.shape))
    return from_terms(r, rdtype(x.dtype))


@op("_fft_c2c")
def _c2c(func, args, kw):
    x, dim, norm, forward = args[:4]
    if len(dim) != 1:
        raise Unsupported("multi-dimensional fft")
    o = terms(x)
    n = o.shape[dim[0]]
    sc = _fftnorm(norm, n)
    r = _axis_map(o, dim[0], lambda l: al.dft(l, n, range(n), sign=-1 if forward else 1, scale=sc))
    return from_terms(r, x.dtype)


# -- complex views (copies)


@op("view_as_real", "_view_as_real")
def _var_(func, args, kw):
    o = terms(args[0])
    out = np.empty(o.shape + (2,), dtype=object)
    for i in np.ndindex(o.shape):
        out[i + (0,)] = al.re_part(o[i])
        out[i + (1,)] = al.im_part(o[i])
    return from_terms(out, rdtype(args[0].dtype))


@op("view_as_complex", "_view_as_complex")
def _vac(func, args, kw):
    o = terms(args[0])
    out = np.empty(o.shape[:-1], dtype=object)
    I = RF({(): al.I_UNIT}, {})
    for i in np.ndindex(out.shape):
        out[i] = al.add(o[i + (0,)], al.mul(I, o[i + (1,)]))
    return from_terms(out, cdtype(args[0].dtype))


@op("complex")
def _complex(func, args, kw):
    I = RF({(): al.I_UNIT}, {})
    o = _ew(lambda u, v: al.add(u, al.mul(I, v)), args[0], args[1])
    return from_terms(o, cdtype(args[0].dtype))


# -- movement operators: run on the ids

MOVE = {
    "view", "_unsafe_view", "reshape", "_reshape_alias", "as_strided", "as_strided_", "expand", "permute", "transpose",
    "t", "unsqueeze", "squeeze", "select", "slice", "diagonal", "unbind", "split", "split_with_sizes", "chunk",
    "flip", "roll", "index", "clone", "cat", "stack", "constant_pad_nd", "unfold", "movedim", "alias", "detach",
    "index_select", "gather", "take", "masked_select", "repeat", "expand_as", "narrow", "unsafe_split", "tril", "triu",
    "diag_embed", "swapaxes", "lift_fresh", "lift", "contiguous", "block_diag", "rot90", "_to_copy", "unsafe_chunk",
    "select_backward", "slice_backward", "diagonal_backward", "unfold_backward", "new_zeros", "zeros_like", "empty_like",
    "new_empty", "new_empty_strided", "zero_", "masked_fill_zero", "select_scatter", "slice_scatter", "diagonal_scatter",
    "index_select_backward", "lift_fresh_copy", "squeeze_", "unsqueeze_", "transpose_", "t_", "swapaxes_", "detach_",
    "tile", "view_copy", "as_strided_copy", "slice_copy", "select_copy", "flatten", "unflatten", "take_along_dim",
    "diagonal_copy", "expand_copy", "permute_copy", "concat", "hstack", "vstack", "as_strided_scatter", "select_scatter",
}
VALUE_MOVE = {"masked_fill", "masked_fill_", "fill", "fill_", "full_like", "new_full", "index_fill", "index_fill_"}
WRITE_MOVE = {"copy_", "copy", "index_put", "index_put_", "_index_put_impl_", "masked_scatter", "masked_scatter_", "scatter", "scatter_"}


def _ids(x):
    if isinstance(x, SymT):
        return x._ids
    return x


def _wrapout(r, dt):
    if isinstance(r, torch.Tensor):
        if r.dtype == torch.int64:
            return SymT(r, dt)
        return r
    if isinstance(r, (tuple, list)):
        return type(r)(_wrapout(y, dt) for y in r)
    return r


def _symlists(args):
    for a in args:
        if isinstance(a, SymT):
            return a
        if isinstance(a, (list, tuple)):
            for b in a:
                if isinstance(b, SymT):
                    return b
    return None


def move(func, args, kw, name):
    first = _symlists(args)
    if first is None:
        raise Unsupported("%s without symbolic operand" % name)
    kw = dict(kw)
    dt = kw.pop("dtype", None)
    kw.pop("device", None)
    kw.pop("layout", None)
    kw.pop("pin_memory", None)
    if name in ("cat", "stack", "concat", "hstack", "vstack", "block_diag"):
        lst = args[0]
        rd = None
        for x in lst:
            rd = x.dtype if rd is None else torch.result_type(torch.empty(1, dtype=rd), torch.empty(1, dtype=x.dtype))
        r = func([_ids(sym(x)) for x in lst], *args[1:], **kw)
        return SymT(r, rd)
    if name in ("new_zeros", "zeros_like", "empty_like", "new_empty", "new_empty_strided", "new_ones", "ones_like"):
        if dt is not None and not (dt.is_floating_point or dt.is_complex):
            return func(torch.zeros(tuple(first.shape), dtype=first.dtype), *args[1:], dtype=dt, **kw)
        r = func(first._ids, *args[1:], **kw)
        if name.startswith("new_empty") or name.startswith("empty"):
            r.zero_()
        return SymT(r, dt or first.dtype)
    if name == "_to_copy":
        nd = dt or first.dtype
        if not (nd.is_floating_point or nd.is_complex):
            o = terms(first)
            if nd == torch.bool:
                return _bool(_ewo(lambda u, v: not al.eq(u, ZERO), o, o))
            if all(isinstance(v, RF) and v.is_const() for v in o.ravel()):
                return torch.tensor([int(v.const_value()) for v in o.ravel()], dtype=nd).reshape(o.shape)
            raise Unsupported("cast of symbolic values to %s" % nd)
        if (first.dtype in (torch.float64, torch.complex128)) and nd in (torch.float32, torch.float16, torch.bfloat16, torch.complex64, torch.complex32):
            raise Unsupported("cast of symbolic values to single precision")
        mf = kw.get("memory_format")
        r = first._ids.clone() if mf is None else first._ids.clone(memory_format=mf)
        if first.dtype.is_complex and not nd.is_complex:
            return from_terms(_ewo(lambda u, v: al.re_part(u), terms(first), terms(first)), nd)
        return SymT(r, nd)
    if name == "constant_pad_nd":
        v = args[2] if len(args) > 2 else kw.pop("value", 0)
        r = func(first._ids, args[1], tid(v))
        return SymT(r, first.dtype)
    if name == "zero_":
        first._ids.zero_()
        return first
    if name in ("index", "take", "gather", "index_select", "masked_select"):
        if not isinstance(args[0], SymT):
            raise Unsupported("symbolic index")
    a2 = [_ids(a) if not isinstance(a, (list, tuple)) else type(a)(_ids(b) for b in a) for a in args]
    if name.endswith("scatter"):
        a2[1] = sym(args[1])._ids
    r = func(*a2, **kw)
    if r is first._ids:
        return first
    if name == "detach_" or (name.endswith("_") and not name.startswith("_") and name not in ("as_strided_",)):
        return first
    return _wrapout(r, first.dtype)


def value_move(func, args, kw, name):
    kw = dict(kw)
    first = args[0]
    if not isinstance(first, SymT):
        if isinstance(first, torch.Tensor) and not name.endswith("_"):
            first = sym(first)
        else:
            raise Unsupported("symbolic value written in a concrete tensor")
    dt = kw.pop("dtype", None)
    kw.pop("device", None)
    kw.pop("layout", None)
    kw.pop("pin_memory", None)
    a2 = [first._ids] + list(args[1:])
    v = a2[-1] if "value" not in kw and "fill_value" not in kw else (kw.pop("value", None) if "value" in kw else kw.pop("fill_value"))
    if isinstance(v, torch.Tensor):
        v = terms(sym(v)).reshape(-1)[0]
    if name in ("full_like", "new_full") and dt is not None and not (dt.is_floating_point or dt.is_complex):
        return func(torch.zeros(tuple(first.shape), dtype=first.dtype), *args[1:], dtype=dt, **kw)
    if len(a2) > 1 and (len(args) > 1 and args[-1] is a2[-1]):
        a2 = a2[:-1]
    t = tid(v)
    base = name.rstrip("_")
    if base == "fill":
        if name.endswith("_"):
            first._ids.fill_(t)
            return first
        return SymT(torch.full_like(first._ids, t), first.dtype)
    if base == "masked_fill":
        m = args[1]
        if isinstance(m, SymT):
            raise Unsupported("symbolic mask")
        if name.endswith("_"):
            first._ids.masked_fill_(m, t)
            return first
        return SymT(first._ids.masked_fill(m, t), first.dtype)
    if base == "full_like":
        return SymT(torch.full_like(first._ids, t), dt or first.dtype)
    if base == "new_full":
        return SymT(first._ids.new_full(args[1], t), dt or first.dtype)
    if base == "index_fill":
        if name.endswith("_"):
            first._ids.index_fill_(args[1], args[2], t)
            return first
        return SymT(first._ids.index_fill(args[1], args[2], t), first.dtype)
    raise Unsupported(name)


def write_move(func, args, kw, name):
    dst = args[0]
    if name in ("copy_", "copy"):
        src = args[1]
        if not isinstance(dst, SymT):
            if isinstance(src, SymT):
                o = terms(src)
                if all(isinstance(v, RF) and v.is_const() for v in o.ravel()):
                    c = torch.tensor([float(v.const_value()) for v in o.ravel()], dtype=torch.float64).reshape(o.shape)
                    return func(dst, c)
                raise Unsupported("symbolic value copied to a concrete tensor")
        s = sym(src)
        if s.dtype.is_complex and not dst.dtype.is_complex:
            s = from_terms(_ewo(lambda u, v: al.re_part(u), terms(s), terms(s)), dst.dtype)
        if name == "copy":
            return SymT(s._ids.expand(dst.shape).clone(), dst.dtype)
        dst._ids.copy_(s._ids)
        return dst
    if name in ("index_put", "index_put_", "_index_put_impl_"):
        idx, val = args[1], args[2]
        acc = args[3] if len(args) > 3 else kw.get("accumulate", False)
        if not isinstance(dst, SymT):
            if name == "index_put":
                dst = sym(dst)
            else:
                raise Unsupported("symbolic value written to a concrete tensor")
        if name == "index_put":
            dst = SymT(dst._ids.clone(), dst.dtype)
        v = sym(val)
        if not acc:
            torch.ops.aten.index_put_.default(dst._ids, list(idx), v._ids)
            return dst
        pos = torch.arange(dst._ids.numel()).reshape(dst._ids.shape)
        p = pos[tuple(slice(None) if i is None else i for i in idx)]
        vv = np.broadcast_to(terms(v), tuple(p.shape))
        o = terms(dst).copy()
        fo = o.reshape(-1)
        for q, w in zip(p.reshape(-1).tolist(), vv.ravel()):
            fo[q] = al.add(fo[q], w)
        return _assign(dst, fo.reshape(o.shape))
    if name.startswith("masked_scatter"):
        m = args[1]
        s = sym(args[2])
        r = dst._ids.masked_scatter(m, s._ids)
        if name.endswith("_"):
            dst._ids.copy_(r)
            return dst
        return SymT(r, dst.dtype)
    if name.startswith("scatter"):
        s = args[3]
        if isinstance(s, torch.Tensor):
            s = sym(s)._ids
        else:
            s = tid(s)
        r = dst._ids.scatter(args[1], args[2], s)
        if name.endswith("_"):
            dst._ids.copy_(r)
            return dst
        return SymT(r, dst.dtype)
    raise Unsupported(name)


@op("index_add", "index_add_")
def _index_add(func, args, kw):
    dst, dim, idx, src = args[:4]
    alpha = kw.get("alpha", 1)
    if not isinstance(dst, SymT):
        raise Unsupported("index_add on concrete")
    o = terms(dst).copy()
    m = np.moveaxis(o, dim, 0)
    s = np.moveaxis(_obj(src), dim, 0)
    for k, i in enumerate(idx.tolist()):
        for j in np.ndindex(m.shape[1:]):
            m[(i,) + j] = al.add(m[(i,) + j], al.mul(lift(alpha), s[(k,) + j]))
    if _name(func).endswith("_"):
        return _assign(dst, o)
    return from_terms(o, dst.dtype)


@op("scatter_add", "scatter_add_")
def _scatter_add(func, args, kw):
    dst, dim, idx, src = args
    o = terms(dst).copy()
    s = _obj(src)
    ix = np.array(idx.tolist(), dtype=np.int64).reshape(tuple(idx.shape))
    for i in np.ndindex(ix.shape):
        j = list(i)
        j[dim] = int(ix[i])
        o[tuple(j)] = al.add(o[tuple(j)], s[i])
    if _name(func).endswith("_"):
        return _assign(dst, o)
    return from_terms(o, dst.dtype)


@op("new_ones", "ones_like")
def _ones(func, args, kw):
    dt = kw.get("dtype")
    x = args[0]
    if dt is not None and not (dt.is_floating_point or dt.is_complex):
        return func(torch.zeros(tuple(x.shape), dtype=x.dtype), *args[1:], **kw)
    shp = tuple(x.shape) if _name(func) == "ones_like" else tuple(args[1])
    return SymT(torch.ones(shp, dtype=torch.int64), dt or x.dtype)


@op("is_same_size")
def _same_size(func, args, kw):
    return tuple(args[0].shape) == tuple(args[1].shape)


@op("masked_fill_backward", "threshold_backward")
def _mfb(func, args, kw):
    raise Unsupported(_name(func))


@op("_has_compatible_shallow_copy_type")
def _hcs(func, args, kw):
    return True


NOT_IMPL = set()


def dispatch(func, args, kw):
    name = _name(func)
    if name.endswith("_backward") and name in MOVE:
        pass
    with torch._C._DisableTorchDispatch() if False else _nullcontext():
        h = H.get(name)
        if h is not None:
            if func._schema.name.endswith(".out") or func._overloadname.endswith("out"):
                out = kw.pop("out")
                r = h(func, args, kw)
                return _assign(out, terms(r))
            return h(func, args, kw)
        if name in MOVE:
            return move(func, args, kw, name)
        if name in VALUE_MOVE:
            return value_move(func, args, kw, name)
        if name in WRITE_MOVE:
            return write_move(func, args, kw, name)
    # composite operators decompose to handled ones
    try:
        r = func.decompose(*args, **kw)
    except NotImplementedError:
        r = NotImplemented
    if r is not NotImplemented:
        return r
    NOT_IMPL.add(str(func))
    raise Unsupported("torch operator %s" % func)


class _nullcontext:
    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


FACTORY = {"zeros", "ones", "empty", "full", "eye", "arange", "linspace", "scalar_tensor", "rand", "randn", "zeros_like",
           "empty_strided", "ones_like", "full_like", "empty_like"}


class Mode(TorchDispatchMode):
    """floating point factories called by the library produce symbolic tensors"""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = _name(func)
        if _symlists(args) is not None or _symlists(kwargs.values()) is not None:
            return dispatch(func, args, kwargs)
        r = func(*args, **kwargs)
        if name in FACTORY and isinstance(r, torch.Tensor) and (r.dtype.is_floating_point or r.dtype.is_complex):
            if name.startswith("empty"):
                r.zero_()
            return sym(r)
        return r


def inputs(name, shape, values, dtype=torch.float64, requires_grad=False):
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        o[i] = al.new_input(name + "_" + "_".join(map(str, i)), values[i])
    return wrap_inputs(o, dtype, requires_grad)


def wrap_inputs(o, dtype=torch.float64, requires_grad=False):
    flat = [tid(v) for v in o.ravel()]
    ids = torch.tensor(flat, dtype=torch.int64).reshape(tuple(o.shape))
    r = SymT(ids, dtype)
    if requires_grad:
        r.requires_grad_(True)
    return r
