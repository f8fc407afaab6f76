"""Symbolic numpy: an ndarray subclass of exact symbolic values, plus patched
constructors, linear algebra and transforms, so that the library's own numpy
code runs unchanged on symbolic signals."""
import functools
import math
import types

import numpy as np
import scipy
import scipy.fft as sfft
import scipy.linalg as slinalg
import scipy.optimize as sopt

from . import algebra as al
from .algebra import RF, ZERO, ONE, Unsupported, lift

ACTIVE = False
ORIG = {}  # (module name, attr) -> original


def o_(f):
    return getattr(f, "_vp_orig", f)


_empty = np.empty
_asarray = np.asarray
_array = np.array
_frompyfunc = np.frompyfunc


class SymArray(np.ndarray):
    """object ndarray whose entries are RF or special floats"""

    _cplx = False

    def __array_finalize__(self, obj):
        self._cplx = getattr(obj, "_cplx", False)

    # logical dtype
    @property
    def dtype(self):
        return np.dtype("complex128" if self._cplx else "float64")

    @property
    def itemsize(self):
        return 16 if self._cplx else 8

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        f = FUNCS.get(func)
        if f is None:
            f = FUNCS.get(o_(func))
        if f is not None:
            return f(*args, **kwargs)
        impl = getattr(func, "_implementation", None)
        if impl is None:
            raise Unsupported("numpy function %s" % getattr(func, "__name__", func))
        if func.__name__ in _NATIVE_OK:
            return _fix(impl(*[_c_in(a) for a in args], **kwargs))
        return impl(*args, **kwargs)

    # -- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return _reduce(self, axis, keepdims, al.fsum, where=where, initial=initial, out=out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        def f(xs):
            return al.div(al.fsum(xs), lift(len(xs)))

        return _reduce(self, axis, keepdims, f, out=out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return _reduce(self, axis, keepdims, lambda xs: functools.reduce(al.mul, xs, ONE), where=where, initial=initial)

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        if self.size == 0 and initial is None:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        return _reduce(self, axis, keepdims, lambda xs: functools.reduce(al.minimum, xs), where=where, initial=initial)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        if self.size == 0 and initial is None:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        return _reduce(self, axis, keepdims, lambda xs: functools.reduce(al.maximum, xs), where=where, initial=initial)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        s = (d * d).sum(axis=axis, keepdims=keepdims)
        n = self.size if axis is None else np.prod([self.shape[a] for a in np.atleast_1d(axis)])
        return s / (int(n) - ddof)

    def std(self, *a, **k):
        return np.sqrt(self.var(*a, **k))

    def _arg(self, axis, keepdims, better):
        def f(xs):
            b = 0
            for i in range(1, len(xs)):
                if al.isnan(xs[b]):
                    break
                if al.isnan(xs[i]) or better(xs[i], xs[b]):
                    b = i
            return b

        r = _reduce(self, axis, keepdims, f, raw=True)
        return _array(np.ndarray.tolist(r), dtype=np.int64) if isinstance(r, np.ndarray) else np.int64(r)

    def argmin(self, axis=None, out=None, *, keepdims=False):
        return self._arg(axis, keepdims, al.lt)

    def argmax(self, axis=None, out=None, *, keepdims=False):
        return self._arg(axis, keepdims, lambda a, b: al.lt(b, a))

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return (self != 0).any(axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return (self != 0).all(axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return array_ufunc(np.add, "accumulate", (self.ravel() if axis is None else self,), {"axis": axis or 0})

    def dot(self, b, out=None):
        return _dot(self, b)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return self.diagonal(offset, axis1, axis2).sum(axis=-1)

    def clip(self, min=None, max=None, out=None, **k):
        return _clip(self, min, max, out)

    def round(self, *a, **k):
        raise Unsupported("round")

    def sort(self, *a, **k):
        raise Unsupported("sort in place")

    def nonzero(self):
        return (self != 0).nonzero()

    def conj(self):
        return _map1(al.conj, self, cplx=self._cplx)

    conjugate = conj

    @property
    def real(self):
        if not self._cplx:
            return self
        return _map1(al.re_part, self, cplx=False)

    @real.setter
    def real(self, v):
        self[...] = v + 1j * self.imag if self._cplx else v

    @property
    def imag(self):
        return _map1(al.im_part, self, cplx=False)

    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j * v

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if dt.kind == "b":
            return self != 0
        if dt.kind == "O":
            dt = self.dtype
        if dt.kind not in "fc":
            if all(isinstance(x, RF) and x.is_const() for x in np.ndarray.ravel(_raw(self))):
                return tofloat(self).astype(dtype)
            raise Unsupported("astype %s of symbolic values" % dtype)
        if dt.itemsize < (8 if dt.kind == "f" else 16):
            raise Unsupported("cast of symbolic values to single precision")
        r = self.copy()
        if dt.kind == "c":
            r._cplx = True
        elif self._cplx:
            r = r.real
        return r

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(self)
        if a and isinstance(a[0], type):
            if issubclass(a[0], SymArray):
                return np.ndarray.view(self, a[0])
            if a[0] is np.ndarray:
                return self
        raise Unsupported("dtype view")

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    def __setitem__(self, key, value):
        if isinstance(value, SymArray):
            if value._cplx and not self._cplx and any(
                isinstance(x, RF) and al._maybe_complex(x) for x in _raw(value).ravel()
            ):
                value = value.real
            np.ndarray.__setitem__(self, key, value)
            return
        if isinstance(value, np.ndarray):
            value = sym(value)
        elif isinstance(value, (list, tuple)):
            value = sym(_listarr(value))
        else:
            value = lift(value)
            v = _empty((), dtype=object)
            v[()] = value
            value = v
        np.ndarray.__setitem__(self, key, value)

    def fill(self, v):
        self[...] = v

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(self.reshape(-1)[0] != 0)

    def __float__(self):
        return float(self.reshape(-1)[0])

    def __reduce__(self):
        raise Unsupported("pickle")

    def __deepcopy__(self, memo):
        return self.copy()


def _listarr(v):
    flat = []

    def shp(x):
        if isinstance(x, (list, tuple)):
            s = shp(x[0]) if x else ()
            return (len(x),) + s
        if isinstance(x, np.ndarray):
            return x.shape
        return ()

    def walk(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, np.ndarray):
            flat.extend(_raw(x).ravel().tolist() if isinstance(x, SymArray) else x.ravel().tolist())
        else:
            flat.append(x)

    s = shp(v)
    walk(v)
    out = _empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        out[i] = x
    return out.reshape(s)


def _raw(x):
    return np.ndarray.view(x, np.ndarray)


def wrap(raw, cplx=False):
    r = np.ndarray.view(raw, SymArray)
    r._cplx = cplx
    return r


def _is_cplx(raw):
    for x in raw.ravel():
        if isinstance(x, RF) and al._maybe_complex(x):
            return True
        if isinstance(x, complex):
            return True
    return False


def sym(x, cplx=None):
    """anything -> SymArray"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, RF):
        raw = _empty((), dtype=object)
        raw[()] = x
        return wrap(raw, al._maybe_complex(x) if cplx is None else cplx)
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, (RF, SymArray, list, tuple)) for y in x):
            x = _listarr(x)
        else:
            x = _array(x)
    x = _asarray(x)
    if x.dtype == object:
        raw = _empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            raw[i] = lift(x[i])
        return wrap(raw, _is_cplx(raw) if cplx is None else cplx)
    raw = _empty(x.shape, dtype=object)
    single = x.dtype.kind == "f" and x.dtype.itemsize < 8
    flat = raw.reshape(-1)
    for i, v in enumerate(x.ravel().tolist()):
        flat[i] = lift(v, single)
    return wrap(raw.reshape(x.shape), (x.dtype.kind == "c") if cplx is None else cplx)


def _copy_layout(x):
    return x


def has_sym(*xs):
    for x in xs:
        if isinstance(x, (SymArray, RF)):
            return True
        if isinstance(x, (list, tuple)) and has_sym(*x):
            return True
    return False


def tofloat(x):
    """shadow values"""
    if isinstance(x, SymArray):
        out = _empty(x.shape, dtype=x.dtype)
        r = _raw(x)
        for i in np.ndindex(x.shape):
            v = r[i]
            v = v.shadow() if isinstance(v, RF) else v
            if isinstance(v, complex) and not x._cplx:
                v = v.real
            out[i] = v
        return out
    if isinstance(x, RF):
        return x.shadow()
    return x


def _map1(f, x, cplx=None):
    r = _raw(x)
    out = _empty(r.shape, dtype=object)
    fo = out.reshape(-1)
    for i, v in enumerate(r.ravel()):
        fo[i] = f(v)
    return wrap(out, x._cplx if cplx is None else cplx)


def _scalarize(a):
    if isinstance(a, np.ndarray) and a.shape == ():
        v = a[()]
        return v
    return a


def _reduce(x, axis, keepdims, f, where=True, initial=None, out=None, raw=False):
    x = sym(x)
    r = _raw(x)
    nd = r.ndim
    if axis is None:
        axes = tuple(range(nd))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(a % nd for a in axis)
    else:
        if nd == 0 and axis in (0, -1):
            axes = ()
        else:
            if not -nd <= axis < nd:
                raise np.AxisError(axis, nd)
            axes = (axis % nd,)
    if where is not True:
        raise Unsupported("where in reduction")
    rest = [a for a in range(nd) if a not in axes]
    t = r.transpose(rest + list(axes)) if nd else r
    shp = tuple(r.shape[a] for a in rest)
    n = 1
    for a in axes:
        n *= r.shape[a]
    t2 = _empty(shp + (n,), dtype=object)
    t2[...] = t.reshape(shp + (n,)) if t.size else t2
    o = _empty(shp, dtype=object)
    for i in np.ndindex(shp):
        l = list(t2[i])
        if initial is not None:
            l = [lift(initial)] + l
        o[i] = f(l)
    if keepdims:
        o = o.reshape(tuple(1 if a in axes else r.shape[a] for a in range(nd)))
    if raw:
        return o if o.shape else o[()]
    res = wrap(o, x._cplx)
    if out is not None:
        out[...] = res
        return out
    return res if res.shape else res[()]


# ----------------------------------------------------------------------------
# ufuncs


def _ceil_like(fn):
    def f(a):
        if type(a) is float:
            return a
        if a.is_const():
            return lift(fn(a.const_value()))
        raise Unsupported("rounding of a symbolic value")

    return f


def _sign(a):
    if al.isnan(a):
        return al.NAN
    return lift(al._sgn(a))


def _log(a):
    v = al.ln(a)
    return v


LN10_R = al.lift(al.LN10)


UN = {
    "negative": al.neg,
    "positive": lambda a: a,
    "absolute": al.absval,
    "fabs": al.absval,
    "sqrt": al.sqrt,
    "square": lambda a: al.mul(a, a),
    "reciprocal": lambda a: al.div(ONE, a),
    "log10": al.log10,
    "conjugate": al.conj,
    "log": _log,
    "log2": lambda a: al.mul(al.log10(a), lift(math.log2(10.0))) if not isinstance(al.log10(a), float) else al.log10(a),
    "exp": None,
    "sign": _sign,
    "ceil": _ceil_like(math.ceil),
    "floor": _ceil_like(math.floor),
    "rint": _ceil_like(round),
    "deg2rad": None,
}
BIN = {
    "add": al.add,
    "subtract": al.sub,
    "multiply": al.mul,
    "divide": al.div,
    "true_divide": al.div,
    "power": al.power,
    "float_power": al.power,
    "maximum": al.maximum,
    "minimum": al.minimum,
    "fmax": lambda a, b: b if al.isnan(a) else (a if al.isnan(b) else al.maximum(a, b)),
    "fmin": lambda a, b: b if al.isnan(a) else (a if al.isnan(b) else al.minimum(a, b)),
    "hypot": lambda a, b: al.sqrt(al.add(al.mul(a, a), al.mul(b, b))),
    "copysign": lambda a, b: al.absval(a) if not al.lt(b, ZERO) else al.neg(al.absval(a)),
}
PREDU = {
    "isnan": al.isnan,
    "isinf": al.isinf,
    "isfinite": lambda a: not (al.isnan(a) or al.isinf(a)),
    "logical_not": lambda a: al.eq(a, ZERO),
    "signbit": lambda a: al.lt(a, ZERO),
}


def _nanany(a, b):
    return al.isnan(a) or al.isnan(b)


PREDB = {
    "less": lambda a, b: (not _nanany(a, b)) and al.lt(a, b),
    "less_equal": lambda a, b: (not _nanany(a, b)) and not al.lt(b, a),
    "greater": lambda a, b: (not _nanany(a, b)) and al.lt(b, a),
    "greater_equal": lambda a, b: (not _nanany(a, b)) and not al.lt(a, b),
    "equal": lambda a, b: (not _nanany(a, b)) and al.eq(a, b),
    "not_equal": lambda a, b: _nanany(a, b) or not al.eq(a, b),
    "logical_and": lambda a, b: not al.eq(a, ZERO) and not al.eq(b, ZERO),
    "logical_or": lambda a, b: not al.eq(a, ZERO) or not al.eq(b, ZERO),
    "logical_xor": lambda a, b: al.eq(a, ZERO) != al.eq(b, ZERO),
}


def _unwrap_in(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, RF):
        return sym(x)
    return sym(x)


def array_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    if out is not None and isinstance(out, tuple):
        out = out[0]
    where = kwargs.pop("where", True)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    kwargs.pop("order", None)
    kwargs.pop("subok", None)
    if name == "matmul" and method == "__call__":
        r = _matmul(inputs[0], inputs[1])
        return _put(out, r)
    if name == "vecdot" and method == "__call__":
        return _put(out, _einsum("...i,...i->...", np.conj(sym(inputs[0])), inputs[1]))
    if method == "reduce":
        axis = kwargs.pop("axis", 0)
        keepdims = kwargs.pop("keepdims", False)
        initial = kwargs.pop("initial", None)
        if initial is np._NoValue:
            initial = None
        if keepdims is np._NoValue:
            keepdims = False
        x = sym(inputs[0])
        if name == "add":
            f = al.fsum
        elif name in BIN:
            f = lambda xs: functools.reduce(BIN[name], xs)
        elif name in ("logical_and", "logical_or"):
            b = x != 0
            return getattr(np, name).reduce(b, axis=axis, keepdims=keepdims)
        else:
            raise Unsupported("ufunc %s.reduce" % name)
        return _reduce(x, axis, bool(keepdims), f, where=where, initial=initial, out=out)
    if method == "accumulate":
        axis = kwargs.pop("axis", 0)
        x = sym(inputs[0])
        r = np.ndarray.copy(x)
        r = np.moveaxis(_raw(r), axis, 0)
        for i in range(1, r.shape[0]):
            a, b = r[i - 1], r[i]
            for j in np.ndindex(a.shape):
                b[j] = BIN[name](a[j], b[j])
        return _put(out, wrap(np.moveaxis(r, 0, axis), x._cplx))
    if method == "outer":
        a, b = sym(inputs[0]), sym(inputs[1])
        return _put(out, array_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), {}))
    if method == "at":
        a = inputs[0]
        idx = inputs[1]
        iarr = np.arange(a.size).reshape(a.shape)[idx]
        if len(inputs) > 2:
            vals = np.broadcast_to(_raw(sym(inputs[2])), iarr.shape)
            fl = _raw(a)
            for j, p in zip(iarr.ravel(), vals.ravel()):
                p2 = np.unravel_index(j, a.shape)
                fl[p2] = BIN[name](fl[p2], p)
        else:
            fl = _raw(a)
            for j in iarr.ravel():
                p2 = np.unravel_index(j, a.shape)
                fl[p2] = UN[name](fl[p2])
        return None
    if method != "__call__":
        raise Unsupported("ufunc method %s" % method)
    if out is not None and not isinstance(out, SymArray) and name not in PREDB and name not in PREDU:
        raise Unsupported("symbolic result written to a concrete array")
    pred = False
    if len(inputs) == 1:
        f = UN.get(name)
        if f is None:
            f = PREDU.get(name)
            pred = True
        if f is None:
            raise Unsupported("ufunc %s" % name)
        x = sym(inputs[0])
        r = _raw(x)
        o = _empty(r.shape, dtype=object)
        fo = o.reshape(-1)
        for i, v in enumerate(r.ravel()):
            fo[i] = f(v)
        cplx = x._cplx and name not in ("absolute",)
    else:
        f = BIN.get(name)
        if f is None:
            f = PREDB.get(name)
            pred = True
        if f is None:
            raise Unsupported("ufunc %s" % name)
        a, b = sym(inputs[0]), sym(inputs[1])
        ra, rb = np.broadcast_arrays(_raw(a), _raw(b))
        if where is not True:
            w = np.broadcast_to(where, ra.shape)
            base = _raw(out) if out is not None else None
        o = _empty(ra.shape, dtype=object)
        fo = o.reshape(-1)
        if where is not True:
            wl = w.ravel()
            bl = np.broadcast_to(base, ra.shape).ravel() if base is not None else [ZERO] * o.size
            for i, (u, v) in enumerate(zip(ra.ravel(), rb.ravel())):
                fo[i] = f(u, v) if wl[i] else bl[i]
        else:
            for i, (u, v) in enumerate(zip(ra.ravel(), rb.ravel())):
                fo[i] = f(u, v)
        cplx = a._cplx or b._cplx
    o = fo.reshape(o.shape)
    if pred:
        res = _array(o.tolist(), dtype=bool).reshape(o.shape)
        if out is not None:
            out[...] = res
            return out
        return res if res.shape else np.bool_(res[()])
    res = wrap(o, cplx)
    if out is not None:
        out[...] = res
        return out
    return res if res.shape else res[()]


def _put(out, r):
    if out is not None:
        out[...] = r
        return out
    return r


# ----------------------------------------------------------------------------
# array functions

FUNCS = {}
_NATIVE_OK = {
    "concatenate",
    "copyto",
    "ravel_multi_index",
    "shares_memory",
    "may_share_memory",
}


def _c_in(a):
    return a


def _fix(r):
    return r


def func(*names, mod=np):
    def deco(f):
        for n in names:
            m = mod
            for part in n.split("."):
                m = getattr(m, part)
            FUNCS[m] = f
        return f

    return deco


def _einsum_core(spec, ops):
    ops = [sym(x) for x in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, outs = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins.replace("...", "").replace(",", "")]
        outs = ("..." if "..." in ins else "") + "".join(
            sorted(c for c in set(letters) if letters.count(c) == 1)
        )
    ins = ins.split(",")
    cplx = any(x._cplx for x in ops)
    # expand the ellipsis
    nell = 0
    for s, x in zip(ins, ops):
        if "..." in s:
            nell = max(nell, x.ndim - (len(s) - 3))
    ell = [chr(0x4E00 + i) for i in range(nell)]
    dims = {}
    subs = []
    for s, x in zip(ins, ops):
        if "..." in s:
            k = x.ndim - (len(s) - 3)
            i = s.index("...")
            idx = list(s[:i]) + ell[nell - k:] + list(s[i + 3:])
        else:
            idx = list(s)
        if len(idx) != x.ndim:
            raise ValueError("einsum: operand has wrong number of dimensions")
        for c, n in zip(idx, x.shape):
            if dims.get(c, 1) == 1:
                dims[c] = n
            elif n != 1 and n != dims[c]:
                raise ValueError("operands could not be broadcast together in einsum")
        subs.append(idx)
    oi = []
    i = 0
    while i < len(outs):
        if outs[i:i + 3] == "...":
            oi += ell
            i += 3
        else:
            oi.append(outs[i])
            i += 1
    sumi = [c for c in dims if c not in oi]
    out = _empty(tuple(dims[c] for c in oi), dtype=object)
    raws = [_raw(x) for x in ops]
    sr = [range(dims[c]) for c in sumi]
    import itertools

    for o in np.ndindex(out.shape):
        env = dict(zip(oi, o))
        terms = []
        for s in itertools.product(*sr):
            env.update(zip(sumi, s))
            v = None
            for idx, x in zip(subs, raws):
                e = x[tuple(env[c] if x.shape[j] != 1 else 0 for j, c in enumerate(idx))]
                if isinstance(e, RF) and not e.num:
                    # zero times finite
                    pass
                v = e if v is None else al.mul(v, e)
            terms.append(v)
        out[o] = al.fsum(terms)
    return wrap(out, cplx)


def _einsum(spec, *ops, out=None, optimize=False, **k):
    if not isinstance(spec, str):
        raise Unsupported("einsum operand form")
    r = _einsum_core(spec, ops)
    if out is not None:
        out[...] = r
        return out
    return r if r.shape else r[()]


func("einsum")(_einsum)


def _matmul(a, b, out=None, **k):
    a, b = sym(a), sym(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    if a.ndim == 1 and b.ndim == 1:
        return _put(out, _einsum("i,i->", a, b))
    if a.ndim == 1:
        return _put(out, _einsum("i,...ij->...j", a, b))
    if b.ndim == 1:
        return _put(out, _einsum("...ij,j->...i", a, b))
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: mismatch in core dimension")
    return _put(out, _einsum("...ij,...jk->...ik", a, b))


func("matmul")(_matmul)


@func("dot")
def _dot(a, b, out=None):
    a, b = sym(a), sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        return _put(out, _einsum("...i,i->...", a, b))
    if a.ndim <= 2 and b.ndim == 2:
        return _put(out, _matmul(a, b))
    raise Unsupported("dot")


@func("inner")
def _inner(a, b):
    a, b = sym(a), sym(b)
    if a.ndim == 1 and b.ndim == 1:
        return _einsum("i,i->", a, b)
    return np.tensordot(a, b, axes=(-1, -1))


@func("vdot")
def _vdot(a, b):
    return _einsum("i,i->", sym(a).ravel().conj(), sym(b).ravel())


@func("outer")
def _outer(a, b, out=None):
    return _einsum("i,j->ij", sym(a).ravel(), sym(b).ravel())


@func("sum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if keepdims is np._NoValue:
        keepdims = False
    if initial is np._NoValue:
        initial = None
    return sym(a).sum(axis=axis, keepdims=keepdims, out=out, initial=initial)


def _red(name):
    def f(a, axis=None, *args, keepdims=False, **k):
        if keepdims is np._NoValue:
            keepdims = False
        k = {x: y for x, y in k.items() if y is not np._NoValue and x in ("initial",)}
        return getattr(sym(a), name)(axis=axis, keepdims=keepdims, **k)

    return f


for _n, _m in [("mean", "mean"), ("prod", "prod"), ("amin", "min"), ("amax", "max"), ("min", "min"), ("max", "max"),
               ("argmin", "argmin"), ("argmax", "argmax"), ("any", "any"), ("all", "all"), ("var", "var"), ("std", "std"),
               ("nanmin", "min"), ("nanmax", "max")]:
    FUNCS[getattr(np, _n)] = _red(_m)


@func("nan_to_num")
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = sym(x)

    def f(v):
        if al.isnan(v):
            return lift(nan)
        if v is al.INF or (type(v) is float and v > 0):
            return lift(1.7976931348623157e308 if posinf is None else posinf)
        if type(v) is float:
            return lift(-1.7976931348623157e308 if neginf is None else neginf)
        return v

    r = _map1(f, x)
    if not copy:
        x[...] = r
        return x
    return r if r.shape else r[()]


@func("clip")
def _clip(a, a_min=None, a_max=None, out=None, **k):
    r = sym(a)
    if "min" in k:
        a_min = k["min"]
    if "max" in k:
        a_max = k["max"]
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return _put(out, r)


@func("where")
def _where(c, x=None, y=None):
    c = _truth(c)
    if x is None and y is None:
        return np.nonzero(c)
    x, y = sym(x), sym(y)
    c2, rx, ry = np.broadcast_arrays(c, _raw(x), _raw(y))
    o = _empty(c2.shape, dtype=object)
    for i in np.ndindex(o.shape):
        o[i] = rx[i] if c2[i] else ry[i]
    return wrap(o, x._cplx or y._cplx)


def _truth(c):
    if isinstance(c, (SymArray, RF)):
        return sym(c) != 0
    return np.asarray(c, dtype=bool)


@func("real")
def _np_real(x):
    return sym(x).real


@func("imag")
def _np_imag(x):
    return sym(x).imag


@func("isneginf")
def _isneginf(x, out=None):
    x = sym(x)
    r = _raw(x)
    o = _empty(r.shape, dtype=bool)
    for i in np.ndindex(r.shape):
        o[i] = type(r[i]) is float and r[i] == -al.INF
    return o if o.shape else np.bool_(o[()])


@func("isposinf")
def _isposinf(x, out=None):
    x = sym(x)
    r = _raw(x)
    o = _empty(r.shape, dtype=bool)
    for i in np.ndindex(r.shape):
        o[i] = type(r[i]) is float and r[i] == al.INF
    return o if o.shape else np.bool_(o[()])


@func("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = sym(a), sym(b)
    return np.abs(a - b) <= atol + rtol * np.abs(b)


@func("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(_isclose(a, b, rtol, atol)))


@func("array_equal")
def _array_equal(a, b, equal_nan=False):
    a, b = sym(a), sym(b)
    return a.shape == b.shape and bool((a == b).all())


@func("iscomplexobj")
def _iscomplexobj(x):
    return sym(x)._cplx


@func("isrealobj")
def _isrealobj(x):
    return not sym(x)._cplx


@func("result_type")
def _result_type(*xs):
    return np.dtype("complex128") if any(isinstance(x, SymArray) and x._cplx for x in xs) else np.dtype("float64")


@func("can_cast")
def _can_cast(*a, **k):
    return True


def _zeros_sym(shape, cplx=False, val=ZERO):
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    raw = _empty(tuple(int(s) for s in shape), dtype=object)
    raw.fill(val)
    return wrap(raw, cplx)


def _like_dtype(a, dtype):
    if dtype is None:
        return sym(a)._cplx, None
    dt = np.dtype(dtype)
    if dt.kind in "fc":
        return dt.kind == "c", None
    if dt.kind == "O":
        return sym(a)._cplx, None
    return False, dt


def _mk_like(val):
    def f(a, dtype=None, order="K", subok=True, shape=None):
        c, dt = _like_dtype(a, dtype)
        shp = a.shape if shape is None else shape
        if dt is not None:
            r = ORIG_np("zeros")(shp, dtype=dt)
            r[...] = 1 if val is ONE else 0
            return r
        return _zeros_sym(shp, c, val)

    return f


FUNCS[np.zeros_like] = _mk_like(ZERO)
FUNCS[np.ones_like] = _mk_like(ONE)
FUNCS[np.empty_like] = _mk_like(ZERO)


@func("full_like")
def _full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    c, dt = _like_dtype(a, dtype)
    shp = a.shape if shape is None else shape
    if dt is not None:
        return ORIG_np("full")(shp, fill_value, dtype=dt)
    r = _zeros_sym(shp, c)
    r[...] = fill_value
    return r


@func("concatenate")
def _concatenate(arrs, axis=0, out=None, dtype=None, casting=None):
    arrs = [sym(a) for a in arrs]
    cplx = any(a._cplx for a in arrs)
    r = np.concatenate([_raw(a) for a in arrs], axis=axis)
    return _put(out, wrap(r, cplx))


@func("copyto")
def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        w = np.broadcast_to(where, dst.shape)
        s = np.broadcast_to(_raw(sym(src)), dst.shape)
        for i in np.ndindex(dst.shape):
            if w[i]:
                dst[i] = s[i]


@func("putmask")
def _putmask(a, mask, values):
    a[mask] = values


@func("lib.stride_tricks.as_strided")
def _as_strided(x, shape=None, strides=None, subok=False, writeable=True):
    x = sym(x)
    r = _raw(x)
    # strides given for the logical dtype are those of the object array (8 bytes)
    o = o_as_strided(r, shape=shape, strides=strides)
    return wrap(o, x._cplx)


o_as_strided = np.lib.stride_tricks.as_strided


@func("sort")
def _sort(a, axis=-1, kind=None, order=None, **k):
    a = sym(a)
    r = np.moveaxis(_raw(a.copy()), axis, -1)
    for i in np.ndindex(r.shape[:-1]):
        l = sorted(list(r[i]), key=functools.cmp_to_key(lambda u, v: -1 if al.lt(u, v) else (1 if al.lt(v, u) else 0)))
        for j, v in enumerate(l):
            r[i + (j,)] = v
    return wrap(np.moveaxis(r, -1, axis), a._cplx)


@func("argsort")
def _argsort(a, axis=-1, kind=None, order=None, **k):
    a = sym(a)
    r = np.moveaxis(_raw(a), axis, -1)
    o = _empty(r.shape, dtype=np.int64)
    for i in np.ndindex(r.shape[:-1]):
        l = list(r[i])
        o[i] = sorted(
            range(len(l)),
            key=functools.cmp_to_key(lambda u, v: -1 if al.lt(l[u], l[v]) else (1 if al.lt(l[v], l[u]) else 0)),
        )
    return np.moveaxis(o, -1, axis)


@func("interp", "histogram", "unwrap", "angle", "convolve", "correlate", "round", "around", "unique", "searchsorted")
def _unsup(*a, **k):
    raise Unsupported("numpy function outside the encoded set")


def _conv_full(a, v):
    a, v = list(_raw(sym(a)).ravel()), list(_raw(sym(v)).ravel())
    n = len(a) + len(v) - 1
    out = []
    for k in range(n):
        out.append(al.fsum([al.mul(a[i], v[k - i]) for i in range(len(a)) if 0 <= k - i < len(v)]))
    return out


def _convmode(full, la, lv, mode):
    if mode == "full":
        return full
    if mode == "same":
        n = max(la, lv)
        s = (len(full) - n) // 2
        return full[s:s + n]
    n = max(la, lv) - min(la, lv) + 1
    s = min(la, lv) - 1
    return full[s:s + n]


@func("convolve")
def _convolve(a, v, mode="full"):
    return sym(_convmode(_conv_full(a, v), len(a), len(v), mode))


@func("correlate")
def _correlate(a, v, mode="valid"):
    return sym(_convmode(_conv_full(a, sym(v)[::-1].conj()), len(a), len(v), mode))


# -- linear algebra


def _batched(arrs, cores):
    shp = np.broadcast_shapes(*[a.shape[: a.ndim - c] for a, c in zip(arrs, cores)])
    outs = []
    for a, c in zip(arrs, cores):
        outs.append(np.broadcast_to(_raw(a), shp + a.shape[a.ndim - c:]))
    return shp, outs


@func("linalg.solve")
def _solve(a, b, *args, **k):
    a, b = sym(a), sym(b)
    vec = b.ndim == a.ndim - 1
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if vec:
        b2 = b[..., None]
    else:
        b2 = b
    if b2.shape[-2] != a.shape[-1]:
        raise ValueError("solve: mismatch in core dimension")
    shp, (ra, rb) = _batched([a, b2], [2, 2])
    o = _empty(rb.shape, dtype=object)
    for i in np.ndindex(shp):
        try:
            xs = al.solve_many([list(r) for r in ra[i]], [list(rb[i][:, j]) for j in range(rb.shape[-1])])
        except al.SingularSystem:
            raise np.linalg.LinAlgError("Singular matrix")
        for j, x in enumerate(xs):
            for l, v in enumerate(x):
                o[i + (l, j)] = v
    r = wrap(o, a._cplx or b._cplx)
    return r[..., 0] if vec else r


@func("linalg.inv")
def _inv(a):
    a = sym(a)
    o = _empty(a.shape, dtype=object)
    ra = _raw(a)
    for i in np.ndindex(a.shape[:-2]):
        try:
            x = al.inverse([list(r) for r in ra[i]])
        except al.SingularSystem:
            raise np.linalg.LinAlgError("Singular matrix")
        for p, row in enumerate(x):
            for q, v in enumerate(row):
                o[i + (p, q)] = v
    return wrap(o, a._cplx)


@func("linalg.pinv")
def _pinv(a, *args, **k):
    return _inv(a)


@func("linalg.lstsq")
def _lstsq(a, b, rcond=None):
    a, b = sym(a), sym(b)
    ah = a.conj().T
    x = _solve(_matmul(ah, a), _matmul(ah, b))
    return x, None, a.shape[-1], None


@func("linalg.det")
def _det(a):
    a = sym(a)
    ra = _raw(a)
    o = _empty(a.shape[:-2], dtype=object)
    for i in np.ndindex(o.shape):
        o[i] = al.det([list(r) for r in ra[i]])
    r = wrap(o, a._cplx)
    return r if r.shape else r[()]


@func("linalg.norm")
def _norm(x, ord=None, axis=None, keepdims=False):
    x = sym(x)
    if ord in (None, 2, "fro") and not (ord == 2 and (axis is None and x.ndim > 1)):
        sq = x.conj() * x
        if x._cplx:
            sq = sq.real
        s = sq.sum(axis=axis, keepdims=keepdims)
        return np.sqrt(s)
    if ord == 1:
        return np.abs(x).sum(axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return np.abs(x).max(axis=axis, keepdims=keepdims)
    raise Unsupported("norm order %r" % (ord,))


@func("linalg.cholesky", "linalg.eigh", "linalg.eig", "linalg.svd", "linalg.qr", "linalg.eigvalsh", "linalg.matrix_rank",
      "linalg.cond", "linalg.slogdet")
def _unsup_la(*a, **k):
    raise Unsupported("matrix decomposition")


# -- transforms


def _norm_scale(norm, n, inverse):
    if norm in (None, "backward"):
        return None if not inverse else None
    if norm == "forward":
        return "fwd"
    raise Unsupported("fft norm %r" % norm)


def _fft_axis(x, n, axis, f, cplx, n_default):
    x = sym(x)
    r = np.moveaxis(_raw(x), axis, -1)
    o = None
    for i in np.ndindex(r.shape[:-1]):
        v = f(list(r[i]))
        if o is None:
            o = _empty(r.shape[:-1] + (len(v),), dtype=object)
        for j, e in enumerate(v):
            o[i + (j,)] = e
    return wrap(np.moveaxis(o, -1, axis), cplx)


def _rfft(x, n=None, axis=-1, norm=None, *a, **k):
    x = sym(x)
    if n is None:
        n = x.shape[axis]
    n = int(n)
    if norm not in (None, "backward"):
        raise Unsupported("fft norm")
    return _fft_axis(x, n, axis, lambda l: al.rfft(l, n), True, None)


def _irfft(x, n=None, axis=-1, norm=None, *a, **k):
    x = sym(x)
    if n is None:
        n = 2 * (x.shape[axis] - 1)
    n = int(n)
    if norm not in (None, "backward"):
        raise Unsupported("fft norm")
    return _fft_axis(x, n, axis, lambda l: al.irfft(l, n), False, None)


def _cfft(sign, scale):
    def f(x, n=None, axis=-1, norm=None, *a, **k):
        x = sym(x)
        if n is None:
            n = x.shape[axis]
        n = int(n)
        if norm not in (None, "backward"):
            raise Unsupported("fft norm")

        def g(l):
            l = l[:n] + [ZERO] * (n - len(l))
            return al.dft(l, n, range(n), sign=sign, scale=al.Fraction(1, n) if scale else None)

        return _fft_axis(x, n, axis, g, True, None)

    return f


_fftf = _cfft(-1, False)
_ifftf = _cfft(1, True)

FUNCS[np.fft.rfft] = _rfft
FUNCS[np.fft.irfft] = _irfft
FUNCS[np.fft.fft] = _fftf
FUNCS[np.fft.ifft] = _ifftf


# -- assignment (scipy C code): contract stub


def permutation_cost(mat, rows, cols):
    return al.fsum([mat[i][j] for i, j in zip(rows, cols)])


ASSIGN_LOG = []


def lsa_stub(cost_matrix, maximize=False):
    """contract of scipy.optimize.linear_sum_assignment: some one-to-one
    assignment of minimal total cost (rows increasing); decided at the witness,
    recorded in the path condition."""
    import itertools

    m = sym(cost_matrix)
    if m.ndim != 2:
        raise ValueError("expected a matrix (2-D array), got a %d array" % m.ndim)
    if m._cplx:
        raise Unsupported("complex cost")
    r = _raw(m)
    for v in r.ravel():
        if type(v) is float and (v != v or v == -al.INF):
            raise ValueError("matrix contains invalid numeric entries")
    n, k = r.shape
    cands = []
    if n <= k:
        for p in itertools.permutations(range(k), n):
            cands.append((tuple(range(n)), p))
    else:
        for p in itertools.permutations(range(n), k):
            rows = tuple(sorted(p))
            cols = [None] * k
            inv = {row: c for c, row in enumerate(p)}
            cands.append((rows, tuple(inv[row] for row in rows)))
        cands = list(dict.fromkeys(cands))
    # assignments through an infinite cost are infeasible
    cands = [(a, b) for a, b in cands if not any(type(r[i, j]) is float for i, j in zip(a, b))]
    if not cands:
        raise ValueError("cost matrix is infeasible")
    costs = [permutation_cost(r, a, b) for a, b in cands]
    if al.CTX.explorer is not None:
        best = al.CTX.explorer.choose([al.neg(c) for c in costs] if maximize else costs)
        if best is not None:
            rows, cols = cands[best]
            return _array(rows, dtype=np.int64), _array(cols, dtype=np.int64)
    best = 0
    for i in range(1, len(cands)):
        if maximize:
            if al.lt(costs[best], costs[i]):
                best = i
        elif al.lt(costs[i], costs[best]):
            best = i
    rows, cols = cands[best]
    ASSIGN_LOG.append((m, rows, cols))
    return _array(rows, dtype=np.int64), _array(cols, dtype=np.int64)


# ----------------------------------------------------------------------------
# patching


def ORIG_np(name):
    return ORIG.get(("numpy", name), getattr(np, name))


def _patch(mod, name, make):
    orig = getattr(mod, name)
    w = make(orig)
    try:
        functools.update_wrapper(w, orig)
    except Exception:
        pass
    w._vp_orig = orig
    ORIG[(mod.__name__, name)] = orig
    setattr(mod, name, w)
    if orig in FUNCS:
        FUNCS[w] = FUNCS[orig]


def _lib_caller():
    """is the caller (two frames up) code of the library under test?"""
    import sys

    f = sys._getframe(2)
    return "fast_bss_eval" in f.f_code.co_filename


def _ctor(val):
    def make(orig):
        def f(shape, dtype=float, *a, **k):
            if ACTIVE and _lib_caller():
                dt = np.dtype(dtype) if dtype is not None else np.dtype(float)
                if dt.kind in "fcO":
                    return _zeros_sym(shape, dt.kind == "c", val)
            return orig(shape, dtype, *a, **k) if dtype is not None else orig(shape, *a, **k)

        return f

    return make


def _passthrough(symf, argn=1):
    """functions without __array_function__ dispatch (scipy): route when symbolic"""

    def make(orig):
        def f(*args, **kwargs):
            if has_sym(*args[:argn]):
                return symf(*args, **kwargs)
            return orig(*args, **kwargs)

        return f

    return make


def _array_like(orig):
    def f(obj, *a, **k):
        if ACTIVE and has_sym(obj):
            dtype = k.get("dtype", a[0] if a else None)
            fresh = isinstance(obj, SymArray)
            s = sym(obj)
            if orig.__name__ == "array" and fresh and k.get("copy", True):
                s = s.copy()
            if orig.__name__ in ("ascontiguousarray",):
                s = wrap(orig(_raw(s)), s._cplx)
            if dtype is not None and np.dtype(dtype) != s.dtype and np.dtype(dtype).kind != "O":
                s = s.astype(dtype)
            nd = k.get("ndmin", 0)
            if nd > s.ndim:
                s = s.reshape((1,) * (nd - s.ndim) + s.shape)
            return s
        return orig(obj, *a, **k)

    return f


def _mk_eye(orig):
    def f(*a, **k):
        r = orig(*a, **k)
        if ACTIVE and _lib_caller() and r.dtype.kind in "fc":
            return sym(r)
        return r

    return f


def _mk_full(orig):
    def f(shape, fill_value, *a, **k):
        if ACTIVE and _lib_caller():
            if has_sym(fill_value) or (isinstance(fill_value, float) and not a and "dtype" not in k):
                r = _zeros_sym(shape)
                r[...] = fill_value
                return r
        return orig(shape, fill_value, *a, **k)

    return f


def _mk_finfo(orig):
    return orig


_installed = False


def install():
    """patch numpy / scipy; must run before the library is imported"""
    global _installed
    if _installed:
        return
    _installed = True
    _patch(np, "zeros", _ctor(ZERO))
    _patch(np, "empty", _ctor(ZERO))
    _patch(np, "ones", _ctor(ONE))
    _patch(np, "full", _mk_full)
    _patch(np, "eye", _mk_eye)
    _patch(np, "identity", _mk_eye)
    for n in ("array", "asarray", "ascontiguousarray", "asanyarray", "asfarray"):
        if hasattr(np, n):
            _patch(np, n, _array_like)
    for n, f in [("rfft", _rfft), ("irfft", _irfft), ("fft", _fftf), ("ifft", _ifftf)]:
        _patch(sfft, n, _passthrough(f))
    _patch(np.lib.stride_tricks, "as_strided", _passthrough(_as_strided))
    _patch(np, "isneginf", _passthrough(_isneginf))
    _patch(np, "isposinf", _passthrough(_isposinf))
    _patch(sopt, "linear_sum_assignment", _passthrough(lsa_stub))

    def sl_solve(a, b, *args, **k):
        return _solve(a, b)

    def sl_toeplitz_solve(c_or_cr, b, *args, **k):
        c, r = (c_or_cr if isinstance(c_or_cr, tuple) else (c_or_cr, None))
        return _solve(sl_toeplitz(c, r), b)

    def sl_toeplitz(c, r=None):
        c = sym(c).ravel()
        r = c.conj() if r is None else sym(r).ravel()
        n, m = len(c), len(r)
        o = _empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                o[i, j] = c[i - j] if i >= j else r[j - i]
        return wrap(o, c._cplx)

    def sl_circulant(c):
        c = sym(c).ravel()
        n = len(c)
        o = _empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                o[i, j] = c[(i - j) % n]
        return wrap(o, c._cplx)

    _patch(slinalg, "solve", _passthrough(sl_solve, 2))
    _patch(slinalg, "inv", _passthrough(lambda a, *x, **k: _inv(a)))
    _patch(slinalg, "solve_toeplitz", _passthrough(sl_toeplitz_solve, 2))
    _patch(slinalg, "toeplitz", _passthrough(sl_toeplitz, 2))
    _patch(slinalg, "circulant", _passthrough(sl_circulant, 1))
    _patch(slinalg, "norm", _passthrough(lambda a, ord=None, axis=None, keepdims=False, **k: _norm(a, ord, axis, keepdims)))


class active:
    def __enter__(self):
        global ACTIVE
        self.prev = ACTIVE
        ACTIVE = True

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = self.prev


def inputs(name, shape, values):
    """fresh symbolic input array with the given shadow values"""
    raw = _empty(shape, dtype=object)
    for i in np.ndindex(shape):
        raw[i] = al.new_input(name + "_" + "_".join(map(str, i)), values[i])
    return wrap(raw)
