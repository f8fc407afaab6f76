"""Exact symbolic arithmetic used to execute the library on symbolic signals.

Values are real (or complex, through roots of unity) rational functions kept in
factored form:  num * prod(f ** (e/2))  where ``num`` is an expanded polynomial
over atoms and the factors ``f`` are atoms or interned polynomials.  Exponents
are stored in halves so that square roots (norms) are ordinary factors.

Atoms:
  in     an input variable (with a concrete shadow value)
  sqrt   square root of a factor, only when it must be expanded in a sum
  log    log10 of a value (uninterpreted, interned up to equality)
  solve  one component of the solution of a linear system (uninterpreted,
         interned on the equilibrated system)

+-inf and nan are carried as python floats.
"""
import cmath
import math
from decimal import Decimal
from fractions import Fraction

INF = float("inf")
NAN = float("nan")


class Unsupported(Exception):
    """the encoding does not cover this operation: inconclusive, never a verdict"""


class Ambiguous(Exception):
    """a branch could not be decided at the chosen witness"""


# ----------------------------------------------------------------------------
# coefficients: int, Fraction or Cyc (element of Q(zeta_N))


def qnorm(x):
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


_cyclo_cache = {}


def _cyclotomic(n):
    """coefficients (low to high) of the n-th cyclotomic polynomial"""
    if n in _cyclo_cache:
        return _cyclo_cache[n]
    p = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            q = _cyclotomic(d)
            # exact division p / q
            p = p[:]
            out = [0] * (len(p) - len(q) + 1)
            for i in range(len(out) - 1, -1, -1):
                c = p[i + len(q) - 1]
                out[i] = c
                for j, qc in enumerate(q):
                    p[i + j] -= c * qc
            p = out
    _cyclo_cache[n] = p
    return p


_red_cache = {}


def _red(n):
    """table e -> ((basis exponent, int coefficient), ...) for zeta_n ** e"""
    if n in _red_cache:
        return _red_cache[n]
    tab = []
    if n & (n - 1) == 0 and n > 1:
        h = n // 2
        for e in range(n):
            tab.append(((e, 1),) if e < h else ((e - h, -1),))
    else:
        phi = _cyclotomic(n)
        d = len(phi) - 1
        cur = [0] * d
        cur[0] = 1
        for e in range(n):
            tab.append(tuple((i, c) for i, c in enumerate(cur) if c))
            # multiply by zeta
            top = cur[-1]
            cur = [0] + cur[:-1]
            if top:
                for i in range(d):
                    cur[i] -= top * phi[i]
    _red_cache[n] = tab
    return tab


def cyc_make(n, raw):
    """raw: dict exponent (mod n) -> rational; returns rational or Cyc"""
    tab = _red(n)
    out = {}
    for e, c in raw.items():
        if c:
            for b, k in tab[e % n]:
                v = out.get(b, 0) + c * k
                out[b] = v
    out = {e: c for e, c in out.items() if c}
    if not out:
        return 0
    if len(out) == 1 and 0 in out:
        return qnorm(out[0])
    return Cyc(n, out)


def cyc_items(c, n):
    """exponent->coefficient items of coefficient c seen in Q(zeta_n)"""
    if type(c) is Cyc:
        if c.N == n:
            return c.c.items()
        if n % c.N:
            raise ValueError
        s = n // c.N
        return [(e * s, v) for e, v in c.c.items()]
    return ((0, c),)


class Cyc:
    __slots__ = ("N", "c")

    def __init__(self, N, c):
        self.N = N
        self.c = c

    def _lift(self, o):
        if type(o) is Cyc:
            n = self.N * o.N // math.gcd(self.N, o.N)
        else:
            n = self.N
        return n

    def __add__(self, o):
        n = self._lift(o)
        raw = dict(cyc_items(self, n))
        for e, v in cyc_items(o, n):
            raw[e] = raw.get(e, 0) + v
        return cyc_make(n, raw)

    __radd__ = __add__

    def __neg__(self):
        return Cyc(self.N, {e: -v for e, v in self.c.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is not Cyc:
            if not o:
                return 0
            return Cyc(self.N, {e: qnorm(v * o) for e, v in self.c.items()})
        n = self._lift(o)
        raw = {}
        for e1, v1 in cyc_items(self, n):
            for e2, v2 in cyc_items(o, n):
                e = (e1 + e2) % n
                raw[e] = raw.get(e, 0) + v1 * v2
        return cyc_make(n, raw)

    __rmul__ = __mul__

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is not Cyc:
            return False
        if o.N == self.N:
            return self.c == o.c
        return not (self - o)

    def __hash__(self):
        # rational trace-like invariant independent of N is overkill: use shadow
        v = self.numeric()
        return hash((round(v.real, 9), round(v.imag, 9)))

    def conj(self):
        return cyc_make(self.N, {(-e) % self.N: v for e, v in self.c.items()})

    def numeric(self):
        w = 2 * math.pi / self.N
        return sum(float(v) * cmath.exp(1j * w * e) for e, v in self.c.items())

    def inverse(self):
        """by linear algebra over Q"""
        n = self.N
        d = len(_cyclotomic(n)) - 1
        # matrix of multiplication by self in the basis 1, z, ..., z^(d-1)
        cols = []
        for j in range(d):
            raw = {}
            for e, v in self.c.items():
                raw[(e + j) % n] = raw.get((e + j) % n, 0) + v
            tab = _red(n)
            col = [Fraction(0)] * d
            for e, v in raw.items():
                for b, k in tab[e]:
                    col[b] += v * k
            cols.append(col)
        M = [[cols[j][i] for j in range(d)] + [Fraction(1 if i == 0 else 0)] for i in range(d)]
        for i in range(d):
            p = next(r for r in range(i, d) if M[r][i])
            M[i], M[p] = M[p], M[i]
            iv = 1 / M[i][i]
            M[i] = [a * iv for a in M[i]]
            for r in range(d):
                if r != i and M[r][i]:
                    f = M[r][i]
                    M[r] = [a - f * b for a, b in zip(M[r], M[i])]
        return cyc_make(n, {i: qnorm(M[i][d]) for i in range(d) if M[i][d]})

    def __repr__(self):
        return "Cyc%d%s" % (self.N, self.c)


I_UNIT = Cyc(4, {1: 1})


def cconj(c):
    return c.conj() if type(c) is Cyc else c


def cinv(c):
    if type(c) is Cyc:
        return c.inverse()
    return qnorm(Fraction(1) / c)


def cnum(c):
    return c.numeric() if type(c) is Cyc else float(c)


def snap(x, single=False):
    """exact rational meant by a floating point constant of the code (see DESIGN)"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return qnorm(x)
    x = float(x)
    if x == int(x) if abs(x) < 1e300 else False:
        return int(x)
    r = repr(x)
    mant = r.split("e")[0].replace(".", "").replace("-", "").lstrip("0")
    if len(mant) <= 9:
        return qnorm(Fraction(Decimal(r)))
    f = Fraction(x)
    g = f.limit_denominator(4096)
    tol = Fraction(1, 10**7) if single else Fraction(1, 10**14)
    if g and abs(f - g) <= tol * abs(f):
        return qnorm(g)
    # single precision decimals such as 1.0000000116860974e-07
    if single:
        d = Fraction(Decimal("%.7g" % x))
        if abs(f - d) <= tol * abs(f):
            return qnorm(d)
    return qnorm(f)


# ----------------------------------------------------------------------------
# atoms

ATOMS = []  # list of Atom


class Atom:
    __slots__ = ("id", "kind", "name", "shadow", "data", "pos")

    def __init__(self, kind, name, shadow, data=None, pos=False):
        self.id = len(ATOMS)
        self.kind = kind
        self.name = name
        self.shadow = shadow
        self.data = data
        self.pos = pos  # known to be > 0
        ATOMS.append(self)


_factor_by_key = {}
_sqrt_of = {}  # factor id -> sqrt atom id
_log_by_shadow = {}
_solve_by_key = {}
_sqrt_expanded = False


def reset():
    global _sqrt_expanded
    ATOMS.clear()
    _factor_monos.clear()
    _factor_by_key.clear()
    _sqrt_of.clear()
    _log_by_shadow.clear()
    _solve_by_key.clear()
    _sqrt_expanded = False
    _feval.clear()
    SYSTEMS.clear()
    _fdiff_cache.clear()
    _dft_memo.clear()
    _irfft_memo.clear()
    _mul_memo.clear()


# ----------------------------------------------------------------------------
# polynomials: dict  sorted tuple of atom ids -> coefficient

P_ONE = {(): 1}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    out = dict(a)
    for m, c in b.items():
        v = out.get(m)
        if v is None:
            out[m] = c
        else:
            v = v + c
            if v:
                out[m] = qnorm(v)
            else:
                del out[m]
    return out


def pscale(a, c):
    if not c:
        return {}
    if type(c) is int and c == 1:
        return a
    return {m: qnorm(v * c) for m, v in a.items()}


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    return tuple(sorted(m1 + m2))


def _denoms(p):
    """least common denominator of the coefficients"""
    d = 1
    for c in p.values():
        if type(c) is Fraction:
            d = math.lcm(d, c.denominator)
        elif type(c) is Cyc:
            for v in c.c.values():
                if type(v) is Fraction:
                    d = math.lcm(d, v.denominator)
    return d


def _toint(v, d):
    return v * d if type(v) is int else v.numerator * (d // v.denominator)


def _ints(p, d):
    """p * d with integer coefficients"""
    if d == 1:
        return p
    return {m: Cyc(c.N, {e: _toint(v, d) for e, v in c.c.items()}) if type(c) is Cyc else _toint(c, d) for m, c in p.items()}


def _over(p, d):
    """p / d"""
    def q(v):
        return v // d if v % d == 0 else Fraction(v, d)

    return {m: Cyc(c.N, {e: q(v) for e, v in c.c.items()}) if type(c) is Cyc else q(c) for m, c in p.items()}


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m1, c1), = a.items()
        if not m1:
            return pscale(b, c1)
    d = 1
    if len(a) > 2:
        da, db = _denoms(a), _denoms(b)
        d = da * db
        a, b = _ints(a, da), _ints(b, db)
    raw = {}
    for m1, c1 in a.items():
        y1 = type(c1) is Cyc
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            if (y1 or type(c2) is Cyc) and len(a) > 2:
                # coefficients of one order: reduce once at the end
                n = c1.N if y1 else c2.N
                if (not y1 or c1.N == n) and (type(c2) is not Cyc or c2.N == n):
                    acc = raw.get((m, n))
                    if acc is None:
                        acc = raw[m, n] = {}
                    for e1, v1 in (c1.c.items() if y1 else ((0, c1),)):
                        for e2, v2 in (c2.c.items() if type(c2) is Cyc else ((0, c2),)):
                            e = e1 + e2
                            if e >= n:
                                e -= n
                            acc[e] = acc.get(e, 0) + v1 * v2
                    continue
            v = raw.get(m)
            raw[m] = c1 * c2 if v is None else v + c1 * c2
    out = {}
    for k, v in raw.items():
        if type(v) is dict:
            k, n = k
            v = cyc_make(n, v)
        if v:
            if k in out:
                v = out[k] + v
                if not v:
                    del out[k]
                    continue
            out[k] = v
    if d != 1:
        out = _over(out, d)
    else:
        out = {m: qnorm(c) for m, c in out.items() if c}
    if _sqrt_expanded:
        out = _reduce_sqrt(out)
    return out


def _reduce_sqrt(p):
    """replace s*s by the polynomial under the root"""
    while True:
        bad = None
        for m in p:
            for i in range(len(m) - 1):
                if m[i] == m[i + 1] and ATOMS[m[i]].kind == "sqrt":
                    bad = True
                    break
            if bad:
                break
        if not bad:
            return p
        out = {}
        for m, c in p.items():
            hit = None
            for i in range(len(m) - 1):
                if m[i] == m[i + 1] and ATOMS[m[i]].kind == "sqrt":
                    hit = i
                    break
            if hit is None:
                terms = {m: c}
            else:
                rest = {m[:hit] + m[hit + 2:]: c}
                f = ATOMS[ATOMS[m[hit]].data]
                fp = f.data if f.kind == "poly" else {(f.id,): 1}
                terms = {}
                for m1, c1 in rest.items():
                    for m2, c2 in fp.items():
                        mm = _mono_mul(m1, m2)
                        terms[mm] = terms.get(mm, 0) + c1 * c2
            for m1, c1 in terms.items():
                v = out.get(m1, 0) + c1
                out[m1] = v
        p = {m: qnorm(c) for m, c in out.items() if c}


def ppow(a, n):
    out = P_ONE
    for _ in range(n):
        out = pmul(out, a)
    return out


def pkey(p):
    return frozenset(p.items())


def _order(m):
    return (len(m), m)


def pdiv_exact(a, f, limit=20000):
    """a / f if the division is exact, else None (graded lex order)"""
    if len(f) == 1:
        return None
    lf = max(f, key=_order)
    cf = f[lf]
    icf = cinv(cf)
    rem = dict(a)
    quo = {}
    from collections import Counter

    cl = Counter(lf)
    import heapq

    heap = [(-len(m), tuple(-x for x in m)) for m in rem]
    heapq.heapify(heap)
    steps = 0
    while rem:
        while True:
            k = heapq.heappop(heap)
            m = tuple(-x for x in k[1])
            if m in rem:
                break
        cm = Counter(m)
        for x, k in cl.items():
            if cm.get(x, 0) < k:
                return None
        cm.subtract(cl)
        q = tuple(sorted(cm.elements()))
        c = qnorm(rem[m] * icf)
        quo[q] = c
        for m2, c2 in f.items():
            mm = _mono_mul(q, m2)
            v = rem.get(mm)
            if v is None:
                rem[mm] = qnorm(-c * c2)
                heapq.heappush(heap, (-len(mm), tuple(-x for x in mm)))
            else:
                v = v - c * c2
                if v:
                    rem[mm] = qnorm(v)
                else:
                    del rem[mm]
        steps += 1
        if steps > limit:
            return None
    return quo


def peval(p):
    s = 0.0
    for m, c in p.items():
        v = cnum(c)
        for x in m:
            v *= ATOMS[x].shadow
        s += v
    return s


def _factor_shadow(fid):
    return ATOMS[fid].shadow


_feval = {}


def intern_factor(p):
    """p: polynomial with more than one term and no monomial content.
    returns (factor id, scalar) with p == scalar * factor"""
    lead = max(p, key=_order)
    c = p[lead]
    mon = p if c == 1 else pscale(p, cinv(c))
    k = pkey(mon)
    fid = _factor_by_key.get(k)
    if fid is None:
        sh = peval(mon)
        if abs(sh.imag if isinstance(sh, complex) else 0) < 1e-12 * max(1, abs(sh)):
            sh = sh.real if isinstance(sh, complex) else sh
        a = Atom("poly", "f%d" % len(ATOMS), sh, data=mon)
        fid = a.id
        _factor_by_key[k] = fid
        _factor_monos.add(frozenset(mon))
    return fid, c


_factor_monos = set()


def lookup_factor(p):
    if frozenset(p) not in _factor_monos:
        return None, 1
    lead = max(p, key=_order)
    c = p[lead]
    mon = p if c == 1 else pscale(p, cinv(c))
    fid = _factor_by_key.get(pkey(mon))
    return fid, c


def const_factor(n):
    """factor for the positive squarefree integer n (only used under a root)"""
    k = ("const", n)
    fid = _factor_by_key.get(k)
    if fid is None:
        a = Atom("const", "c%d" % n, float(n), data=n, pos=True)
        fid = a.id
        _factor_by_key[k] = fid
    return fid


def sqrt_atom(fid):
    global _sqrt_expanded
    s = _sqrt_of.get(fid)
    if s is None:
        f = ATOMS[fid]
        v = f.shadow
        v = v.real if isinstance(v, complex) else v
        a = Atom("sqrt", "sqrt_%s" % f.name, math.sqrt(abs(v)), data=fid, pos=True)
        s = a.id
        _sqrt_of[fid] = s
    _sqrt_expanded = True
    return s


def factor_poly(fid):
    a = ATOMS[fid]
    if a.kind == "poly":
        return a.data
    if a.kind == "const":
        return {(): a.data}
    return {(fid,): 1}


def expand_factor_power(p, fid, e2):
    """p * factor ** (e2 / 2), e2 >= 0"""
    full, half = divmod(e2, 2)
    if full:
        a = ATOMS[fid]
        if a.kind == "poly":
            for _ in range(full):
                p = pmul(p, a.data)
        elif a.kind == "const":
            p = pscale(p, a.data**full)
        else:
            p = pmul(p, {(fid,) * full: 1})
    if half:
        p = pmul(p, {(sqrt_atom(fid),): 1})
    return p


# ----------------------------------------------------------------------------


class RF:
    """num * prod f**(e/2).  num has no monomial content. zero: num == {}"""

    __slots__ = ("num", "fac", "_sh", "__weakref__")
    __array_priority__ = 1000.0

    def __init__(self, num, fac):
        self.num = num
        self.fac = fac
        self._sh = None

    # -- predicates
    def is_zero(self):
        return not self.num

    def is_const(self):
        if not self.num:
            return True
        return not self.fac and len(self.num) == 1 and () in self.num

    def const_value(self):
        if not self.num:
            return 0
        return self.num[()]

    def shadow(self):
        if self._sh is None:
            s = peval(self.num)
            for f, e in self.fac.items():
                b = ATOMS[f].shadow
                if e % 2:
                    s *= math.sqrt(b.real if isinstance(b, complex) else b) ** e
                else:
                    s *= b ** (e // 2)
            self._sh = s
        return self._sh

    def magnitude(self):
        """sum of the absolute values of the terms at the witness, the scale of
        the rounding errors of shadow()"""
        s = 0.0
        for m, c in self.num.items():
            v = abs(cnum(c))
            for x in m:
                v *= abs(ATOMS[x].shadow)
            s += v
        for f, e in self.fac.items():
            s *= abs(ATOMS[f].shadow) ** (e / 2)
        return s

    def rshadow(self):
        s = self.shadow()
        if isinstance(s, complex):
            if abs(s.imag) > 1e-7 * max(1.0, abs(s)):
                raise Unsupported("ordering of complex values")
            return s.real
        return s

    def __repr__(self):
        return "RF(%s)" % show(self)

    # -- python operators
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, n):
        return power(self, n)

    def __abs__(self):
        return absval(self)

    def conjugate(self):
        return conj(self)

    conj = conjugate

    @property
    def real(self):
        return re_part(self)

    @property
    def imag(self):
        return im_part(self)

    def sqrt(self):
        return sqrt(self)

    def log10(self):
        return log10(self)

    # comparisons are branch decisions
    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return not lt(o, self)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return not lt(self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return eq(self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return not eq(self, o)

    __hash__ = object.__hash__

    def __bool__(self):
        return not eq(self, 0)

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise Unsupported("symbolic value used as a python float")

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        raise Unsupported("symbolic value used as a python int")

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import npsym

        return npsym.array_ufunc(ufunc, method, inputs, kwargs)

    def item(self):
        return self

    # scalar-like numpy protocol
    ndim = 0
    shape = ()
    size = 1

    def min(self, *a, **k):
        return self

    max = mean = sum = min

    def any(self, *a, **k):
        return bool(self)

    all = any

    def copy(self):
        return self


class LazyRF(RF):
    """value computed on first use (irfft outputs that may be sliced away)"""

    __slots__ = ("_thunk", "_val")

    def __init__(self, thunk):
        self._thunk = thunk
        self._val = None
        self._sh = None

    def _force(self):
        if self._val is None:
            self._val = self._thunk()
            self._thunk = None
        return self._val

    @property
    def num(self):
        return self._force().num

    @property
    def fac(self):
        return self._force().fac


ZERO = RF({}, {})
ONE = RF({(): 1}, {})


def show(a, depth=0):
    if isinstance(a, float):
        return repr(a)
    s = " + ".join(
        "*".join([str(c)] + [ATOMS[x].name for x in m]) for m, c in list(a.num.items())[:8]
    )
    if len(a.num) > 8:
        s += " + ...(%d terms)" % len(a.num)
    if not a.num:
        s = "0"
    for f, e in a.fac.items():
        s = "(%s)*%s^(%s)" % (s, ATOMS[f].name, Fraction(e, 2))
    return s


def is_special(x):
    return type(x) is float


def lift(x, single=False):
    """python / numpy number -> RF or special float"""
    if isinstance(x, RF):
        return x
    if isinstance(x, complex) or (hasattr(x, "dtype") and getattr(x.dtype, "kind", "") == "c"):
        x = complex(x)
        r = lift(x.real, single)
        if x.imag == 0:
            return r
        return add(r, mul(lift(x.imag, single), RF({(): I_UNIT}, {})))
    if isinstance(x, Fraction):
        return RF({(): qnorm(x)}, {}) if x else ZERO
    if isinstance(x, int):
        return RF({(): int(x)}, {}) if x else ZERO
    if hasattr(x, "dtype"):
        k = getattr(x.dtype, "kind", "f")
        if k in "iub":
            x = int(x)
            return RF({(): x}, {}) if x else ZERO
        if str(x.dtype) in ("float32", "float16"):
            single = True
        x = float(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return float(x)
        c = snap(x, single)
        return RF({(): c}, {}) if c else ZERO
    raise Unsupported("cannot use %r as a symbolic number" % type(x))


def new_input(name, shadow):
    a = Atom("in", name, float(shadow))
    return RF({(): 1}, {a.id: 2})


def _content(num):
    """(monomial content as dict id->count, num without it)"""
    if not num:
        return {}, num
    it = iter(num)
    first = next(it)
    if not first:
        return {}, num
    common = {}
    for x in first:
        common[x] = common.get(x, 0) + 1
    for m in it:
        if not m:
            return {}, num
        for x in list(common):
            k = m.count(x)
            if k < common[x]:
                if k:
                    common[x] = k
                else:
                    del common[x]
        if not common:
            return {}, num
    out = {}
    for m, c in num.items():
        l = list(m)
        for x, k in common.items():
            for _ in range(k):
                l.remove(x)
        out[tuple(l)] = c
    return common, out


def _fold_fac(num, fac):
    """normalise the factor dict; fold constants. returns (num, fac)"""
    out = {}
    for f, e in fac.items():
        if not e:
            continue
        a = ATOMS[f]
        if a.kind == "sqrt":
            # sqrt atom as a factor: e counts halves of the atom -> quarter powers never arise
            if e % 2:
                raise Unsupported("nested roots")
            out[a.data] = out.get(a.data, 0) + e // 2
        else:
            out[f] = out.get(f, 0) + e
    res = {}
    for f, e in out.items():
        if not e:
            continue
        a = ATOMS[f]
        if a.kind == "const":
            full, half = divmod(e, 2)
            if full:
                num = pscale(num, qnorm(Fraction(a.data) ** full))
            if half:
                res[f] = 1
        else:
            res[f] = e
    return num, res


def make(num, fac, content=True, cancel=True):
    if not num:
        return ZERO
    if content:
        common, num = _content(num)
        if common:
            fac = dict(fac)
            for x, k in common.items():
                fac[x] = fac.get(x, 0) + 2 * k
    num, fac = _fold_fac(num, fac)
    if cancel and len(num) > 1:
        fid, c = lookup_factor(num)
        if fid is not None:
            num = {(): c}
            fac = dict(fac)
            fac[fid] = fac.get(fid, 0) + 2
            if not fac[fid]:
                del fac[fid]
            num, fac = _fold_fac(num, fac)
        else:
            changed = False
            for f in list(fac):
                a = ATOMS[f]
                while a.kind == "poly" and fac.get(f, 0) <= -2 and len(num) >= len(a.data) // 2 and len(num) > 1:
                    q = pdiv_exact(num, a.data)
                    if q is None:
                        break
                    num = q
                    if not changed:
                        fac = dict(fac)
                        changed = True
                    fac[f] += 2
                    if not fac[f]:
                        del fac[f]
            if changed:
                return make(num, fac, True, True)
    return RF(num, fac)


def _specials(a, b):
    return type(a) is float or type(b) is float


def _sgn(x):
    """sign of a value, deciding branches when needed"""
    if type(x) is float:
        return 1 if x > 0 else (-1 if x < 0 else 0)
    if x.is_zero():
        return 0
    if lt(x, ZERO):
        return -1
    if eq(x, ZERO):
        return 0
    return 1


def fsum(xs):
    """sum of values"""
    ys = []
    sp = None
    for x in xs:
        if not isinstance(x, RF):
            x = lift(x)
        if type(x) is float:
            sp = x if sp is None else sp + x
        elif x.num:
            ys.append(x)
    if sp is not None:
        return sp
    if not ys:
        return ZERO
    if len(ys) == 1:
        return ys[0]
    # common factor part
    common = dict(ys[0].fac)
    for y in ys[1:]:
        f2 = y.fac
        if f2 == common:
            continue
        for f in list(common):
            e = f2.get(f, 0)
            if e < common[f]:
                common[f] = e
        for f, e in f2.items():
            if f not in common and e < 0:
                common[f] = e
        # factors absent from y but negative exponent stay; positive -> min 0
    # note: a factor absent in an earlier operand had exponent 0 there
    for y in ys:
        for f in list(common):
            e = y.fac.get(f, 0)
            if e < common[f]:
                common[f] = e
    common = {f: e for f, e in common.items() if e}
    acc = {}
    for y in ys:
        p = y.num
        rest = {}
        for f, e in y.fac.items():
            d = e - common.get(f, 0)
            if d:
                rest[f] = d
        for f, e in common.items():
            if f not in y.fac and e < 0:
                rest[f] = -e
        if rest:
            # plain atoms with full exponents first: a single monomial
            mono = []
            for f, e in rest.items():
                if e % 2 == 0 and ATOMS[f].kind not in ("poly", "const"):
                    mono.extend([f] * (e // 2))
            if mono:
                p = pmul(p, {tuple(sorted(mono)): 1})
            for f, e in rest.items():
                if e % 2 == 0 and ATOMS[f].kind not in ("poly", "const"):
                    continue
                p = expand_factor_power(p, f, e)
        for m, c in p.items():
            v = acc.get(m)
            acc[m] = c if v is None else v + c
    acc = {m: qnorm(c) for m, c in acc.items() if c}
    return make(acc, common)


def add(a, b):
    if not isinstance(a, RF):
        a = lift(a)
    if not isinstance(b, RF):
        b = lift(b)
    if _specials(a, b):
        if type(a) is float and type(b) is float:
            return a + b
        return a if type(a) is float else b
    if not a.num:
        return b
    if not b.num:
        return a
    return fsum((a, b))


def neg(a):
    a = lift(a)
    if type(a) is float:
        return -a
    return RF({m: -c for m, c in a.num.items()}, a.fac)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if not isinstance(a, RF):
        a = lift(a)
    if not isinstance(b, RF):
        b = lift(b)
    if _specials(a, b):
        if (type(a) is float and a != a) or (type(b) is float and b != b):
            return NAN
        s = _sgn(a) * _sgn(b)
        return NAN if s == 0 else s * INF
    if not a.num or not b.num:
        return ZERO
    if a.is_const():
        c = a.num[()]
        return RF(pscale(b.num, c), b.fac)
    if b.is_const():
        return RF(pscale(a.num, b.num[()]), a.fac)
    fac = dict(a.fac)
    for f, e in b.fac.items():
        v = fac.get(f, 0) + e
        if v:
            fac[f] = v
        else:
            del fac[f]
    if len(a.num) * len(b.num) < 9:
        return make(pmul(a.num, b.num), fac, content=_sqrt_expanded)
    key = (id(a), id(b))
    hit = _mul_memo.get(key)
    if hit is None:
        if len(_mul_memo) > 20000:
            _mul_memo.clear()
        hit = _mul_memo[key] = (make(pmul(a.num, b.num), fac, content=_sqrt_expanded), a, b)
    return hit[0]


_mul_memo = {}


def inv(a):
    num = a.num
    fac = {f: -e for f, e in a.fac.items()}
    if len(num) == 1:
        (m, c), = num.items()
        return make({(): cinv(c)}, fac, False, False)
    fid, c = intern_factor(num)
    fac[fid] = fac.get(fid, 0) - 2
    if not fac[fid]:
        del fac[fid]
    n, fac = _fold_fac({(): cinv(c)}, fac)
    return RF(n, fac)


def div(a, b):
    a = lift(a)
    b = lift(b)
    if _specials(a, b):
        if type(a) is float and type(b) is float:
            return NAN
        if type(b) is float:
            return NAN if b != b else ZERO
        if a != a:
            return NAN
        s = _sgn(b)
        return a if s >= 0 else -a
    if b.is_zero() or (not b.is_const() and not CTX.nonzero(b)):
        if a.is_zero() or eq(a, ZERO):
            return NAN
        return INF if _sgn(a) > 0 else -INF
    return mul(a, inv(b))


def power(a, n):
    a = lift(a)
    if isinstance(n, RF):
        n = n.const_value() if n.is_const() else None
        if n is None:
            raise Unsupported("symbolic exponent")
    n = float(n)
    if type(a) is float:
        return a**n if n >= 0 else ZERO
    if n == 0.5:
        return sqrt(a)
    if n == -0.5:
        return div(ONE, sqrt(a))
    if n != int(n):
        raise Unsupported("power %r" % n)
    n = int(n)
    if n < 0:
        return div(ONE, power(a, -n))
    out = ONE
    for _ in range(n):
        out = mul(out, a)
    return out


def conj(a):
    a = lift(a)
    if type(a) is float:
        return a
    for f in a.fac:
        d = ATOMS[f]
        if d.kind == "poly" and any(type(c) is Cyc for c in d.data.values()):
            # conjugate the factor too
            out = RF({m: cconj(c) for m, c in a.num.items()}, {})
            for g, e in a.fac.items():
                p = factor_poly(g)
                pc = {m: cconj(c) for m, c in p.items()}
                if pc == p:
                    out = mul(out, RF({(): 1}, {g: e}))
                else:
                    if e % 2:
                        raise Unsupported("root of a complex factor")
                    base = make(pc, {})
                    out = mul(out, power(base, e // 2)) if e > 0 else mul(out, inv(power(base, -e // 2)))
            return out
    if not any(type(c) is Cyc for c in a.num.values()):
        return a
    return RF({m: cconj(c) for m, c in a.num.items()}, a.fac)


def _maybe_complex(a):
    if any(type(c) is Cyc for c in a.num.values()):
        return True
    for f in a.fac:
        d = ATOMS[f]
        if d.kind == "poly" and any(type(c) is Cyc for c in d.data.values()):
            return True
    return False


def re_part(a):
    a = lift(a)
    if type(a) is float or not _maybe_complex(a):
        return a
    return mul(add(a, conj(a)), RF({(): Fraction(1, 2)}, {}))


def im_part(a):
    a = lift(a)
    if type(a) is float:
        return ZERO
    if not _maybe_complex(a):
        return ZERO
    return mul(sub(a, conj(a)), RF({(): I_UNIT * Fraction(-1, 2)}, {}))


def _squarefree(n):
    """n = k^2 * s for a positive integer n -> (k, s)"""
    k, s = 1, 1
    p = 2
    while p * p <= n and p < 100000:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        k *= p ** (e // 2)
        if e % 2:
            s *= p
        p += 1
    r = math.isqrt(n)
    if r * r == n:
        k *= r
    else:
        s *= n
    return k, s


def sqrt(a):
    a = lift(a)
    if type(a) is float:
        return a if a > 0 else NAN
    if a.is_zero():
        return ZERO
    if a.is_const() and not isinstance(a.const_value(), Cyc) and a.const_value() < 0:
        return NAN
    if not a.is_const() and not any(True for _ in ()) and lt(a, ZERO):
        return NAN
    num, fac = a.num, a.fac
    newfac = {}
    sign = 1
    if len(num) > 1:
        fid, c = intern_factor(num)
        fac = dict(fac)
        fac[fid] = fac.get(fid, 0) + 2
    else:
        (_, c), = num.items()
    if type(c) is Cyc:
        raise Unsupported("sqrt of irrational scalar")
    c = Fraction(c)
    odd = []
    for f, e in fac.items():
        if e % 2:
            raise Unsupported("nested square root")
        h = e // 2  # full exponent under the root
        newfac[f] = h  # f ** (h) under root -> f**(h/2): in halves: h
        at = ATOMS[f]
        if not at.pos and at.kind != "const":
            # |f|: need the sign
            s = -1 if lt(RF({(): 1}, {f: 2}), ZERO) else 1
            if s < 0:
                if h % 2:
                    odd.append(f)  # f**h = -( |f|**h )
                    # represent with the negated factor
                    p = {m: -k for m, k in factor_poly(f).items()}
                    raise Unsupported("root of a negative factor") if len(p) > 1 else Unsupported(
                        "root of a negative atom"
                    )
                # even full exponent: sqrt(f^h) = |f|^(h/2) = (-f)^(h/2)
                if (h // 2) % 2:
                    sign = -sign
    if c < 0:
        raise Unsupported("sqrt sign")
    k1, s1 = _squarefree(c.numerator * c.denominator)
    coef = Fraction(k1, c.denominator) * sign
    if s1 != 1:
        cf = const_factor(s1)
        newfac[cf] = newfac.get(cf, 0) + 1
    return make({(): qnorm(coef)}, newfac, False, False)


def absval(a):
    a = lift(a)
    if type(a) is float:
        return abs(a)
    if a.is_const() and not isinstance(a.const_value(), Cyc):
        return a if a.const_value() >= 0 else neg(a)
    if _maybe_complex(a):
        return sqrt(mul(a, conj(a)))
    return neg(a) if lt(a, ZERO) else a


LN10 = math.log(10.0)


def log10(a):
    a = lift(a)
    if type(a) is float:
        return a if a == INF else NAN
    if a.is_zero():
        return -INF
    if a.is_const():
        c = a.const_value()
        if type(c) is Cyc:
            raise Unsupported("log of irrational constant")
        c = Fraction(c)
        if c < 0:
            return NAN
        k = round(math.log10(c))
        if Fraction(10) ** k == c:
            return lift(k)
    else:
        if lt(a, ZERO):
            return NAN
        if eq(a, ZERO):
            return -INF
    return log_atom(a)


def log_atom(a):
    # normalise orientation: log(1/x) = -log(x)
    sh = a.rshadow()
    s = 1
    if sh < 1:
        s = -1
        a2 = div(ONE, a)
    else:
        a2 = a
    v = math.log10(a2.rshadow())
    key = round(v, 6)
    for k in (key, round(key + 1e-6, 6), round(key - 1e-6, 6)):
        for aid, arg in _log_by_shadow.get(k, ()):
            if same(arg, a2):
                if arg is not a2 and not (arg.fac == a2.fac and arg.num == a2.num):
                    CTX.merges.append((arg, a2))
                return RF({(): s}, {aid: 2})
    at = Atom("log", "log%d" % len(ATOMS), v, data=a2)
    _log_by_shadow.setdefault(key, []).append((at.id, a2))
    return RF({(): s}, {at.id: 2})


def ln(a):
    """natural logarithm, through the log10 atom"""
    v = log10(a)
    if type(v) is float:
        return v
    return mul(v, lift(LN10))


def same(a, b):
    """identity of rational functions (exact)"""
    if a is b:
        return True
    if type(a) is float or type(b) is float:
        return type(a) is float and type(b) is float and (a == b or (a != a and b != b))
    if a.fac == b.fac and a.num == b.num:
        return True
    sa, sb = a.shadow(), b.shadow()
    if abs(sa - sb) > 1e-6 * max(1.0, abs(sa), abs(sb)):
        return False
    return sub(a, b).is_zero()


# ----------------------------------------------------------------------------
# branch decisions


class Context:
    """records the path condition; decides branches at the witness (shadow)"""

    def __init__(self):
        self.pc = []  # list of (op, RF) : 'lt' RF<0, 'ge' RF>=0, 'eq' RF==0, 'ne' RF!=0
        self.seen = {}
        self.explorer = None
        self.merges = []  # pairs of log arguments taken as equal: z3 confirms them

    def clear(self):
        self.pc = []
        self.seen = {}
        self.merges = []

    def _key(self, d):
        return (pkey(d.num), frozenset(d.fac.items()))

    def record(self, op, d):
        self.pc.append((op, d))

    def nonzero(self, b):
        return not self.decide_eq(b)

    def decide_eq(self, d):
        if d.is_zero():
            return True
        if d.is_const():
            return False
        # factors alone decide
        if self.explorer is not None:
            r = self.explorer.decide("eq", d)
            if r is not None:
                return r
        k = ("eq", self._key(d))
        if k in self.seen:
            return self.seen[k]
        s = abs(d.shadow())
        if s < 1e-10 and s <= 1e-10 * d.magnitude():
            raise Ambiguous("value close to zero at the witness: %s" % show(d))
        self.seen[k] = False
        self.record("ne", d)
        return False

    def decide_lt(self, d):
        """d < 0 ?"""
        if d.is_zero():
            return False
        if d.is_const():
            c = d.const_value()
            if type(c) is Cyc:
                v = c.numeric()
                if abs(v.imag) > 1e-9:
                    raise Unsupported("ordering of complex constants")
                return v.real < 0
            return c < 0
        if all(c > 0 for c in d.num.values() if type(c) is not Cyc) and all(
            type(c) is not Cyc for c in d.num.values()
        ):
            # positive coefficients on known positive atoms
            if all(ATOMS[x].pos for m in d.num for x in m) and all(
                ATOMS[f].pos or e % 4 == 0 for f, e in d.fac.items()
            ):
                return False
        if self.explorer is not None:
            r = self.explorer.decide("lt", d)
            if r is not None:
                return r
        k = ("lt", self._key(d))
        if k in self.seen:
            return self.seen[k]
        k2 = ("lt", self._key(neg(d)))
        s = d.rshadow()
        if abs(s) < 1e-12 and abs(s) <= 1e-12 * d.magnitude():
            raise Ambiguous("comparison too close at the witness: %s" % show(d))
        r = s < 0
        self.seen[k] = r
        self.seen[k2] = not r
        self.record("lt" if r else "gt", d)
        return r


CTX = Context()


def lt(a, b):
    a = lift(a)
    b = lift(b)
    if _specials(a, b):
        fa = a if type(a) is float else 0.0
        fb = b if type(b) is float else 0.0
        return fa < fb
    return CTX.decide_lt(sub(a, b))


def eq(a, b):
    a = lift(a)
    b = lift(b)
    if _specials(a, b):
        return type(a) is float and type(b) is float and a == b
    return CTX.decide_eq(sub(a, b))


def maximum(a, b):
    a = lift(a)
    b = lift(b)
    if _specials(a, b):
        if (type(a) is float and a != a) or (type(b) is float and b != b):
            return NAN
    return b if lt(a, b) else a


def minimum(a, b):
    a = lift(a)
    b = lift(b)
    if _specials(a, b):
        if (type(a) is float and a != a) or (type(b) is float and b != b):
            return NAN
    return b if lt(b, a) else a


def isnan(a):
    return type(a) is float and a != a


def isinf(a):
    return type(a) is float and a in (INF, -INF)


# ----------------------------------------------------------------------------
# discrete Fourier transforms on lists of values


def _common_content(xs):
    """xs: list of RF -> (list of polys, common factor dict)"""
    nz = [x for x in xs if x.num]
    if not nz:
        return [{} for _ in xs], {}
    first = nz[0].fac
    if all(x.fac == first for x in nz):
        return [x.num for x in xs], first
    ids = set()
    for x in nz:
        ids.update(x.fac)
    common = {}
    for f in ids:
        # pure atoms can stay in the polynomial; only negative or half powers matter
        e = min(x.fac.get(f, 0) for x in nz)
        if e:
            common[f] = e
    out = []
    for x in xs:
        if not x.num:
            out.append({})
            continue
        p = x.num
        mono = []
        for f in ids:
            d = x.fac.get(f, 0) - common.get(f, 0)
            if d:
                if d % 2 == 0 and ATOMS[f].kind not in ("poly", "const"):
                    mono.extend([f] * (d // 2))
                else:
                    p = expand_factor_power(p, f, d)
        if mono:
            p = pmul(p, {tuple(sorted(mono)): 1})
        out.append(p)
    return out, common


def _check_specials(xs):
    for x in xs:
        if type(x) is float:
            raise Unsupported("non finite value in a transform")


def _coef_order(polys, n):
    N = n
    for p in polys:
        for c in p.values():
            if type(c) is Cyc and N % c.N:
                N = N * c.N // math.gcd(N, c.N)
    return N


class _Items:
    """the terms of a list of polynomials, as integer vectors"""

    def __init__(self, polys, N):
        import numpy as np

        d = 1
        for p in polys:
            d = math.lcm(d, _denoms(p))
        self.N, self.d = N, d
        monos = {}
        J, M, E, V = [], [], [], []
        for j, p in enumerate(polys):
            for m, c in p.items():
                mi = monos.setdefault(m, len(monos))
                for e, v in cyc_items(c, N) if type(c) is Cyc else ((0, c),):
                    J.append(j)
                    M.append(mi)
                    E.append(e)
                    V.append(_toint(v, d))
        self.monos = list(monos)
        self.J, self.E = np.array(J, dtype=np.int64), np.array(E, dtype=np.int64)
        self.M, self.V = np.array(M, dtype=np.int64), V
        self.big = 8 * sum(abs(v) for v in V) >= 2**52
        self.W = None if self.big else np.array(V, dtype=np.float64)

    def sums(self, shift, weight=None, mirror=False):
        """{mono: coefficient} of sum_i V_i weight_i zeta^(E_i + shift_i)  (+ conjugate)"""
        import numpy as np

        N, K = self.N, len(self.monos)
        if not K:
            return {}
        ex = (self.E + shift) % N
        idx = self.M * N + ex
        if self.big:
            acc = np.zeros(K * N, dtype=object)
            for i, v, w in zip(idx.tolist(), self.V, [1] * len(self.V) if weight is None else weight.tolist()):
                acc[i] += v * int(w)
        else:
            acc = np.bincount(idx, self.W if weight is None else self.W * weight, K * N)
        acc = acc.reshape(K, N)
        if mirror:
            acc = acc + acc[:, (-np.arange(N)) % N]
        if N % 2 == 0 and N & (N - 1) == 0:
            acc = acc[:, : N // 2] - acc[:, N // 2:]
            out = {}
            r, c = np.nonzero(acc)
            for i, e, v in zip(r.tolist(), c.tolist(), acc[r, c].tolist()):
                out.setdefault(i, {})[e] = int(v)
            return {self.monos[i]: Cyc(N, x) if len(x) > 1 or 0 not in x else x[0] for i, x in out.items()}
        out = {}
        r, c = np.nonzero(acc)
        for i, e, v in zip(r.tolist(), c.tolist(), acc[r, c].tolist()):
            out.setdefault(i, {})[e] = int(v)
        out = {self.monos[i]: cyc_make(N, x) for i, x in out.items()}
        return {m: c for m, c in out.items() if c}


_dft_memo = {}


def dft(xs, n, ks, sign=-1, scale=None):
    """sum_j x_j zeta_n^(sign*j*k) for k in ks (xs already padded / truncated to n)"""
    xs = [lift(x) for x in xs]
    _check_specials(xs)
    key = (tuple(rf_key(x) for x in xs), n, tuple(ks), sign, scale)
    hit = _dft_memo.get(key)
    if hit is None:
        hit = _dft_memo[key] = _dft(xs, n, ks, sign, scale)
    return list(hit)


def _dft(xs, n, ks, sign, scale):
    polys, common = _common_content(xs)
    N = _coef_order(polys, n)
    step = N // n
    it = _Items(polys, N)
    sc = Fraction(scale if scale is not None else 1) / it.d

    def one(k):
        num = it.sums(sign * k * step * it.J)
        if sc != 1:
            num = {m: qnorm(c * sc) for m, c in num.items()}
        return make(num, common)

    if n <= 16:
        return [one(k) for k in ks]
    return [LazyRF(lambda k=k: one(k)) for k in ks]


def rfft(xs, n):
    xs = list(xs)[:n]
    xs = xs + [ZERO] * (n - len(xs))
    return dft(xs, n, range(n // 2 + 1))


_irfft_memo = {}


def irfft(Xs, n):
    """real inverse transform of a half spectrum"""
    m = n // 2 + 1
    Xs = [lift(x) for x in Xs][:m]
    _check_specials(Xs)
    key = (tuple(map(id, Xs)), n)
    hit = _irfft_memo.get(key)
    if hit is None:
        # (keeping the arguments keeps their ids)
        hit = _irfft_memo[key] = (_irfft(Xs, n, m), Xs)
    return list(hit[0])


def _irfft(Xs, n, m):
    import numpy as np

    Xs = Xs + [ZERO] * (m - len(Xs))
    polys, common = _common_content(Xs)
    cf = RF({(): 1}, common)
    if _maybe_complex(cf):
        raise Unsupported("complex common factor in irfft")
    N = _coef_order(polys, n)
    step = N // n
    it = _Items(polys, N)
    both = (it.J != 0) & ~((n % 2 == 0) & (it.J == m - 1))
    w = np.where(both, 2.0, 1.0)
    sc = Fraction(1, 2 * n * it.d)

    def one(l):
        num = it.sums(it.J * (l * step), w, mirror=True)
        return make({mo: qnorm(c * sc) for mo, c in num.items()}, common)

    if n <= 16:
        return [one(l) for l in range(n)]
    return [LazyRF(lambda l=l: one(l)) for l in range(n)]


# ----------------------------------------------------------------------------
# linear systems

SOLVE_MODE = "atom"  # or 'exact'


def set_solve_mode(m):
    global SOLVE_MODE
    SOLVE_MODE = m


class SingularSystem(Exception):
    pass


def _row_content(row):
    nz = [x for x in row if x.num]
    if not nz:
        return {}
    ids = set()
    for x in nz:
        ids.update(x.fac)
    out = {}
    for f in ids:
        e = min(x.fac.get(f, 0) for x in nz)
        if e:
            out[f] = e
    return out


def equilibrate(A):
    """A = R A' C with diagonal R, C of pure factors; A' polynomial entries"""
    n = len(A)
    D = _sym_scale(A)
    if D is not None:
        Di = [inv(d) for d in D]
        A = [[mul(mul(x, Di[i]), Di[j]) if x.num else x for j, x in enumerate(row)] for i, row in enumerate(A)]
    R = []
    B = []
    for i in range(n):
        c = _row_content(A[i])
        r = RF({(): 1}, c)
        R.append(r)
        ri = RF({(): 1}, {f: -e for f, e in c.items()})
        B.append([mul(x, ri) if x.num else x for x in A[i]])
    C = []
    for j in range(n):
        col = [B[i][j] for i in range(n)]
        c = _row_content(col)
        C.append(RF({(): 1}, c))
        if c:
            ci = RF({(): 1}, {f: -e for f, e in c.items()})
            for i in range(n):
                if B[i][j].num:
                    B[i][j] = mul(B[i][j], ci)
    # scalar normalisation of rows
    for i in range(n):
        for x in [B[i][i]] + B[i]:
            if x.num:
                lead = max(x.num, key=_order)
                s = x.num[lead]
                break
        else:
            raise SingularSystem("zero row")
        if s != 1:
            si = RF({(): cinv(s)}, {})
            B[i] = [mul(x, si) for x in B[i]]
            R[i] = mul(R[i], RF({(): s}, {}))
    if D is not None:
        R = [mul(r, d) for r, d in zip(R, D)]
        C = [mul(c, d) for c, d in zip(C, D)]
    return R, B, C


def _lead_negative(x):
    x.num
    c = x.num[max(x.num, key=_order)]
    return type(c) is not Cyc and c < 0


def _sym_scale(A):
    """canonical diagonal scaling of a symmetric matrix with positive diagonal:
    square roots of the diagonal entries where they differ, and signs that make
    the first link of every unknown lead with a positive coefficient; None for
    the identity"""
    n = len(A)
    if n < 2 or n > 40:
        return None
    d = [A[i][i] for i in range(n)]
    if any(not x.num for x in d) or any(_maybe_complex(x) for row in A for x in row):
        return None
    off = any(A[i][j].num for i in range(n) for j in range(n) if i != j)
    if not off:
        return None
    if any(x.rshadow() <= 0 for x in d):
        return None
    for i in range(n):
        for j in range(i):
            u, v = A[i][j], A[j][i]
            if u is not v and not (u.fac == v.fac and u.num == v.num) and not same(u, v):
                return None
    out = None
    if all(d[i].rshadow() == d[0].rshadow() or abs(d[i].rshadow() - d[0].rshadow()) < 1e-9 * abs(d[0].rshadow()) for i in range(n)):
        if all(same(x, d[0]) for x in d):
            out = [ONE] * n
    if out is None:
        try:
            memo = {}
            out = []
            for x in d:
                k = rf_key(x)
                if k not in memo:
                    memo[k] = sqrt(x)
                out.append(memo[k])
        except Unsupported:
            return None
    # signs, breadth first from the first unknown
    sign = [None] * n
    changed = any(x is not ONE for x in out)
    for s in range(n):
        if sign[s] is not None:
            continue
        sign[s] = 1
        queue = [s]
        while queue:
            i = queue.pop(0)
            for j in range(n):
                if sign[j] is None and A[i][j].num:
                    sign[j] = -sign[i] if _lead_negative(A[i][j]) else sign[i]
                    queue.append(j)
    for j in range(n):
        if sign[j] < 0:
            out[j] = neg(out[j])
            changed = True
    return out if changed else None


_rf_key_cache = {}


def rf_key(x):
    x.num
    if isinstance(x, LazyRF):
        x = x._force()
    return (pkey(x.num), frozenset(x.fac.items()))


def solve(A, b):
    """A: n x n list of lists, b: list of n. exact or uninterpreted solution"""
    return solve_many(A, [b])[0]


def solve_many(A, bs):
    n = len(A)
    A = [[lift(x) for x in row] for row in A]
    bs = [[lift(x) for x in b] for b in bs]
    for row in A + bs:
        for x in row:
            if type(x) is float:
                return [[NAN] * n for _ in bs]
    for i in range(n):
        if all(not x.num for x in A[i]):
            raise SingularSystem("zero row")
    R, B, C = equilibrate(A)
    out = []
    if all(x.is_const() for row in B for x in row) or SOLVE_MODE == "exact":
        X = _solve_exact(B, [[div_nz(bi, Ri) for bi, Ri in zip(b, R)] for b in bs])
        for x in X:
            out.append([div_nz(xi, Ci) for xi, Ci in zip(x, C)])
        return out
    import numpy as np

    keys = [[rf_key(x) for x in row] for row in B]
    An = np.array([[complex(x.shadow()) for x in row] for row in B])
    if n <= 64:
        if np.linalg.cond(An) > 1e13:
            raise SingularSystem("system singular at the witness")
        sigA = [tuple(sorted((round(float(v.real), 7), round(float(v.imag), 7)) for v in An[i])) for i in range(n)]
    hA = None
    for b in bs:
        b2 = [div_nz(bi, Ri) for bi, Ri in zip(b, R)]
        if all(not x.num for x in b2):
            out.append([ZERO] * n)
            continue
        c = _row_content(b2)
        beta = RF({(): 1}, c)
        if c:
            ci = RF({(): 1}, {f: -e for f, e in c.items()})
            b2 = [mul(x, ci) if x.num else x for x in b2]
        bn0 = [complex(x.shadow()) for x in b2]
        # canonical order of the unknowns (same permutation on rows and columns)
        if n <= 64:
            def sg(i):
                v = bn0[i]
                return (round(abs(v), 7), sigA[i], round(An[i][i].real, 7))
            perm = sorted(range(n), key=sg)
        else:
            perm = list(range(n))
        for i in perm:
            if b2[i].num:
                s = b2[i].num[max(b2[i].num, key=_order)]
                break
        if s != 1:
            si = RF({(): cinv(s)}, {})
            b2 = [mul(x, si) for x in b2]
            beta = mul(beta, RF({(): s}, {}))
        if perm == list(range(n)):
            if hA is None:
                k = tuple(tuple(r) for r in keys)
                hA = (hash(k), k)
            Akey = hA
        else:
            k = tuple(tuple(keys[i][j] for j in perm) for i in perm)
            Akey = (hash(k), k)
        key = (Akey, tuple(rf_key(b2[i]) for i in perm))
        ids = _solve_by_key.get(key)
        if ids is None:
            bn = np.array([complex(x.shadow()) for x in b2])
            try:
                xn = np.linalg.solve(An, bn)
            except np.linalg.LinAlgError:
                raise SingularSystem("system singular at the witness")
            if np.abs(xn.imag).max() < 1e-9 * max(1.0, np.abs(xn).max()):
                xn = xn.real
            ids = []
            sysid = len(_solve_by_key)
            for j in perm:
                at = Atom("solve", "x%d_%d" % (sysid, j), xn[j].item(), data=(sysid, j))
                ids.append(at.id)
            _solve_by_key[key] = ids
            byj = dict(zip(perm, ids))
            SYSTEMS[sysid] = (B, b2, [byj[j] for j in range(n)])
        byj = dict(zip(perm, ids))
        out.append([mul(beta, mul(inv(Ci), RF({(): 1}, {byj[j]: 2}))) for j, Ci in enumerate(C)])
    return out


SYSTEMS = {}


def div_nz(a, r):
    """a / r for a pure factor r (never zero by construction)"""
    if not a.num:
        return a
    return mul(a, inv(r))


def _solve_exact(B, bs):
    """fraction-free Gauss-Jordan style elimination in the field, with pivoting on witnesses"""
    n = len(B)
    m = len(bs)
    M = [list(B[i]) + [bs[k][i] for k in range(m)] for i in range(n)]
    # Bareiss
    prev = ONE
    for k in range(n):
        p = None
        best = 0
        for r in range(k, n):
            if not M[r][k].is_zero():
                s = abs(M[r][k].shadow())
                if s > best:
                    best, p = s, r
        if p is None or best < 1e-13:
            raise SingularSystem("no pivot")
        if p != k:
            M[k], M[p] = M[p], M[k]
        piv = M[k][k]
        if not piv.is_const():
            CTX.nonzero(piv)
        for r in range(n):
            if r == k:
                continue
            f = M[r][k]
            for c in range(k + 1, n + m):
                v = sub(mul(piv, M[r][c]), mul(f, M[k][c]))
                M[r][c] = div_poly(v, prev)
            M[r][k] = ZERO
        # Bareiss variant on the full matrix: rows above are scaled too
        for r in range(k):
            M[r][r] = piv
        prev = piv
    out = []
    for k in range(m):
        out.append([mul(M[i][n + k], inv(M[i][i])) if M[i][n + k].num else ZERO for i in range(n)])
    return out


def div_poly(a, d):
    if not a.num:
        return a
    if d.is_const() and d.const_value() == 1:
        return a
    return mul(a, inv(d))


def inverse(A):
    n = len(A)
    E = [[ONE if i == j else ZERO for i in range(n)] for j in range(n)]
    cols = solve_many(A, E)
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    terms = []
    for j in range(n):
        if A[0][j].is_zero():
            continue
        minor = [row[:j] + row[j + 1:] for row in A[1:]]
        t = mul(A[0][j], det(minor))
        terms.append(t if j % 2 == 0 else neg(t))
    return fsum(terms)


# ----------------------------------------------------------------------------
# differentiation (for the gradient property)


def diff(a, vid):
    """derivative with respect to input atom vid; log atoms: d log10(u) = u'/(u ln 10)"""
    a = lift(a)
    if type(a) is float:
        raise Unsupported("derivative of a non finite value")
    if not a.num:
        return ZERO
    # product rule on num * prod f^(e/2)
    base = RF({(): 1}, a.fac)
    out = [mul(_pdiff(a.num, vid), base)]
    nump = make(a.num, {})
    for f, e in a.fac.items():
        df = _fdiff(f, vid)
        if df.num:
            g = dict(a.fac)
            g[f] = e - 2
            if not g[f]:
                del g[f]
            n2, g2 = _fold_fac({(): 1}, g)
            out.append(mul(mul(nump, RF(n2, g2)), mul(df, lift(Fraction(e, 2)))))
    return fsum(out)


_fdiff_cache = {}


def _fdiff(fid, vid):
    k = (fid, vid)
    a = ATOMS[fid]
    if a.kind == "in":
        return ONE if fid == vid else ZERO
    if a.kind == "const":
        return ZERO
    if a.kind == "poly":
        return _pdiff(a.data, vid)
    if a.kind == "sqrt":
        df = _fdiff(a.data, vid)
        return mul(df, RF({(): Fraction(1, 2)}, {a.data: -1}))
    if a.kind == "log":
        u = a.data
        du = diff(u, vid)
        return mul(div(du, u), lift(Fraction(1.0 / LN10)))
    raise Unsupported("derivative of a %s atom" % a.kind)


def _pdiff(p, vid):
    terms = []
    touched = {}
    for m, c in p.items():
        for i, x in enumerate(m):
            if i and m[i - 1] == x:
                continue
            d = touched.get(x)
            if d is None:
                d = touched[x] = _fdiff(x, vid)
            if not d.num:
                continue
            k = m.count(x)
            rest = list(m)
            rest.remove(x)
            terms.append(mul(make({tuple(rest): c * k}, {}), d))
    return fsum(terms)
