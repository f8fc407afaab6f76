"""Discharging obligations on exact symbolic values with z3."""
import sys
import time
from fractions import Fraction

from . import algebra as al
from .algebra import RF, ATOMS, Cyc, Unsupported

_Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
z3 = None


def load():
    global z3
    if z3 is None:
        sys.path.append(_Z3DIR)
        try:
            import z3 as _z
        finally:
            sys.path.remove(_Z3DIR)
        z3 = _z
    return z3


STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "obligations": 0, "discharged": 0}


def check(solver, timeout_ms):
    solver.set("timeout", int(timeout_ms))
    t = time.time()
    r = str(solver.check())
    STATS["time"] += time.time() - t
    STATS["queries"] += 1
    STATS[r] += 1
    return r


class Enc:
    """translation of rational functions to z3 terms.

    inline: polynomial factors are expanded to their definition; otherwise they
    are abstracted by a fresh variable (sound for unsat answers)."""

    def __init__(self, inline=True, subst=None):
        load()
        self.inline = inline
        self.vars = {}
        self.side = []
        self.fc = {}
        self.roots = {}
        self.nonzero = set()
        self.subst = subst or {}

    def var(self, aid):
        v = self.vars.get(aid)
        if v is None:
            if aid in self.subst:
                v = self.subst[aid]
                self.vars[aid] = v
                return v
            a = ATOMS[aid]
            v = z3.Real("v%d" % aid)
            self.vars[aid] = v
            if a.kind == "sqrt":
                self.side.append(v > 0)
                self.side.append(v * v == self.factor(a.data))
        return v

    def coef(self, c):
        if type(c) is Cyc:
            raise Unsupported("irrational coefficient in an obligation")
        if isinstance(c, int):
            return z3.RealVal(c)
        c = Fraction(c)
        return z3.Q(c.numerator, c.denominator)

    def poly(self, p):
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(self.coef(c))
                continue
            fs = [self.var(x) for x in m]
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            if c == 1:
                ts.append(t)
            else:
                ts.append(self.coef(c) * t)
        if not ts:
            return z3.RealVal(0)
        if len(ts) == 1:
            return ts[0]
        return z3.Sum(ts)

    def factor(self, fid):
        e = self.fc.get(fid)
        if e is None:
            a = ATOMS[fid]
            if a.kind == "poly":
                e = self.poly(a.data) if self.inline else z3.Real("f%d" % fid)
            elif a.kind == "const":
                e = z3.RealVal(a.data)
            else:
                e = self.var(fid)
            self.fc[fid] = e
        return e

    def root(self, fid):
        if ATOMS[fid].kind != "const" or True:
            s = self.roots.get(fid)
            if s is None:
                sid = al._sqrt_of.get(fid)
                if sid is not None:
                    s = self.var(sid)
                else:
                    s = z3.Real("s%d" % fid)
                    self.side.append(s > 0)
                    self.side.append(s * s == self.factor(fid))
                self.roots[fid] = s
            return s

    def power(self, fid, e):
        """factor ** (e/2), e > 0"""
        full, half = divmod(e, 2)
        t = None
        if full:
            b = self.factor(fid)
            t = b
            for _ in range(full - 1):
                t = t * b
        if half:
            r = self.root(fid)
            t = r if t is None else t * r
        return t

    def parts(self, num, fac):
        n = self.poly(num)
        d = None
        for f, e in fac.items():
            if e > 0:
                n = n * self.power(f, e)
            else:
                self.nonzero.add(f)
                t = self.power(f, -e)
                d = t if d is None else d * t
        return n, d

    def frac(self, x):
        return self.parts(x.num, x.fac)

    def finish(self, solver):
        for f in list(self.nonzero):
            e = self.factor(f)
            solver.add(e != 0)
        for c in self.side:
            solver.add(c)


def strip_common(a, b):
    """remove the common factor part (non-zero by the path condition)"""
    fa, fb = dict(a.fac), dict(b.fac)
    for f in set(fa) | set(fb):
        m = min(fa.get(f, 0), fb.get(f, 0))
        if m:
            for d in (fa, fb):
                v = d.get(f, 0) - m
                if v:
                    d[f] = v
                else:
                    d.pop(f, None)
    return (a.num, fa), (b.num, fb)


def solve_defs(enc, rounds=3):
    """defining equations of the linear systems whose solution atoms occur"""
    out = []
    done = set()
    for _ in range(rounds):
        ids = [i for i in list(enc.vars) if ATOMS[i].kind == "solve"]
        new = False
        for i in ids:
            sysid = ATOMS[i].data[0]
            if sysid in done:
                continue
            done.add(sysid)
            new = True
            B, b, xs = al.SYSTEMS[sysid]
            for row, rhs in zip(B, b):
                lhs = al.fsum([al.mul(r, RF({(): 1}, {x: 2})) for r, x in zip(row, xs)])
                d = al.sub(lhs, rhs)
                n, _ = enc.parts(d.num, {f: e for f, e in d.fac.items() if e > 0})
                out.append(n == 0)
        if not new:
            break
    return out


def single_log(x):
    """x == c * log_atom -> (c, atom id)"""
    if type(x) is float or len(x.num) != 1:
        return None
    (m, c), = x.num.items()
    if m or type(c) is Cyc:
        return None
    if len(x.fac) != 1:
        return None
    (f, e), = x.fac.items()
    if e != 2 or ATOMS[f].kind != "log":
        return None
    return c, f


class Result:
    def __init__(self, status, model=None, note=""):
        self.status = status  # unsat (holds) | sat | unknown
        self.model = model
        self.note = note


def model_inputs(enc, model):
    out = {}
    for aid, v in enc.vars.items():
        if ATOMS[aid].kind != "in":
            continue
        try:
            val = model.eval(v, model_completion=True)
            if z3.is_rational_value(val):
                out[aid] = Fraction(val.numerator_as_long(), val.denominator_as_long())
            elif z3.is_algebraic_value(val):
                r = val.approx(20)
                out[aid] = Fraction(r.numerator_as_long(), r.denominator_as_long())
        except Exception:
            pass
    return out


def prove_equal(a, b, timeout_ms=10000, deep=True):
    """is a == b for every value of the atoms (given non-zero denominators)?"""
    STATS["obligations"] += 1
    r = _prove_equal(a, b, timeout_ms, deep)
    if r.status == "unsat":
        STATS["discharged"] += 1
    return r


def _prove_equal(a, b, timeout_ms, deep):
    load()
    a, b = al.lift(a), al.lift(b)
    if type(a) is float or type(b) is float:
        s = z3.Solver()
        same = type(a) is float and type(b) is float and (a == b or (a != a and b != b))
        s.add(z3.BoolVal(not same))
        return Result(check(s, timeout_ms), None, "non finite values %r %r" % (a if type(a) is float else "finite", b if type(b) is float else "finite"))
    la, lb = single_log(a), single_log(b)
    if la and lb:
        if la[0] == lb[0]:
            a, b = ATOMS[la[1]].data, ATOMS[lb[1]].data
        elif la[0] == -lb[0]:
            a, b = ATOMS[la[1]].data, al.div(al.ONE, ATOMS[lb[1]].data)
    try:
        A, B = strip_common(a, b)
        enc = Enc(inline=True)
        na, da = enc.parts(*A)
        nb, db = enc.parts(*B)
        lhs = na if db is None else na * db
        rhs = nb if da is None else nb * da
    except Unsupported as e:
        # irrational coefficients cannot cancel: decided by the exact difference
        d = al.sub(a, b)
        s = z3.Solver()
        s.add(z3.BoolVal(not d.is_zero()))
        return Result(check(s, timeout_ms), None, "irrational coefficients")
    s = z3.Solver()
    s.add(lhs != rhs)
    enc.finish(s)
    r = check(s, timeout_ms)
    if r == "unsat":
        return Result("unsat")
    m = model_inputs(enc, s.model()) if r == "sat" else None
    if deep and any(ATOMS[i].kind == "solve" for i in enc.vars):
        try:
            defs = solve_defs(enc)
            s = z3.Solver()
            s.add(lhs != rhs)
            for d in defs:
                s.add(d)
            enc.finish(s)
            r2 = check(s, min(timeout_ms, 3000))
            if r2 == "unsat":
                return Result("unsat")
            if r2 == "sat":
                return Result("sat", model_inputs(enc, s.model()))
        except Unsupported:
            pass
        return Result("unknown", m, "solution atoms abstracted")
    return Result(r, m)


_NEG = {"lt": "ge", "gt": "le", "ne": "eq", "ge": "lt", "le": "gt", "eq": "ne"}


def cond_expr(enc, op, d):
    """d op 0 as a z3 formula (denominators non-zero)"""
    # sign of even powers is positive: drop them; odd powers keep the factor
    num = d.num
    t = enc.poly(num)
    for f, e in d.fac.items():
        if e > 0:
            if op in ("eq", "ne") or e % 4:
                t = t * (enc.power(f, e) if op in ("eq", "ne") else _signpart(enc, f, e))
        else:
            enc.nonzero.add(f)
            if op not in ("eq", "ne"):
                sp = _signpart(enc, f, -e)
                if sp is not None:
                    t = t * sp
    return {
        "lt": lambda: t < 0,
        "gt": lambda: t > 0,
        "eq": lambda: t == 0,
        "ne": lambda: t != 0,
        "ge": lambda: t >= 0,
        "le": lambda: t <= 0,
    }[op]()


def _signpart(enc, f, e):
    full, half = divmod(e, 2)
    if half:
        return enc.power(f, e)
    if full % 2:
        return enc.factor(f)
    return z3.RealVal(1)


def prove_cond(op, d, assumptions=(), timeout_ms=10000, inline=True):
    """does d op 0 hold under the assumptions [(op, RF)]?"""
    STATS["obligations"] += 1
    load()
    enc = Enc(inline=inline)
    s = z3.Solver()
    goal = cond_expr(enc, _NEG[op], d)
    s.add(goal)
    for o, x in assumptions:
        s.add(cond_expr(enc, o, x))
    enc.finish(s)
    r = check(s, timeout_ms)
    if r == "unsat":
        STATS["discharged"] += 1
        return Result("unsat")
    return Result(r, model_inputs(enc, s.model()) if r == "sat" else None)
