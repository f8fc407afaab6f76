"""Exhaustive exploration of the branches that compare losses.

Losses are logarithms of rational functions of the inputs; each distinct
logarithm becomes one real variable of a linear arithmetic solver, so every
comparison between losses is decided for every value of the losses: where both
outcomes are feasible the process forks and both are executed.  Other branches
follow the witness."""
import json
import os
import signal
import time

import numpy as np

from . import algebra as al
from . import core, smt


class Limit(Exception):
    pass


class LogExplorer:
    def __init__(self, deadline, sink, tokens=None, max_depth=400):
        smt.load()
        self.z3 = smt.z3
        self.s = smt.z3.Solver()
        self.vars = {}
        self.path = []
        self.cache = {}
        self.deadline = deadline
        self.sink = sink
        self.child = False
        self.depth = 0
        self.max_depth = max_depth
        self.kids = []
        self.tokens = tokens
        self.holds_token = False
        # half width of the range of the free logarithms around the witness
        self.box = None
        self.range = {}

    def linear(self, d):
        """d as a linear combination of logs: (terms, const) or None"""
        num = d.num
        if d.fac:
            if len(d.fac) == 1:
                (f, e), = d.fac.items()
                a = al.ATOMS[f]
                if a.kind == "log" and e == 2:
                    # the logarithm was factored out: c * log
                    if len(num) == 1 and () in num and type(num[()]) is not al.Cyc:
                        return [(num[()], f)], 0
            # constant factors
            k = 1.0
            return None
        ts, c0 = [], 0
        for m, c in num.items():
            if type(c) is al.Cyc:
                return None
            if not m:
                c0 = c
                continue
            if len(m) != 1 or al.ATOMS[m[0]].kind != "log":
                return None
            ts.append((c, m[0]))
        return ts, c0

    def term(self, lin):
        z3 = self.z3
        ts, c0 = lin
        out = [self.q(c) * self.var(a) for c, a in ts]
        if c0 or not out:
            out.append(self.q(c0))
        return z3.Sum(out) if len(out) > 1 else out[0]

    def q(self, c):
        from fractions import Fraction

        c = Fraction(c)
        return self.z3.Q(c.numerator, c.denominator)

    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            v = self.vars[a] = self.z3.Real("l%d" % a)
            arg = al.ATOMS[a].data
            if isinstance(arg, al.RF) and arg.is_const():
                import math

                x = math.log10(float(arg.const_value()))
                self.s.add(v >= self.q(x - 1e-12), v <= self.q(x + 1e-12))
                self.range[a] = (x - 1e-12, x + 1e-12)
            elif self.box is not None and isinstance(arg, al.RF):
                import math

                x = math.log10(float(arg.rshadow()))
                self.s.add(v >= self.q(x - self.box), v <= self.q(x + self.box))
                self.range[a] = (x - self.box, x + self.box)
        return v

    def interval(self, lin):
        """range of a linear combination from the ranges of its logarithms, or None"""
        ts, c0 = lin
        lo = hi = float(c0)
        for c, a in ts:
            self.var(a)
            r = self.range.get(a)
            if r is None:
                return None
            c = float(c)
            lo += min(c * r[0], c * r[1])
            hi += max(c * r[0], c * r[1])
        # rounding of this sum
        return lo - 1e-10, hi + 1e-10

    def feasible(self, f):
        self.s.push()
        self.s.add(f)
        r = smt.check(self.s, 5000)
        self.s.pop()
        if r == "unknown":
            raise Limit("solver gave up on a branch")
        return r == "sat"

    def decide(self, kind, d):
        lin = self.linear(d)
        if lin is None or not lin[0]:
            return None
        key = (kind, al.pkey(d.num), frozenset(d.fac.items()))
        if key in self.cache:
            return self.cache[key]
        if time.time() > self.deadline:
            raise Limit("time")
        r = self.interval(lin)
        if r is not None and (r[0] > 0 or r[1] < 0):
            r = kind != "eq" and r[1] < 0
            self.cache[key] = r
            return r
        t = self.term(lin)
        yes = t == 0 if kind == "eq" else t < 0
        no = t != 0 if kind == "eq" else t >= 0
        fy = self.feasible(yes)
        fn = self.feasible(no) if fy else True
        if fy and fn:
            self.depth += 1
            if self.depth > self.max_depth:
                raise Limit("depth")
            r = self.fork()
        else:
            r = fy
        self.s.add(yes if r else no)
        self.path.append((("eq" if r else "ne") if kind == "eq" else ("lt" if r else "ge"), lin))
        self.cache[key] = r
        return r

    def choose(self, costs):
        """index of a smallest cost; forks over all feasible choices"""
        lins = [self.linear(c) for c in costs]
        if any(l is None for l in lins):
            return None
        key = ("choose",) + tuple(tuple(sorted((a, str(c)) for c, a in ts)) + (str(c0),) for ts, c0 in lins)
        if key in self.cache:
            return self.cache[key]
        ivs = [self.interval(l) for l in lins]
        top = min([i[1] for i in ivs if i is not None], default=None)
        terms = [self.term(l) for l in lins]
        feas = []
        for i, t in enumerate(terms):
            if ivs[i] is not None and ivs[i][0] > top:
                continue
            f = self.z3.And([t <= u for j, u in enumerate(terms) if j != i]) if len(terms) > 1 else self.z3.BoolVal(True)
            if self.feasible(f):
                feas.append((i, f))
        if not feas:
            raise Limit("no minimum")
        r = None
        for i, f in feas[1:]:
            if time.time() > self.deadline:
                raise Limit("time")
            if self.fork():
                r = (i, f)
                break
        if r is None:
            r = feas[0]
        self.s.add(r[1])
        self.path.append(("choose", r[0]))
        self.cache[key] = r[0]
        return r[0]

    def got_token(self):
        if self.tokens is None:
            return False
        try:
            return len(os.read(self.tokens[0], 1)) == 1
        except BlockingIOError:
            return False

    def release(self):
        if self.holds_token:
            self.holds_token = False
            os.write(self.tokens[1], b"x")

    def fork(self):
        tok = self.got_token()
        pid = os.fork()
        if pid == 0:
            self.child = True
            self.kids = []
            self.holds_token = tok
            return True
        if tok:
            self.kids.append(pid)
        else:
            os.waitpid(pid, 0)
        return False

    def emit(self, rec):
        os.write(self.sink, (json.dumps(rec, default=str) + "\n").encode())

    def finish(self):
        for k in self.kids:
            try:
                os.waitpid(k, 0)
            except OSError:
                pass
        self.kids = []
        self.release()
        if self.child:
            os._exit(0)

    def model(self, extra=None):
        """values of the logarithms on this path"""
        self.s.push()
        if extra is not None:
            self.s.add(extra)
        r = smt.check(self.s, 10000)
        out = None
        if r == "sat":
            m = self.s.model()
            out = {}
            for a, v in self.vars.items():
                val = m.eval(v, model_completion=True)
                out[a] = float(val.numerator_as_long()) / float(val.denominator_as_long())
        self.s.pop()
        return r, out


def explorer_runner(limit_quick=60, limit_thorough=300):
    """case runner: every feasible ordering of the losses is executed; the
    'le' and 'eq' obligations are decided under the path condition"""

    def run(case, seed, tier, out):
        lim = limit_quick if tier == "quick" else limit_thorough
        lim = min(lim, case.timeout - 10)
        sink_r, sink_w = os.pipe()
        # results are read from a file to avoid pipe limits
        os.close(sink_r)
        os.close(sink_w)
        path = os.path.join(core.SCRATCH, "explore")
        os.makedirs(path, exist_ok=True)
        path = os.path.join(path, "%d.jsonl" % os.getpid())
        sink = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
        tokens = os.pipe()
        os.set_blocking(tokens[0], False)
        os.write(tokens[1], b"x" * int(case.cfg.get("parallel", 3)))
        w = None
        err = None
        for k in range(25):
            w = case.draw(seed, k)
            ex = LogExplorer(time.time() + lim, sink, tokens)
            err = None
            rec = {"status": "ok"}
            try:
                leaf(case, w, seed, ex, rec)
            except al.Ambiguous as e:
                if ex.child:
                    rec["status"] = "open"
                    rec["note"] = "ambiguous: %s" % str(e)[:150]
                else:
                    err = "ambiguous: %s" % str(e)[:200]
            except Limit as e:
                rec["status"] = "open"
                rec["note"] = str(e)
            except al.Unsupported as e:
                rec["status"] = "unsupported"
                rec["note"] = str(e)
                rec["costs"] = costs_of(ex)
            except core.PreconditionFailed:
                rec["status"] = "skip"
            except BaseException as e:
                rec["status"] = "exception"
                rec["note"] = "%s: %s" % (type(e).__name__, str(e)[:300])
                rec["costs"] = costs_of(ex)
            if err and not ex.path:
                continue
            if err:
                rec["status"] = "open"
                rec["note"] = err
            rec["stats"] = dict(smt.STATS) if not ex.child else diffstats(ex)
            ex.emit(rec)
            ex.finish()
            break
        else:
            core._inconclusive(case, w, seed, out, "no usable witness: %s" % err)
            return
        os.close(sink)
        recs = [json.loads(l) for l in open(path)]
        os.unlink(path)
        out["paths"] = len(recs)
        out["branches"]["assignment"] = len(recs)
        st = {}
        notes = []
        for i, r in enumerate(recs):
            st[r["status"]] = st.get(r["status"], 0) + 1
            s = r.get("stats") or {}
            for k in ("obligations", "discharged"):
                pass
            if r["status"] != "ok" and len(notes) < 5:
                notes.append(r["status"] + ": " + str(r.get("note")))
        out["path_status"] = st
        tot = {}
        for r in recs:
            for k, v in (r.get("stats") or {}).items():
                tot[k] = tot.get(k, 0) + v
        for k in smt.STATS:
            smt.STATS[k] = tot.get(k, smt.STATS[k])
        bad = [r for r in recs if r["status"] in ("fail", "exception", "unsupported")]
        n = 0
        for r in bad:
            for c in r.get("costs") or []:
                if n > 40:
                    break
                n += 1
                wi = case.realise(c, w) if hasattr(case, "realise") else None
                if wi is None:
                    continue
                m = core.concrete(case, wi)
                if m:
                    raise core.Finding(m, wi)
        if bad:
            h = core.hunt(case, w, seed)
            if not h:
                r = case.rng(seed, 4242)
                t0 = time.time()
                for k in range(300):
                    if time.time() - t0 > 15:
                        break
                    # coarse values give ties
                    lim_ = r.choice([1, 2, 3, 9])
                    wi = {}
                    for n_, x in w.items():
                        m_ = np.asarray(x)
                        v_ = np.array([r.randint(-lim_, lim_) for _ in range(m_.size)], dtype=float).reshape(m_.shape)
                        wi[n_] = np.where(m_ != 0, v_, 0.0) if n_ in case.sparse else v_
                    m = core.concrete(case, wi)
                    if m:
                        h = (m, wi)
                        break
            if h:
                raise core.Finding(h[0], h[1])
        if bad or st.get("open", 0) > 0:
            if bad or not case.cfg.get("partial"):
                out["status"] = "inconclusive"
            out["notes"].append("%s; %s" % (st, "; ".join(notes)))
        # translation check on a plain run
        v = None
        for k in range(6):
            core.fresh()
            try:
                w = case.draw(seed, 500 + k)
                v = core.validate(case, w, core.symbolic(case, w), out)
                break
            except (al.Unsupported, al.Ambiguous, core.PreconditionFailed):
                continue
        if v:
            m = core.concrete(case, w)
            if m:
                raise core.Finding(m, w)
            out["status"] = "inconclusive"
            out["notes"].append("translation check failed: %s" % v)

    return run


def diffstats(ex):
    # a forked child inherits the counters of its parent: report its own part
    return {k: v - ex.base.get(k, 0) for k, v in smt.STATS.items()} if hasattr(ex, "base") else {}


def costs_of(ex, extra=None):
    """loss matrices (lists, infinities as floats) that follow this path"""
    if getattr(ex, "losses", None) is None:
        return []
    z3 = ex.z3
    out = []
    try:
        for hi in (7, 14):
            ints = []
            for a, v in ex.vars.items():
                k = z3.Int("k%d" % a)
                if isinstance(al.ATOMS[a].data, al.RF) and al.ATOMS[a].data.is_const():
                    continue
                ints += [v == z3.ToReal(k), k >= 0, k <= hi]
            f = z3.And(ints + ([extra] if extra is not None else [])) if ints else extra
            r, m = ex.model(f)
            if r == "sat":
                out.append(matrix(ex, m))
                break
        r, m = ex.model(extra)
        if r == "sat":
            out.append(matrix(ex, m))
    except Exception:
        pass
    return out


def matrix(ex, m):
    res = []
    for row in ex.losses:
        r = []
        for v in row:
            if type(v) is float:
                r.append(v)
                continue
            lin = ex.linear(v)
            if lin is None:
                r.append(float(v.rshadow()))
            else:
                r.append(float(sum(float(c) * m.get(a, 0.0) for c, a in lin[0]) + float(lin[1])))
        res.append(r)
    return res


def leaf(case, w, seed, ex, rec):
    core.fresh()
    al.CTX.explorer = ex
    ex.losses = None
    # counters of forked children start from zero
    orig_fork = ex.fork

    def fork():
        r = orig_fork()
        if r:
            ex.base = dict(smt.STATS)
        return r

    ex.fork = fork
    al.set_solve_mode(case.mode)
    A = core.Api(case.backend, True)
    A.explorer = ex
    ex.box = case.cfg.get("box")
    X = case.symbolic_inputs(w)
    try:
        obls = list(case.fn(A, X, case.cfg))
    finally:
        al.CTX.explorer = None
    z3 = smt.z3
    fails = []
    models = []
    for o in obls:
        if o.kind == "true":
            smt.STATS["obligations"] += 1
            if o.a:
                smt.STATS["discharged"] += 1
                continue
            fails.append(o.name)
            models.extend(costs_of(ex))
            continue
        pairs = core._flat(o.a, o.b, o.kind)
        if o.kind == "leall":
            smt.STATS["obligations"] += 1
            ts = {}
            odd = False
            for i, a, b in pairs:
                if type(a) is float or type(b) is float:
                    odd = odd or not (float(a) if type(a) is float else 0.0) <= (float(b) if type(b) is float else 0.0)
                    continue
                d = al.sub(a, b)
                if d.is_zero():
                    continue
                lin = ex.linear(d)
                if lin is None:
                    odd = True
                    continue
                if not lin[0]:
                    odd = odd or lin[1] > 0
                    continue
                ts.setdefault((al.pkey(d.num), frozenset(d.fac.items())), ex.term(lin) > 0)
            bad = z3.Or(list(ts.values())) if ts else z3.BoolVal(False)
            if odd:
                bad = z3.BoolVal(True)
            r = "unsat" if not ts and not odd else ex.model(bad)[0]
            if r == "unsat":
                smt.STATS["discharged"] += 1
            else:
                fails.append("%s (%s)" % (o.name, r))
                models.extend(costs_of(ex, bad))
            continue
        if pairs is None:
            fails.append("%s: shapes" % o.name)
            models.extend(costs_of(ex))
            continue
        for i, a, b in pairs:
            smt.STATS["obligations"] += 1
            if type(a) is float or type(b) is float:
                fa = a if type(a) is float else 0.0
                fb = b if type(b) is float else 0.0
                ok = (fa == fb and type(a) == type(b)) if o.kind == "eq" else fa <= fb
                if not ok:
                    fails.append("%s%s" % (o.name, list(i)))
                    models.extend(costs_of(ex))
                else:
                    smt.STATS["discharged"] += 1
                continue
            d = al.sub(a, b)
            if d.is_zero():
                smt.STATS["discharged"] += 1
                continue
            lin = ex.linear(d)
            if lin is None:
                r = smt.prove_equal(a, b) if o.kind == "eq" else smt.Result("unknown")
                if r.status == "unsat":
                    smt.STATS["discharged"] += 1
                else:
                    fails.append("%s%s (%s)" % (o.name, list(i), r.status))
                continue
            t = ex.term(lin)
            r, m = ex.model(t != 0 if o.kind == "eq" else t > 0)
            if r == "sat" and o.kind == "eq" and smt.prove_equal(a, b).status == "unsat":
                # different forms of one loss
                r = "unsat"
            if r == "unsat":
                smt.STATS["discharged"] += 1
            else:
                fails.append("%s%s (%s)" % (o.name, list(i), r))
                models.extend(costs_of(ex, t != 0 if o.kind == "eq" else t > 0))
        if len(fails) > 4:
            break
    if fails:
        rec["status"] = "fail"
        rec["note"] = "; ".join(fails[:3])
        rec["costs"] = models[:6]
