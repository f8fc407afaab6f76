"""Runs the cases of a property in parallel, replays counterexamples on the
unpatched library and writes the evidence."""
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

from . import core
from .props import extent

PY = sys.executable
CHECK = os.path.join(core.VERIF, "check.py")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def known_findings():
    """[(property, case id prefix, text)] of recorded, unrepaired findings"""
    out = []
    p = os.path.join(core.VERIF, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        f = dict(x.split("=", 1) for x in line[len("known:"):].split(" -- ")[0].split())
        out.append((f["property"], f["case"], line.split(" -- ", 1)[1]))
    return out


class Job:
    def __init__(self, case, seed, tier):
        self.case = case
        r, w = os.pipe()
        self.t0 = time.time()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                try:
                    res = core.run_case(case, seed, tier)
                except Exception as e:
                    res = core.new_out(case)
                    res["status"] = "inconclusive"
                    res["notes"].append("error in the machinery: %s" % traceback.format_exc()[-3000:])
                data = json.dumps(res, default=str).encode()
                while data:
                    n = os.write(w, data)
                    data = data[n:]
                os.close(w)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        try:
            os.setpgid(self.pid, self.pid)
        except OSError:
            pass
        os.close(w)
        self.fd = r
        self.buf = b""

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        self.reap()

    def reap(self):
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        try:
            os.close(self.fd)
        except OSError:
            pass
        try:
            # forked explorers of the same group
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass


def child_env():
    e = dict(os.environ)
    e["OMP_NUM_THREADS"] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def run_limited(cmd, timeout):
    """(exit code or None on timeout, stdout)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=child_env(), preexec_fn=os.setsid)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, (out or b"").decode(errors="replace")


def replay_file(prop, case, seed, tier, inputs, message):
    d = os.path.join(core.SCRATCH, "replay")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s" % (prop, "".join(c if c.isalnum() else "_" for c in case.id)[:80])
    path = os.path.join(d, name + ".json")
    with open(path, "w") as f:
        json.dump({"property": prop, "case": case.id, "seed": seed, "tier": tier, "inputs": inputs,
                   "message": message}, f, indent=1)
    return path


REPLAY_LIMIT = 90


def confirm(path):
    """does the recorded input break the property on the real library?"""
    rc, out = run_limited([PY, CHECK, "--replay", path], REPLAY_LIMIT)
    if rc is None:
        return True, "does not terminate within %d s" % REPLAY_LIMIT
    if rc == 1:
        msg = [l for l in out.splitlines() if l.startswith("REPRODUCED")]
        return True, (msg[0][len("REPRODUCED "):] if msg else "")
    return False, out[-400:]


def hunt_subprocess(prop, case, seed, tier):
    """concrete search around the witness in a fresh process (used when the
    symbolic run did not finish): (message, inputs) or None"""
    d = os.path.join(core.SCRATCH, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "hunt-%d-%s.json" % (os.getpid(), "".join(c if c.isalnum() else "_" for c in case.id)[:80]))
    rc, out = run_limited([PY, CHECK, "--hunt", prop, case.id, str(seed), tier, path], 60)
    try:
        with open(path) as f:
            rec = json.load(f)
    except Exception:
        return None
    if rc == 1:
        return rec.get("message"), rec["inputs"]
    if rc is None and rec.get("running"):
        return "does not terminate", rec["inputs"]
    return None


def warm():
    """import what the first symbolic torch run needs before forking"""
    from . import props, oracle

    def f(A, X, cfg):
        yield core.eq("x", A.call("si_sdr", X["ref"], X["est"]), A.call("si_sdr", X["ref"], X["est"]))

    try:
        core.run_case(core.Case("warm", f, "torch", {"ref": (1, 2), "est": (1, 2)}, flips=False), 1, "quick")
    except Exception:
        pass
    core.fresh()


def run_property(prop, tier, seed):
    """returns the exit code"""
    t0 = time.time()
    core.lib()
    from . import smt

    smt.load()
    warm()
    cases = [c for c in prop.cases(tier) if tier in c.tiers]
    only = os.environ.get("VERIF_CASE")
    if only:
        cases = [c for c in cases if only in c.id]
    # long cases first
    order = sorted(range(len(cases)), key=lambda i: -getattr(cases[i], "weight", 1))
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "820"))
    pending = [cases[i] for i in order]
    running = []
    results = []
    violation = None
    known = [k for k in known_findings() if k[0] == prop.id]
    known_seen = {}
    not_run = []

    def handle(case, res):
        nonlocal violation
        results.append((case, res))
        if res["status"] != "violation":
            return
        path = replay_file(prop.id, case, seed, tier, res["inputs"], res["message"])
        ok, msg = confirm(path)
        if not ok:
            res["status"] = "inconclusive"
            res["notes"].append("counterexample not reproduced: %s / %s" % (res["message"], msg))
            return
        res["message"] = msg or res["message"]
        for k in known:
            if case.id.startswith(k[1]):
                res["status"] = "known"
                known_seen[k] = res["message"]
                return
        if violation is None:
            violation = (case, res, path)

    while (pending or running) and violation is None:
        while pending and len(running) < WORKERS:
            if time.time() - t0 > budget:
                not_run.extend(pending)
                pending = []
                break
            running.append(Job(pending.pop(0), seed, tier))
        if not running:
            break
        rl, _, _ = select.select([j.fd for j in running], [], [], 0.5)
        for j in list(running):
            done = False
            if j.fd in rl:
                chunk = os.read(j.fd, 1 << 20)
                if chunk:
                    j.buf += chunk
                else:
                    done = True
            if done:
                running.remove(j)
                j.reap()
                try:
                    res = json.loads(j.buf.decode())
                except Exception:
                    res = core.new_out(j.case)
                    res.update(status="inconclusive", solver={}, functions=[], wall_s=time.time() - j.t0)
                    res["notes"].append("the case process died")
                    h = hunt_subprocess(prop.id, j.case, seed, tier)
                    if h:
                        res.update(status="violation", message=h[0], inputs=h[1])
                handle(j.case, res)
            elif time.time() - j.t0 > j.case.timeout:
                running.remove(j)
                j.kill()
                res = core.new_out(j.case)
                res.update(status="inconclusive", solver={}, functions=[], wall_s=time.time() - j.t0)
                res["notes"].append("not decided within %d s" % j.case.timeout)
                h = hunt_subprocess(prop.id, j.case, seed, tier)
                if h:
                    res.update(status="violation", message=h[0], inputs=h[1])
                handle(j.case, res)
            if violation:
                break
    for j in running:
        j.kill()
    wall = time.time() - t0
    write_evidence(prop, tier, seed, results, not_run, violation, known_seen, wall)
    for k, m in known_seen.items():
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop.id, k[2], m))
    n = len(results)
    inc = [(c, r) for c, r in results if r["status"] == "inconclusive"]
    ok = sum(r["status"] == "ok" for _, r in results)
    for c, r in inc:
        print("INCONCLUSIVE %s: %s" % (c.id, "; ".join(r["notes"])[-400:]))
    if not_run:
        print("INCONCLUSIVE %d cases not started within the time budget" % len(not_run))
    q = sum(r.get("solver", {}).get("queries", 0) for _, r in results)
    print("%s %s: %d cases, %d decided, %d inconclusive, %d queries, %.1f s" % (prop.id, tier, n + len(not_run), ok, len(inc) + len(not_run), q, wall))
    if os.environ.get("VERIF_VERBOSE"):
        for c, r in sorted(results, key=lambda x: -x[1]["wall_s"])[:40]:
            print("%7.1f %s %s paths=%d %s %s" % (r["wall_s"], c.id, r["status"], r["paths"], r["branches"], r["solver"]))
    if violation:
        c, r, path = violation
        print("case %s: %s" % (c.id, r["message"]))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if 4 * (n - len(inc)) < n + len(not_run):
        print("no verdict: too few cases could be decided")
        return 2
    return 0


def write_evidence(prop, tier, seed, results, not_run, violation, known_seen, wall):
    tot = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "obligations": 0, "discharged": 0}
    br = {}
    fns = set()
    paths = vv = traces = 0
    for c, r in results:
        for k, v in r.get("solver", {}).items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r["branches"].items():
            br[k] = br.get(k, 0) + v
        fns.update(r.get("functions", []))
        paths += r["paths"]
        vv += r["validated_values"]
        traces += r.get("validated_traces", 0)
    by = {}
    for c, r in results:
        by.setdefault(r["status"], []).append(c.id)
    samples = []
    for c, r in results[:6]:
        samples.append({"case": c.id, "backend": c.backend, "shapes": {k: list(v) for k, v in c.shapes.items()},
                        "config": {k: str(v) for k, v in c.cfg.items()}, "status": r["status"], "paths": r["paths"],
                        "solver": r.get("solver")})
    cov = {
        "states": paths,
        "transitions": sum(br.values()) - br.get("total", 0) if br else 0,
        "traces_validated_against_impl": traces,
        "samples": samples,
        "rule": "one state = one execution path of the library, run from /repo's source on symbolic samples; one transition = one "
                "branch condition of those paths (closed: the other side is unsatisfiable; flipped: the other side was executed "
                "too; assignment: branch between losses decided by the solver, both feasible sides executed; open: the other side was "
                "not examined; measure_zero: excluded equalities); a validated trace = a path whose symbolic outputs were compared "
                "with a run of the real library on the same concrete samples",
        "cases": len(results),
        "cases_with_solver_queries": sum(1 for _, r in results if r["status"] in ("ok", "known") and r.get("solver", {}).get("queries", 0) > 0),
        "cases_inconclusive": by.get("inconclusive", []),
        "cases_not_run": [c.id for c in not_run],
        "functions_encoded": sorted(fns),
        "bounds": prop.bounds + ". This run: " + extent([c for c, r in results if r["status"] in ("ok", "known")]),
        "solver": {"name": "z3", "queries": tot["queries"], "unsat": tot["unsat"], "sat": tot["sat"],
                   "unknown": tot["unknown"], "time_s": round(tot["time"], 3), "obligations": tot["obligations"],
                   "obligations_discharged": tot["discharged"]},
        "branch_outcomes": br,
        "values_compared_with_real_run": vv,
        "explanation": prop.explanation,
    }
    ev = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": prop.level,
        "coverage": cov,
        "wall_s": round(wall, 2),
        "assumptions": prop.assumptions,
        "violations": 1 if violation else 0,
    }
    if violation:
        c, r, path = violation
        cov["violation"] = {"case": c.id, "message": r["message"], "replay": path}
    if known_seen:
        cov["known_findings_reproduced"] = ["%s: %s" % (k[2], m) for k, m in known_seen.items()]
    d = os.path.join(core.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


# ----------------------------------------------------------------------------


def find_case(props, pid, cid, tier):
    p = props[pid]
    for t in (tier, "quick", "thorough"):
        for c in p.cases(t):
            if c.id == cid:
                return c
    raise SystemExit("no such case %s" % cid)


def do_replay(props, path):
    """0: holds, 1: reproduced"""
    rec = json.load(open(path))
    core.lib(patched=False)
    case = find_case(props, rec["property"], rec["case"], rec.get("tier", "quick"))
    import numpy as np

    w = {k: np.array(v, dtype=float) for k, v in rec["inputs"].items()}
    m = core.concrete(case, w)
    if m:
        print("REPRODUCED %s" % m)
        return 1
    print("NOT REPRODUCED")
    return 0


def do_hunt(props, pid, cid, seed, tier, path):
    core.lib(patched=False)
    import numpy as np

    case = find_case(props, pid, cid, tier)

    def save(w, running, msg=None):
        with open(path + ".tmp", "w") as f:
            json.dump({"inputs": {k: np.asarray(v).tolist() for k, v in w.items()}, "running": running, "message": msg}, f)
        os.replace(path + ".tmp", path)

    w0 = case.draw(seed, 0)
    n = 0
    for k in range(6):
        for w in core.stress(case, w0 if k == 0 else case.draw(seed, k), seed):
            save(w, True)
            m = core.concrete(case, w)
            save(w, False, m)
            if m:
                return 1
    return 0
