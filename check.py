#!/usr/bin/env python3
"""Decides one property:  check.py C05   (environment: VERIF_TIER, VERIF_SEED).

Exit 0: held on everything explored.  Exit 1: violated (VIOLATION line).  Exit 2: no answer.
Also:  check.py --replay <file>   re-runs a recorded counterexample on the real code.
"""
import importlib
import json
import os
import queue
import re
import select
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
EXPL = ("Symbolic execution of the real code (jaxpr traced from /repo's current source, or host Python run on "
        "symbolic proxies) with every obligation decided by an SMT solver for all values within the stated bounds; "
        "counterexamples are replayed on the real code before being reported.")


class Worker:
    def __init__(self):
        self.start()

    def start(self):
        r, w = os.pipe()
        os.set_inheritable(w, True)
        env = dict(os.environ, JSMT_FD=str(w), JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
                   XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
                   JAX_ENABLE_X64="1")
        self.err = open(os.path.join(VERIF, "evidence", "worker.log"), "ab")
        self.p = subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "jsmt", "worker.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.DEVNULL, stderr=self.err, env=env, pass_fds=(w,), cwd=VERIF)
        os.close(w)
        self.r = os.fdopen(r, "r")

    def stop(self):
        try:
            self.p.kill()
            self.p.wait()
        finally:
            self.r.close()
            self.err.close()

    def run(self, req, limit):
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        ok, _, _ = select.select([self.r], [], [], limit)
        if not ok:
            self.stop()
            self.start()
            return dict(status="inconclusive", inconclusive=[f"case exceeded {limit:.0f}s"])
        line = self.r.readline()
        if not line:
            self.stop()
            self.start()
            return dict(status="error", errors=["worker died"])
        return json.loads(line)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) label=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    only = sys.argv[2:]  # optional case ids (development)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    total = 820.0 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", 5400))
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    sys.path.insert(0, VERIF)
    module = prop.lower()
    spec = importlib.import_module("checks." + module + "_cases")
    cases = spec.cases(tier)
    if only:
        cases = [c for c in cases if any(re.search(o, c["id"]) for o in only)]
    q = queue.Queue()
    for i, c in sorted(enumerate(cases), key=lambda ic: -ic[1].get("weight", 1)):
        q.put((i, c))
    results = [None] * len(cases)
    stop = threading.Event()

    def loop():
        w = Worker()
        try:
            while not stop.is_set():
                try:
                    i, c = q.get_nowait()
                except queue.Empty:
                    return
                left = total - (time.time() - t0)
                lim = min(c.get("limit", 300 if tier == "quick" else 1800), left)
                if lim < 5:
                    results[i] = dict(status="inconclusive", inconclusive=["no time left"])
                    continue
                results[i] = w.run(dict(module=module, case=c, seed=seed, limit=lim * 0.9), lim)
                if results[i]["status"] == "violation" and tier == "quick" and not only:
                    stop.set()
        finally:
            w.stop()

    n = min(int(os.environ.get("VERIF_JOBS", "8")), len(cases))
    ths = [threading.Thread(target=loop) for _ in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]

    known = known_findings()
    viol, errs, inconc = [], [], []
    for c, r in zip(cases, results):
        if r is None:
            continue
        for v in r.get("violations", []):
            viol.append((c, v))
        if r["status"] == "error":
            errs += [f"{c['id']}: {e}" for e in r.get("errors", [])]
        elif r["status"] == "inconclusive":
            inconc += [f"{c['id']}: {e}" for e in r.get("inconclusive", [])]
    done = [(c, r) for c, r in zip(cases, results) if r is not None]
    tot = lambda k: sum(r.get(k, 0) or 0 for _, r in done)
    fns = sorted({f for _, r in done for f in r.get("functions", [])})
    prims = sorted({f for _, r in done for f in r.get("prims", [])})
    by = {}
    for _, r in done:
        for k, v in (r.get("by") or {}).items():
            by[k] = by.get(k, 0) + v
    rc = 0
    lines = []
    nv = 0
    for c, v in viol:
        kf = [k for k in known if k[0] == prop and k[1] == c["id"] and v["label"].startswith(k[2])]
        if kf:
            lines.append(f"KNOWN-FINDING: property={prop} {kf[0][3]}")
            continue
        nv += 1
        path = os.path.join(VERIF, "evidence", "replays", f"{prop}-{re.sub('[^A-Za-z0-9_.-]', '_', c['id'])}.json")
        json.dump(dict(property=prop, module=module, case=c, violation=v), open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        lines.append(f"  case {c['id']}: {v['label']} ({v.get('found_by')})")
        for f in v.get("fails", [])[:3]:
            lines.append(f"    {f}")
        rc = 1
    if rc == 0 and (errs or inconc):
        rc = 2
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(spec, "LEVEL", "other"), wall_s=round(time.time() - t0, 2),
              violations=nv,
              coverage=dict(
                  explanation=getattr(spec, "EXPLANATION", EXPL), cases=len(done), cases_planned=len(cases),
                  obligations=tot("obligations"), discharged=tot("discharged"), queries=tot("queries"),
                  simplified_before_solver=tot("trivial"), of_these_confirmed_by_batched_query=tot("confirmed"), solver_seconds=round(tot("solver_s"), 2), solver_answers=by,
                  reachability_witnesses=tot("reach"), translation_validated_runs=tot("validated"),
                  paths=tot("paths"), jaxpr_equations_executed=tot("eqns"), functions_encoded=fns, primitives=prims,
                  bounds=sorted({r.get("bounds", "") for _, r in done if r.get("bounds")}) + [getattr(spec, "BOUNDS", "")],
                  stubs=getattr(spec, "STUBS", []), inconclusive=inconc[:20], errors=[e[:300] for e in errs[:10]],
                  samples=[dict(case=c["id"], status=r["status"], obligations=r.get("obligations"),
                                wall_s=r.get("wall_s")) for c, r in done[:200]]),
              assumptions=getattr(spec, "ASSUMPTIONS", []) + [
                  "real arithmetic with NaN/inf flags; rounding and sign of zero not modelled"])
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    for e in errs[:6]:
        print("ERROR", e[:3000])
    for e in inconc[:10]:
        print("INCONCLUSIVE", e[:500])
    print(f"{prop} {tier}: cases={len(done)}/{len(cases)} obligations={ev['coverage']['obligations']} "
          f"discharged={ev['coverage']['discharged']} queries={ev['coverage']['queries']} "
          f"solver_s={ev['coverage']['solver_seconds']} wall={ev['wall_s']}s rc={rc}")
    if os.environ.get("VERIF_VERBOSE"):
        for c, r in done:
            print(f"  {c['id']:40s} {r['status']:12s} obl={r.get('obligations')} q={r.get('queries')} "
                  f"solver={r.get('solver_s')} wall={r.get('wall_s')} by={r.get('by')}")
    sys.stdout.flush()
    return rc


def replay(path):
    d = json.load(open(path))
    code = ("import sys,json; sys.path.insert(0,%r); import jsmt.worker as w; w.setup(); import importlib\n"
            "d=json.load(open(%r)); m=importlib.import_module('checks.'+d['module'])\n"
            "f=m.replay(d['case'],d['violation'])\n"
            "print('\\n'.join(f) if f else 'does not reproduce'); sys.exit(1 if f else 0)" % (VERIF, path))
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", JAX_ENABLE_X64="1")
    return subprocess.call([PY, "-W", "ignore", "-c", code], env=env, cwd=VERIF)


if __name__ == "__main__":
    sys.exit(main())
