#!/usr/bin/env python3
"""Deterministic-simulation checks.

  check.py --prop C05 [--tier quick|thorough] [--n RUNS] [--workers W]
  check.py --replay FILE

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.environ.get("VERIF_REPO", "/repo")
FINDINGS = os.path.join(HERE, "known_findings.json")

LIMIT = {"quick": 240, "thorough": 1500}

FAULTS = {"fault_extreme_draw": "extreme or repeated random draw", "fault_objective_exception": "exception from the objective",
          "fault_stdout_write_error": "failing write to standard output", "context_switches": "forced thread switch",
          "env_run": "earlier run in the process", "env_draw": "earlier draws from the global generator",
          "env_reseed": "earlier reseeding of the global generator", "env_heap": "heap noise", "env_names": "hash-table noise",
          "env_setseed": "library seed changed before the run"}


class Pool:
    def __init__(self):
        self.scratch = tempfile.mkdtemp(prefix="verif-sim-")
        self.k = 0

    def start(self, job):
        self.k += 1
        base = os.path.join(self.scratch, str(self.k))
        with open(base + ".job", "w") as f:
            json.dump(job, f)
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX=os.path.join(self.scratch, "pyc"),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, VERIF_REPO=REPO)
        p = subprocess.Popen([PY, "-B", os.path.join(HERE, "sim", "worker.py"), base + ".out", "@" + base + ".job"],
                             env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        return p, base + ".out"

    def finish(self, h):
        p, out = h
        _, err = p.communicate()
        if p.returncode != 0 or not os.path.exists(out):
            raise RuntimeError(f"worker failed ({p.returncode}): {err.decode()[-2000:]}")
        with open(out) as f:
            return json.load(f)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def meta():
    """Counts per property, without importing the package under test."""
    sys.path.insert(0, HERE)
    from sim.plan import PLAN
    return PLAN


def findings(prop):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop and x["status"] == "known"]


def check(a):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier
    plan = meta()[a.prop]
    n = a.n or plan[tier]
    pool = Pool()
    t0 = time.time()
    code = 0
    try:
        hs = [pool.start({"mode": "run", "prop": a.prop, "seed": seed, "tier": tier, "w": w, "W": a.workers, "n": n,
                          "limit": a.limit or LIMIT[tier]}) for w in range(a.workers)]
        rs = [pool.finish(h) for h in hs]
        viols = sorted((v for r in rs for v in r["viol"]), key=lambda v: v["i"])
        errs = [e for r in rs for e in r["err"]]
        for e in errs[:3]:
            print("HARNESS-ERROR scenario %s: %s" % (e["i"], e["err"]), file=sys.stderr)
        known = findings(a.prop)
        for k in known:
            # a known finding is a fixed scenario that fails with a fixed code; it is run every time
            r = pool.finish(pool.start({"mode": "one", "prop": a.prop, "scn": k["scenario"]}))
            if k["code"] in [c for c, _ in r["viol"]]:
                print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
            else:
                print(f"note: known finding '{k['what']}' no longer occurs")
        reported = {}
        for v in viols:
            reported.setdefault(v["code"], v)
        rep = list(reported.values())[:3]
        mins = [(v, pool.start({"mode": "min", "prop": a.prop, "scn": v["scn"], "code": v["code"],
                                "budget": a.min_budget})) for v in rep]
        for v, h in mins:
            m = pool.finish(h)
            scn, msg = (m["scn"], m["msg"]) if m["ok"] else (v["scn"], v["msg"])
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (a.prop, v["code"].replace(":", "_"), v["i"]))
            with open(path, "w") as f:
                json.dump({"property": a.prop, "code": v["code"], "message": msg, "seed": seed, "tier": tier, "index": v["i"],
                           "scenario": scn, "original": v["scn"], "fingerprint": m.get("fp")}, f, indent=1)
            print(f"  {v['code']}: {msg}")
            print(f"  seed {seed}, scenario {v['i']}, minimised in {m.get('tried')} runs")
            print(f"VIOLATION property={a.prop} replay={path}", flush=True)
            code = 1
        evidence(a, seed, tier, n, rs, time.time() - t0, len(viols))
        if code == 0 and errs:
            code = 2
        if code == 0:
            tot = sum(r["runs"] for r in rs)
            print(f"{a.prop}: held on {tot} simulated scenarios (seed {seed}, {tier}, {time.time() - t0:.1f} s)")
    finally:
        pool.close()
    return code


def evidence(a, seed, tier, n, rs, wall, nviol):
    from sim.plan import PLAN, LEVEL, REAL, STUB
    st = {}
    for r in rs:
        for k, v in r["st"].items():
            st[k] = max(st.get(k, 0), v) if k.startswith("max_") else st.get(k, 0) + v
    fps = set()
    for r in rs:
        fps.update(r["fps"])
    runs = sum(r["runs"] for r in rs)
    parts = sum(r["parts"] for r in rs)
    search = max([r["wall"] for r in rs] + [0.001])
    cov = {"evaluations": runs, "distinct_nontrivial": len(fps), "rule": PLAN[a.prop]["rule"],
           "samples": [s for r in rs for s in r["samples"]][:3],
           "simulated_processes": parts, "nontrivial_scenarios": sum(r["nontrivial"] for r in rs),
           "scenarios_planned": n, "runs_per_hour": int(parts / search * 3600), "seeds_per_hour": int(runs / search * 3600),
           "simulated_time": {"generations": st.get("generations", 0), "random_draws": st.get("random_draws", 0),
                              "objective_evaluations": st.get("evaluations", 0),
                              "schedule_points": st.get("schedule_points", 0),
                              "note": "the library has no timers; logical time is counted in these steps"},
           "faults_injected": {FAULTS[k]: st.get(k, 0) for k in FAULTS if st.get(k)},
           "counters": {k: v for k, v in sorted(st.items()) if k not in FAULTS},
           "determinism_recheck": {"rerun": sum(r["rechecked"] for r in rs), "differing": sum(r["recheck_bad"] for r in rs),
                                   "unreproduced_alarms_dropped": sum(r["flaky"] for r in rs)},
           "components_real": REAL, "components_stub": STUB}
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": LEVEL[a.prop], "coverage": cov,
          "assumptions": PLAN[a.prop].get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    pool = Pool()
    try:
        r = pool.finish(pool.start({"mode": "one", "prop": d["property"], "scn": d["scenario"]}))
    finally:
        pool.close()
    if r["err"]:
        print(r["err"], file=sys.stderr)
        return 2
    for c, m in r["viol"]:
        print(f"  {c}: {m}")
    if d["code"] in [c for c, _ in r["viol"]]:
        same = "identical execution" if r["fp"] == d.get("fingerprint") else "same violation, other execution"
        print(f"  reproduced ({same})")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0


def selftest():
    """Is everything the checks need there?  (Nothing is built: the package is imported from the working tree.)"""
    plan = meta()
    assert os.path.exists(PY), PY
    pool = Pool()
    try:
        r = pool.finish(pool.start({"mode": "run", "prop": "C05", "seed": 1, "tier": "quick", "w": 0, "W": 1, "n": 3, "limit": 60}))
    finally:
        pool.close()
    print(f"{len(plan)} properties; {r['runs']} scenarios simulated")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--limit", type=float, default=0)
    ap.add_argument("--min-budget", type=float, default=40)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    try:
        if a.selftest:
            return selftest()
        return replay(a.replay) if a.replay else check(a)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
