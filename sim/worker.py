"""A simulation process: imports the package under test once, behind the seams, and forks a pristine child per part.

  worker.py OUT JOB      JOB = JSON: {"mode": "run" | "one" | "min" | "zygote", ...}
"""
import copy
import gc
import json
import os
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
import zlib

REAL_TIME = time.time
REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT = int(os.environ.get("VERIF_CPU_LIMIT", "30"))

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import seam  # noqa: E402

seam.install()
sys.path.insert(0, REPO)
seam.import_world(int(os.environ.get("PYTHONHASHSEED", "0")))
import baumeva  # noqa: E402

seam.imported()

if not os.path.realpath(baumeva.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"wrong package: {baumeva.__file__}")
from sim import model, props  # noqa: E402

model.instrument()


# ---------------------------------------------------------------------------------------------------------------
# children

PKG = os.path.join(os.path.dirname(os.path.abspath(baumeva.__file__)), "")
TICKS = {"code": 0, "harness": 0}


def _on_prof(signum, frame):
    """Once per second of processor time: is it the code under test that uses it?"""
    ours = False
    for f in [frame] + list(sys._current_frames().values()):
        while f is not None and not f.f_code.co_filename.startswith(PKG):
            f = f.f_back
        ours = ours or f is not None
    TICKS["code" if ours else "harness"] += 1
    if TICKS["code"] >= CPU_LIMIT:
        TICKS["code"] = CPU_LIMIT - 5
        raise seam.SimHang(f"{CPU_LIMIT} s of processor time used")
    if TICKS["harness"] >= 8 * CPU_LIMIT:
        TICKS["harness"] = 0
        raise seam.SimSlow("the judgement takes too long")


def child(prop, part, wfd):
    signal.signal(signal.SIGPROF, _on_prof)
    TICKS.update(code=0, harness=0)
    signal.setitimer(signal.ITIMER_PROF, 1, 1)
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT * 12, CPU_LIMIT * 12 + 10))
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import warnings
    warnings.simplefilter("ignore")
    seam.start_world()
    try:
        r = prop.exec(part)
    except seam.SimHang as e:
        r = {"viol": [["hang", str(e)]], "fp": "hang", "nt": False, "st": {}, "x": None}
    except BaseException as e:
        loc = props.where(e)
        if loc is not None:
            r = {"viol": [["crash:" + type(e).__name__, f"unexpected {type(e).__name__}: {str(e)[:200]} (in {loc})"]],
                 "fp": "crash", "nt": False, "st": {}, "x": None}
        else:
            r = {"err": traceback.format_exc()[-3000:]}
    signal.setitimer(signal.ITIMER_PROF, 0)
    data = json.dumps(r).encode()
    while data:
        k = os.write(wfd, data)
        data = data[k:]
    os._exit(0)


def run_local(prop, part):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            child(prop, part, w)
        finally:
            os._exit(99)
    os.close(w)
    buf = []
    end = REAL_TIME() + 20 * CPU_LIMIT
    killed = False
    while True:
        ok, _, _ = select.select([r], [], [], max(0.1, end - REAL_TIME()))
        if not ok:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if killed or (os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGPROF)):
        return {"viol": [["hang", "the simulated process used up its time"]], "fp": "hang", "nt": False, "st": {}, "x": None}
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        return {"err": f"child ended with status {status} and no result"}


class Remote:
    """Zygote with another string-hash seed."""

    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), "-", json.dumps({"mode": "zygote"})],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def run(self, prop, part):
        self.p.stdin.write(json.dumps([prop.id, part]).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"err": "zygote ended"}
        return json.loads(line)


_remotes = {}


def run_part(prop, part):
    h = part.get("hash", 0)
    if h == 0:
        return run_local(prop, part)
    if h not in _remotes:
        _remotes[h] = Remote(4242 + h)
    return _remotes[h].run(prop, part)


def run_scn(prop, scn):
    """-> (violations, results, error)"""
    rs = []
    for part in prop.parts(scn):
        r = run_part(prop, part)
        if "err" in r:
            return [], rs, r["err"]
        rs.append(r)
    if any(r["x"] is None and r["viol"] for r in rs):
        return [tuple(v) for r in rs for v in r["viol"]], rs, None
    return [tuple(v) for v in prop.judge(scn, rs)], rs, None


def scenario(prop, seed, i):
    rng = seam.RealRandom(seam.mix(seed, zlib.crc32(prop.id.encode()), i))
    return prop.gen(rng, i)


# ---------------------------------------------------------------------------------------------------------------
# search

def cls(code):
    return code


def search(job):
    prop = props.PROPS[job["prop"]]
    out = {"runs": 0, "parts": 0, "nontrivial": 0, "fps": [], "st": {}, "viol": [], "err": [], "rechecked": 0,
           "recheck_bad": 0, "samples": [], "flaky": 0}
    fps = set()
    t0 = REAL_TIME()
    found = {}
    W = job["W"]
    for block in range(-(-job["n"] // W)):
        i = block * W + (job["w"] + block + block // W) % W     # rotated: expensive scenarios come at fixed intervals
        if i >= job["n"]:
            continue
        if REAL_TIME() - t0 > job["limit"] or len(out["err"]) > 5:
            break
        if found and REAL_TIME() - t0 > job.get("limit_found", 20):
            break
        scn = scenario(prop, job["seed"], i)
        viol, rs, err = run_scn(prop, scn)
        if err:
            out["err"].append({"i": i, "err": err})
            continue
        out["runs"] += 1
        out["parts"] += len(rs)
        for r in rs:
            for k, v in r["st"].items():
                if k.startswith("max_"):
                    out["st"][k] = max(out["st"].get(k, 0), v)
                else:
                    out["st"][k] = out["st"].get(k, 0) + v
        fp = "+".join(r["fp"] for r in rs)
        nt = any(r["nt"] for r in rs)
        if nt:
            out["nontrivial"] += 1
            fps.add(zlib.crc32(fp.encode()) << 32 | zlib.adler32(fp.encode()))
        if i % 61 == 0:
            _, rs2, err2 = run_scn(prop, scn)
            out["rechecked"] += 1
            if err2 or [r["fp"] for r in rs2] != [r["fp"] for r in rs]:
                out["recheck_bad"] += 1
        if len(out["samples"]) < 1 and nt:
            out["samples"].append({"index": i, "scenario": scn, "fingerprint": fp})
        for code, msg in viol[:2]:
            if found.get(code, 0) >= 3:
                continue
            v2, _, _ = run_scn(prop, scn)
            if code not in [c for c, _ in v2]:
                out["flaky"] += 1
                continue
            found[code] = found.get(code, 0) + 1
            out["viol"].append({"i": i, "code": code, "msg": msg, "scn": scn})
        if len(out["viol"]) >= job.get("max_viol", 4):
            break
    out["fps"] = sorted(fps)
    out["wall"] = REAL_TIME() - t0
    return out


# ---------------------------------------------------------------------------------------------------------------
# minimisation

def specs(scn):
    """All client specs inside a scenario (live references)."""
    out = []
    for k in ("c", "prior"):
        if isinstance(scn.get(k), dict):
            out.append(scn[k])
    out += scn.get("cs", [])
    for a in scn.get("acts", []):
        if "full" in a:
            out.append(a["full"])
    return out


def valid(s):
    n = s["n"]
    if n < 4 or s["ngen"] < 1 or len(s.get("inpop") or ()) > n:
        return False
    if s.get("tsize") is not None and s["tsize"] >= n:
        return False
    if isinstance(s.get("sel"), dict) and s["sel"].get("k") is not None and s["sel"]["k"] >= n:
        return False
    from sim import gen
    return gen.child_ok(s)


def ddmin_lists(lst):
    """Candidate sublists, big cuts first."""
    n = len(lst)
    if n == 0:
        return
    yield []
    k = 2
    while k <= n:
        size = (n + k - 1) // k
        for j in range(0, n, size):
            yield lst[:j] + lst[j + size:]
        if size == 1:
            break
        k *= 2


def shrinks(scn, rs):
    c = copy.deepcopy
    if scn.get("reach") or scn.get("dist"):
        return      # statistical scenarios: fewer samples would not be the same violation
    if len(scn.get("cs", ())) > 1:
        for j in range(len(scn["cs"])):
            s = c(scn)
            del s["cs"][j]
            if s["sch"].get("switches") is not None:
                # renumber
                def ren(t):
                    return t - 1 if t > j else t
                s["sch"]["switches"] = [[p, ren(t)] for p, t in s["sch"]["switches"] if t != j]
                s["sch"]["ends"] = [[ren(a), ren(b)] for a, b in s["sch"].get("ends", []) if j not in (a, b)]
            s["sch"]["first"] = 0
            yield s
    for j in range(len(scn.get("acts", ()))):
        if len(scn["acts"]) > 1:
            s = c(scn)
            del s["acts"][j]
            yield s
        if scn["acts"][j].get("faults"):
            s = c(scn)
            s["acts"][j]["faults"] = []
            yield s
    for j, e in enumerate(scn.get("envs", ())):
        for q in range(len(e["prior"])):
            s = c(scn)
            del s["envs"][j]["prior"][q]
            yield s
        if e["hash"] and scn.get("mode") != "unset":
            s = c(scn)
            s["envs"][j]["hash"] = 0
            yield s
        if j:
            for f in ("clock", "clock_step", "entropy", "s"):
                if e[f] != scn["envs"][0][f]:
                    s = c(scn)
                    s["envs"][j][f] = scn["envs"][0][f]
                    yield s
    if isinstance(scn.get("prior"), dict):
        s = c(scn)
        s["prior"] = None
        yield s
    for k in range(len(specs(scn))):
        sp = specs(scn)[k]

        def mod(**kw):
            s = c(scn)
            specs(s)[k].update(kw)
            return s if valid(specs(s)[k]) else None
        cand = []
        for g in (1, 2, sp["ngen"] // 2, sp["ngen"] - 1):
            if 1 <= g < sp["ngen"]:
                cand.append(mod(ngen=g))
        for n in (4, sp["n"] // 2, sp["n"] - 1):
            if 4 <= n < sp["n"]:
                cand.append(mod(n=n))
        if sp.get("inpop"):
            cand.append(mod(inpop=None))
            cand.append(mod(inpop=sp["inpop"][:len(sp["inpop"]) // 2] or None))
        for f in ("input", "obj_value", "tp", "lvl", "cp", "tsize"):
            if sp.get(f) is not None:
                cand.append(mod(**{f: None}))
        if sp.get("penalty") is not None and "conds" in sp["obj"]:
            s = c(scn)
            del specs(s)[k]["penalty"], specs(s)[k]["obj"]["conds"]
            cand.append(s)
        if sp.get("early") is not None:
            cand.append(mod(early=None))
        if sp.get("faults"):
            for fl in ddmin_lists(sp["faults"]):
                cand.append(mod(faults=fl))
        if sp["stream"].get("p"):
            cand.append(mod(stream=dict(sp["stream"], p=0.0)))
        for s in cand:
            if s is not None:
                yield s


def minimise(job):
    prop = props.PROPS[job["prop"]]
    scn, code = job["scn"], job["code"]
    end = REAL_TIME() + job.get("budget", 40)
    viol, rs, err = run_scn(prop, scn)
    if code not in [x for x, _ in viol]:
        return {"ok": False}
    msg = dict(reversed(viol))[code]
    tried = 0

    def attempt(s):
        nonlocal tried
        tried += 1
        v, r, e = run_scn(prop, s)
        if e is None and code in [x for x, _ in v]:
            return dict(reversed(v))[code], r
        return None

    improved = True
    while improved and REAL_TIME() < end:
        improved = False
        for s in shrinks(scn, rs):
            if REAL_TIME() > end:
                break
            got = attempt(s)
            if got:
                scn, (msg, rs) = s, got
                improved = True
                break
    if hasattr(prop, "explicit") and rs and rs[-1].get("x") and "taken" in (rs[-1]["x"] or {}):
        s = prop.explicit(scn, rs)
        got = attempt(s)
        if got:
            scn, (msg, rs) = s, got
            again = True
            while again and REAL_TIME() < end + 20:
                again = False
                for sw in ddmin_lists(scn["sch"]["switches"]):
                    if REAL_TIME() > end + 20:
                        break
                    s = copy.deepcopy(scn)
                    s["sch"]["switches"] = sw
                    got = attempt(s)
                    if got:
                        scn, (msg, rs) = s, got
                        again = True
                        break
    # injected extreme draws: keep only those needed
    for k in range(len(specs(scn))):
        sp = specs(scn)[k]
        if not sp["stream"].get("p") or "c" not in scn:
            continue
        fired = (rs[-1].get("fired") or []) if len(rs) == 1 else []
        if not fired:
            continue
        cur = fired
        s = copy.deepcopy(scn)
        specs(s)[k]["stream"]["keep"] = cur
        got = attempt(s)
        again = bool(got)
        if got:
            scn, (msg, rs) = s, got
        while again and REAL_TIME() < end + 20:
            again = False
            for sub in ddmin_lists(cur):
                if REAL_TIME() > end + 20:
                    break
                s = copy.deepcopy(scn)
                specs(s)[k]["stream"]["keep"] = sub
                got = attempt(s)
                if got:
                    scn, (msg, rs) = s, got
                    cur = sub
                    again = True
                    break
    return {"ok": True, "scn": scn, "msg": msg, "tried": tried, "fp": "+".join(r["fp"] for r in rs)}


# ---------------------------------------------------------------------------------------------------------------

def main():
    outp, job = sys.argv[1], sys.argv[2]
    if job.startswith("@"):
        with open(job[1:]) as f:
            job = f.read()
    job = json.loads(job)
    gc.collect()
    gc.freeze()
    if job["mode"] == "zygote":
        out = os.fdopen(os.dup(1), "w")
        for line in sys.stdin:
            pid, part = json.loads(line)
            out.write(json.dumps(run_local(props.PROPS[pid], part)) + "\n")
            out.flush()
        return
    if job["mode"] == "run":
        res = search(job)
    elif job["mode"] == "min":
        res = minimise(job)
    else:
        prop = props.PROPS[job["prop"]]
        v, rs, err = run_scn(prop, job["scn"])
        res = {"viol": v, "err": err, "fp": "+".join(r["fp"] for r in rs)}
    with open(outp, "w") as f:
        json.dump(res, f)
    for r in _remotes.values():
        r.p.stdin.close()
        r.p.wait()


if __name__ == "__main__":
    main()
