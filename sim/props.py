"""The properties: scenario generation, execution inside a pristine simulated process, judgement.

A property has
  gen(rng, i)        -> scenario (plain JSON data; the only input of everything below)
  parts(scn)         -> list of parts; each part is executed in its own freshly forked process, in the interpreter
                        variant part.get("hash", 0)
  exec(part)         -> result {"viol": [[code, msg]], "fp": fingerprint, "nt": non-trivial, "st": counters, "x": ...}
  judge(scn, results)-> list of (code, msg)
"""
import collections
import copy
import itertools
import math
import os
import pickle
import random as _r
import signal
import traceback

from . import gen as G
from . import model, objective, oracles as O
from .model import Args, Run, canon, canon_data, cp_, digest, eff, mk_component, pop_class
from .seam import CTX, WRITE_ERRORS, Client, SimHang
from .sched import Sched

BUDGET = 400000
Z = 6.5


def pkg_dir():
    import baumeva
    import os
    return os.path.dirname(os.path.abspath(baumeva.__file__))


# ---------------------------------------------------------------------------------------------------------------
# helpers

def budget(spec):
    """Draws one step may take: generous for the rejection sampling of a whole crowded generation."""
    n = spec.get("n", 10)
    return BUDGET + 30 * n * (n + 20)


def begin(spec, env=None):
    CTX.reset(env)
    if env is None:     # how long things take, and whether the wall clock jumps
        k = spec["stream"]["s"]
        CTX.clock_step = (0.001, 0.001, 0.5, 60.0, 5000.0)[k % 5]
        CTX.jumpy = k // 5 % 3 == 0
    c = CTX.main
    c.set_stream(spec["stream"])
    c.budget = budget(spec)
    return c


def run_one(spec, rec=("gen",), env=None, args=None, log=False):
    c = begin(spec, env)
    if log:
        c.stream.log = []
    r = Run(spec, c, rec, args)
    r.start()
    return r


def where(exc):
    pd = pkg_dir()
    last = None
    for f, _ in traceback.walk_tb(exc.__traceback__):
        if f.f_code.co_filename.startswith(pd):
            last = f.f_code.co_name
    return last


def injected(run):
    if run.exc is None:
        return False
    return any(run.exc is x for x in run.obj.raised) or (run.exc is run.client.stdout.exc) or run.irq_exc is not None


def base_viol(run):
    if run.status == "hang":
        return [("hang", f"no end of a step: {run.exc}")]
    if run.status == "exc" and not injected(run):
        return [("crash:" + type(run.exc).__name__,
                 f"run ended with unexpected {type(run.exc).__name__}: {str(run.exc)[:200]} (in {where(run.exc)})")]
    return []


def stats(run, st=None):
    st = {} if st is None else st

    def add(k, v):
        if v:
            st[k] = st.get(k, 0) + v
    add("optimiser_runs", 1)
    add("random_draws", run.client.stream.n)
    add("evaluations", len(run.obj.calls))
    add("generations", len(run.gens))
    add("fault_extreme_draw", len(run.client.stream.fired))
    add("fault_objective_exception", len(run.obj.raised))
    add("fault_stdout_write_error", run.client.stdout.fired)
    add("retried_steps", run.retries)
    add("fault_interrupt_at_line", run.irq_exc is not None)
    add("fault_malformed_result", run.obj.badn)
    add("kind_" + run.spec["kind"], 1)
    return st


def judged(fns, run):
    out = base_viol(run)
    for f in fns:
        if out:
            break
        try:
            out = [tuple(x) for x in f(run)]
        except SimHang:
            raise
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            out = [("malformed-data", f"the recorded data cannot be read: {type(ex).__name__}: {ex} ({f.__name__}, "
                                      f"{tb.name}:{tb.lineno})")]
    return out


def result(viol, run=None, fp=None, nt=True, st=None, x=None):
    if fp is None:
        fp = digest(run.outcome())
    return {"viol": [list(v) for v in viol[:3]], "fp": fp, "nt": bool(nt), "st": st if st is not None else stats(run), "x": x,
            "fired": run.client.stream.fired[:2000] if run is not None else None}


class Prop:
    id = None
    rec = ("gen",)
    oracles = ()
    quick = 600
    thorough = 20000
    rule = ""

    def gen(self, rng, i):
        raise NotImplementedError

    def parts(self, scn):
        return [scn]

    def exec(self, part):
        run = run_one(part["c"], self.rec)
        v = judged(self.oracles, run)
        return result(v, run, nt=self.nontrivial(run))

    def nontrivial(self, run):
        return len(run.gens) >= 2

    def judge(self, scn, rs):
        return [tuple(v) for r in rs for v in r["viol"]]


RULE_RUN = ("one simulated optimiser run from a seeded scenario (algorithm or component assembly, gene declaration, sizes, "
            "objective family, draw stream with injected extremes, faults); distinct = digest of all evaluations, "
            "populations, histories, best solution and output; non-trivial = ")


def fresh_space(spec):
    return spec


# ---------------------------------------------------------------------------------------------------------------
# C01 reproducibility

SEEDS = [0, 1, 42, -1, -7, 2 ** 31, 2 ** 40 + 5, 12345, 7, 2 ** 70]


def irq(rng):
    return {"line": int(10 ** rng.uniform(0, rng.choice([3, 4, 4.7]))),
            "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit", "UserInterrupt", "TimeoutError"])}


def prior_actions(rng):
    acts = []
    for _ in range(rng.randint(0, 4)):
        t = rng.choice(["draw", "reseed", "heap", "run", "setseed", "run", "names"])
        a = {"a": t, "v": rng.randrange(1, 400)}
        if t == "run":
            a["spec"] = G.single(rng, maxn=6, maxgen=3, big=0.0) if rng.random() < 0.7 else G.multi(rng, maxn=6, maxgen=2, big=0.0)
            a["seed"] = rng.choice([None, 3, 0])
            if rng.random() < 0.25:
                a["irq"] = irq(rng)
        acts.append(a)
    return acts


class C01(Prop):
    id = "C01"
    quick = 10000
    thorough = 120000
    rule = ("the same seeded run executed in two processes that differ in string-hash seed, clock, OS entropy, heap, earlier "
            "runs, earlier draws and reseedings; or the same unseeded run under two entropies; distinct = digest of "
            "the outcome; non-trivial = at least two generations and at least one environment difference")

    def gen(self, rng, i):
        mode = rng.choice(["same", "same", "same", "unset"])
        multi = rng.random() < 0.25
        if mode == "unset":
            spec = G.multi(rng, maxn=10, maxgen=3, bias=0.0) if multi else G.single(rng, minn=6, maxn=12, maxgen=3, bias=0.0)
            spec["inpop"] = None
            k = spec["gens"]["k"]
            if k == "bin":
                spec["gens"]["g"] = [[0, 1023, 1], [-5, 5, 0.01]]
            elif k == "cat":
                spec["gens"]["g"] = [{"r": [0, 99, 1]} for _ in range(4)]
            else:
                spec["gens"]["g"] = [0, 19, 8]
            seed = None
        else:
            spec = G.multi(rng, bias=0.0) if multi else G.single(rng, bias=0.0)
            if rng.random() < 0.3:
                spec["stream"]["p"] = 0.1
            seed = rng.choice(SEEDS) if rng.random() < 0.4 else rng.choice([1, 1, -1]) * rng.getrandbits(rng.choice([4, 8, 16, 33, 64, 80]))
        envs = []
        for j in range(2):
            envs.append({"hash": rng.randrange(2) if mode == "same" else j, "clock": rng.choice([1.7e9, 0.0, 4e9, 1e5]) + rng.random(),
                         "clock_step": rng.choice([0.0, 0.001, 5.0, -1.0]), "entropy": rng.getrandbits(32),
                         "pid": rng.choice([1, 7, 7, 30000 + rng.randrange(9000)]), "s": rng.getrandbits(40), "prior": prior_actions(rng) if mode == "same" else []})
        if mode == "same" and rng.random() < 0.7:
            envs[1]["hash"] = 1 - envs[0]["hash"]
        return {"mode": mode, "c": spec, "seed": seed, "envs": envs}

    def parts(self, scn):
        return [{"c": scn["c"], "seed": scn["seed"], "env": e, "hash": e["hash"], "mode": scn["mode"]} for e in scn["envs"]]

    def exec(self, part):
        import random
        import baumeva
        env = part["env"]
        spec = dict(part["c"])
        spec["stream"] = dict(spec["stream"], s=env["s"])
        c = begin(spec, env)
        st = {}
        junk = []
        for a in env["prior"]:
            t, v = a["a"], a["v"]
            st["env_" + t] = st.get("env_" + t, 0) + 1
            if t == "draw":
                for _ in range(v):
                    random.random()
                random.sample(range(50), 5)
            elif t == "reseed":
                random.seed(v)
            elif t == "heap":
                junk.append([object() for _ in range(v * 7)])
                junk.append({str(k): [k] for k in range(v)})
            elif t == "names":
                junk.append({f"{v}_{k}" for k in range(v)})
            elif t == "setseed":
                baumeva.generator.rnd_seed = v
            elif t == "run":
                baumeva.generator.rnd_seed = a["seed"]
                c.set_stream(dict(a["spec"]["stream"], s=env["s"] + v))
                r0 = Run(a["spec"], c, ())
                r0.irq = a.get("irq")
                r0.start()
                if r0.irq_exc is not None:
                    st["fault_interrupt_at_line"] = st.get("fault_interrupt_at_line", 0) + 1
                if r0.status == "hang":
                    return result([("hang", str(r0.exc))], r0)
        baumeva.generator.rnd_seed = part["seed"]
        old = c.stream
        c.set_stream(dict(spec["stream"], s=env["s"] + 17 * len(env["prior"])))
        c.stream.core.setstate(old.core.getstate())
        c.stdout = type(c.stdout)()
        log = c.stream.log = []
        seedings = []
        real_seed = c.stream.seed

        run = Run(spec, c, ("gen", "sel", "cx", "mut", "ng"))

        def seed(a=None, version=2):
            seedings.append((len(run.gens), a))
            return real_seed(a, version)
        c.stream.seed = seed
        run.start()
        v = base_viol(run)
        if not v and part["seed"] is not None:
            late = [(g, a) for g, a in seedings if g >= 1]
            if late:
                v = [("stream-restarted", f"the random stream was started again with {late[0][1]!r} after generation "
                                          f"{late[0][0] - 1} was recorded")]
            elif not part["c"]["stream"]["p"]:
                v = replayed(run, log)
        x = {"out": digest(run.outcome()), "lines": [digest(t) for t in run.outcome().split("\n")],
             "txt": [t[:160] for t in run.outcome().split("\n")],
             "init": digest(canon([list(a) for a, _ in run.obj.calls[:spec["n"]]]))}
        if part["mode"] == "unset" and run.gens and run.gens[0] is not None:
            x["init"] = digest(canon([s.g for s in run.gens[0].pop]))
        stats(run, st)
        return result(v, run, st=st, x=x, nt=len(run.gens) >= 2)

    def judge(self, scn, rs):
        out = super().judge(scn, rs)
        if out:
            return out
        a, b = rs[0]["x"], rs[1]["x"]
        if scn["mode"] == "same":
            if a["out"] != b["out"]:
                i = next((i for i, (x, y) in enumerate(zip(a["lines"], b["lines"])) if x != y), -1)
                return [("not-reproducible", f"two runs with seed {scn['seed']} differ, first at record {i}: "
                                             f"{a['txt'][i][:120]} / {b['txt'][i][:120]}")]
        elif a["init"] == b["init"]:
            return [("same-without-seed", "two unseeded runs started from different entropy have the same first generation")]
        return []


def replayed(run, log):
    """Same step kind in two generations starting with the same >= 64 bits of draws."""
    by = {}
    for st in run.steps:
        by.setdefault(st.kind, []).append((st.gen, log[st.draws[0]:st.draws[1]]))
    for kind, ls in by.items():
        for i in range(len(ls)):
            for j in range(i + 1, len(ls)):
                bits = 0.0
                for a, b in zip(ls[i][1], ls[j][1]):
                    if a != b:
                        break
                    bits += 53 if a[0] == "f" else a[1] if a[0] == "g" else math.log2(max(1, a[1]))
                    if bits > 64:
                        return [("choices-replayed", f"step '{kind}' of generations {ls[i][0]} and {ls[j][0]} starts with "
                                                     f"the same {bits:.0f} bits of random choices")]
    return []


# ---------------------------------------------------------------------------------------------------------------
# C02 isolation of concurrent optimisers

def put_faults(rng, spec, p=0.3, early=True):
    if rng.random() >= p:
        return
    n = spec["n"]
    hi = rng.choice([n, n, n * 2, n * spec["ngen"]])
    spec["faults"] = sorted(rng.sample(range(1, hi + 1), min(hi, rng.choice([1, 1, 2, 3]))))
    spec["exc"] = rng.choice(sorted(model.EXCS))


def small(rng, multi_p=0.25, **kw):
    if rng.random() < multi_p:
        return G.multi(rng, maxn=6, maxgen=3, cond=0.2, big=0.0, **kw)
    return G.single(rng, maxn=7, maxgen=4, cond=0.3, big=0.0, **kw)


class C02(Prop):
    id = "C02"
    quick = 8000
    thorough = 60000
    rule = ("2-4 optimisers in interleaved threads (baton scheduler, switches at source lines, draws and evaluations) against "
            "each alone in a pristine process; distinct = digest of all outcomes plus the switch list; non-trivial "
            "= at least two context switches and some client with two generations")

    def gen(self, rng, i):
        k = rng.choice([2, 2, 3, 4])
        base = small(rng)
        share = rng.random() < 0.5
        cs = [base]
        while len(cs) < k:
            if rng.random() < 0.4:
                s = copy.deepcopy(base)
                s["stream"] = G.stream(rng)
                if rng.random() < 0.5:
                    s["ngen"] = rng.randint(1, 4)
                    s["n"] = max(s["n"], len(s.get("inpop") or ()))
            else:
                s = small(rng)
                if share and eff(s)["pop"] == eff(base)["pop"] and eff(s)["single"] == eff(base)["single"] and \
                        s["cx" if "cx" in s else "kind"] == base.get("cx", base["kind"]) and s["n"] >= base["n"] and \
                        eff(s)["m"] == eff(base)["m"]:
                    for f in ("gens", "inpop", "input", "obj_value", "obj", "penalty"):
                        if f in base:
                            s[f] = copy.deepcopy(base[f])
                        else:
                            s.pop(f, None)
            cs.append(s)
        for s in cs:
            put_faults(rng, s, 0.2)
        trace = rng.random() < 0.75
        sch = {"s": rng.getrandbits(32), "mean": rng.choice([1, 2, 5, 15, 40, 150, 600]) if trace else rng.choice([1, 3, 10, 40]),
               "first": rng.randrange(k)}
        return {"cs": cs, "share": share, "sch": sch, "trace": trace, "seed": rng.choice([None, None, 0, 11])}

    def parts(self, scn):
        return [{"cs": scn["cs"], "only": j, "seed": scn["seed"]} for j in range(len(scn["cs"]))] + \
               [dict(scn, only=None)]

    def exec(self, part):
        import baumeva
        CTX.reset()
        baumeva.generator.rnd_seed = part.get("seed")
        cs = part["cs"]
        if part["only"] is not None:
            spec = cs[part["only"]]
            run = run_one(spec, ())
            o = run.outcome()
            return result(base_viol(run), run, x={"out": [digest(o)], "txt": [o.split("\n")[0][:150]],
                                                  "lines": [[digest(t) for t in o.split("\n")]]},
                          nt=False)
        shared = {}
        sched = Sched(part["sch"], pkg_dir())
        if not part.get("trace", True):
            sched._trace = None
        runs = []
        for j, spec in enumerate(cs):
            c = Client(f"c{j}", spec["stream"])
            c.budget = budget(spec)
            args = None
            if part["share"]:
                key = canon([spec["gens"], objective.op_list(spec["obj"]), spec.get("inpop"), spec.get("input"),
                             spec.get("obj_value")])
                args = shared.get(key)
                if args is None:
                    args = shared[key] = Args(spec)
            run = Run(spec, c, (), args)
            run.obj.client = c
            runs.append(run)
            sched.add(c, run.start)
        sched.run()
        st = {"context_switches": len(sched.taken) + len(sched.taken_ends), "schedule_points": sched.points,
              "interleaved_runs": 1}
        outs = [r.outcome() for r in runs]
        for r in runs:
            stats(r, st)
        v = []
        if sched.error is not None:
            v = [("hang", "the interleaved run does not end")]
        return result(v, fp=digest("\n".join(outs) + canon(sched.taken)), st=st,
                      nt=len(sched.taken) >= 2 and any(len(r.gens) >= 2 for r in runs),
                      x={"out": [digest(o) for o in outs], "txt": [o.split("\n")[0][:150] for o in outs],
                         "lines": [[digest(t) for t in o.split("\n")] for o in outs], "taken": sched.taken[:20000],
                         "ends": sched.taken_ends})

    def judge(self, scn, rs):
        out = super().judge(scn, rs)
        if out:
            return out
        tog = rs[-1]["x"]
        for j in range(len(scn["cs"])):
            if rs[j]["x"]["out"][0] != tog["out"][j]:
                la, lb = rs[j]["x"]["lines"][0], tog["lines"][j]
                i = next((i for i, (a, b) in enumerate(zip(la, lb)) if a != b), -1)
                names = ["status", "evaluations", "generation counters", "population", "best history", "middle history",
                         "worst history", "best solution", "output"]
                return [("interference", f"optimiser {j} alone ends '{rs[j]['x']['txt'][0]}', interleaved with the "
                                         f"others '{tog['txt'][j]}'; they differ in {names[min(i, 8)]}")]
        return []

    def explicit(self, scn, rs):
        """The same scenario with its schedule written out (for replay and minimisation)."""
        s = copy.deepcopy(scn)
        s["sch"]["switches"] = rs[-1]["x"]["taken"]
        s["sch"]["ends"] = rs[-1]["x"]["ends"]
        return s


# ---------------------------------------------------------------------------------------------------------------
# C03 reuse

class C03(Prop):
    id = "C03"
    quick = 14000
    thorough = 200000
    rule = ("a history of earlier completed and aborted runs on the same optimiser, components or arguments, then one run, "
            "against the same run in a pristine process; distinct = digest of the final outcome and the history; "
            "non-trivial = at least one earlier run")

    def gen(self, rng, i):
        multi = rng.random() < 0.25
        spec = G.multi(rng, maxn=8, maxgen=4, cond=0.25) if multi else G.single(rng, maxn=10, maxgen=6, cond=0.35, inpop_p=0.35)
        mode = rng.choice(["same", "same", "share"])
        acts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if mode == "same":
                a = {"stream": G.stream(rng), "faults": []}
                t = copy.deepcopy(spec)
                if spec["kind"] == "collector" and rng.random() < 0.6:
                    e = eff(spec)
                    t["gens"] = G.gens_for(rng, e["pop"], spec["cx"])
                    if e["binary"] and e["fit"] != "hyper":
                        t["gens"] = G.bin_gens(rng, 3, 3)
                    t["n"] = max(spec["n"], rng.randint(spec["n"], spec["n"] + 4))
                    t["inpop"] = G.inpop(rng, e["pop"], t["gens"], t["n"], 0.3)
                    t["ngen"] = rng.randint(1, 4)
                    t["early"] = G.early(rng)
                    a["spec"] = {k: t[k] for k in ("gens", "n", "inpop", "ngen", "early")}
                if spec["kind"] == "steps":
                    a = {"stream": G.stream(rng), "faults": [], "spec": {}}
            else:
                t = small(rng)
                if eff(t)["single"] != eff(spec)["single"] or eff(t)["pop"] != eff(spec)["pop"] or eff(t)["m"] != eff(spec)["m"]:
                    t = copy.deepcopy(spec)
                for f in ("gens", "inpop", "input", "obj_value", "obj", "penalty"):
                    if f in spec:
                        t[f] = copy.deepcopy(spec[f])
                    else:
                        t.pop(f, None)
                if t.get("cx") == "two" and spec.get("cx") != "two" and not eff(t)["single"]:
                    t["cx"] = "one"
                if t["kind"] != "api" and t.get("cx") in ("one", "two") and not long_enough(t):
                    t["cx"] = "uni"
                if t["kind"] == "api" and not long_enough(t, "one"):
                    t = copy.deepcopy(spec)
                t["n"] = max(t["n"], spec["n"])
                t["stream"] = G.stream(rng)
                a = {"full": t, "faults": []}
            if rng.random() < 0.4:
                hi = spec["n"] * rng.choice([1, 1, 2, 4])
                a["faults"] = [rng.randint(1, hi)]
                a["exc"] = rng.choice(sorted(model.EXCS))
            elif rng.random() < 0.4:
                a["irq"] = irq(rng)
            acts.append(a)
        return {"mode": mode, "c": spec, "acts": acts}

    def parts(self, scn):
        return [{"c": scn["c"], "fresh": True}, dict(scn, fresh=False)]

    def exec(self, part):
        spec = part["c"]
        if part["fresh"]:
            run = run_one(spec, ())
            o = run.outcome()
            return result(base_viol(run), run, x={"out": digest(o), "lines": [digest(t) for t in o.split("\n")],
                                                  "txt": o.split("\n")[0][:150]}, nt=False)
        CTX.reset()
        args = Args(spec)
        fp0 = args.fingerprint()
        st = {}
        v = []
        c = CTX.main
        c.budget = budget(spec)
        run = None
        if part["mode"] == "same":
            run = Run(spec, c, (), args)
            for a in part["acts"]:
                sp = dict(spec, **a.get("spec", {}))
                run.spec = sp
                run.args = args
                if "gens" in a.get("spec", {}):
                    run.args = Args(sp)
                    run.args.conditions, run.args.input_data = args.conditions, args.input_data
                    run.args.obj_value = args.obj_value
                self.arm(run, c, a["stream"], a)
                run.irq = a.get("irq")
                run.start()
                stats(run, st)
                v = v or self.abort_viol(run)
            run.spec, run.args = spec, args
            self.arm(run, c, spec["stream"], {})
            run.irq = None
            run.start()
        else:
            for a in part["acts"]:
                c.set_stream(a["full"]["stream"])
                c.stdout = type(c.stdout)()
                r0 = Run(dict(a["full"], faults=a["faults"], exc=a.get("exc", "ValueError")), c, (), args)
                r0.irq = a.get("irq")
                r0.start()
                stats(r0, st)
                v = v or self.abort_viol(r0)
                fp1 = args.fingerprint()
                for k in fp0:
                    if fp0[k] != fp1[k] and not v:
                        v = [("argument-modified", f"an earlier run changed the caller's {k}: {fp0[k][:150]} -> {fp1[k][:150]}")]
            c.set_stream(spec["stream"])
            c.stdout = type(c.stdout)()
            run = Run(spec, c, (), args)
            run.start()
        stats(run, st)
        fp1 = args.fingerprint()
        for k in fp0:
            if fp0[k] != fp1[k] and not v:
                v = [("argument-modified", f"the caller's {k} changed: {fp0[k][:150]} -> {fp1[k][:150]}")]
        o = run.outcome()
        return result(v, fp=digest(o + canon(part["acts"])), st=st,
                      x={"out": digest(o), "lines": [digest(t) for t in o.split("\n")], "txt": o.split("\n")[0][:150]},
                      nt=len(part["acts"]) > 0)

    @staticmethod
    def abort_viol(run):
        return base_viol(run)

    @staticmethod
    def arm(run, c, stream, a):
        c.set_stream(stream)
        c.stdout = type(c.stdout)()
        o = run.obj
        o.faults = frozenset(a.get("faults", ()))
        o.exc = model.EXCS[a.get("exc", "ValueError")]
        o.calls, o.attempts, o.pending, o.raised = [], 0, False, []
        run.gens, run.steps, run.data, run.exc, run.status = [], [], None, None, None
        run.retries = 0

    def judge(self, scn, rs):
        out = super().judge(scn, rs[:1])
        if out:
            return out
        out = super().judge(scn, rs[1:])
        if out:
            return out
        a, b = rs[0]["x"], rs[1]["x"]
        if a["out"] != b["out"]:
            names = ["status", "evaluations", "generation counters", "population", "best history", "middle history",
                     "worst history", "best solution", "output"]
            i = next((i for i, (x, y) in enumerate(zip(a["lines"], b["lines"])) if x != y), -1)
            return [("reuse-differs", f"after {len(scn['acts'])} earlier runs (mode {scn['mode']}) the run ends "
                                      f"'{b['txt']}', newly constructed '{a['txt']}'; they differ in {names[min(i, 8)]}")]
        return []


def long_enough(spec, cx=None):
    cx = cx or spec.get("cx")
    need = {"one": 2, "two": 3}.get(cx, 1)
    g = spec["gens"]
    n = model.total_bits(spec) if g["k"] == "bin" else len(g["g"]) if g["k"] == "cat" else g["g"][2]
    return n >= need


# ---------------------------------------------------------------------------------------------------------------
# C04 failing objective

class C04(Prop):
    id = "C04"
    quick = 16000
    thorough = 250000
    rule = ("objective exceptions injected at scheduled evaluations, the interrupted step retried (hand-written loop) or the "
            "assembled optimiser started again, against the fault-free run in a pristine process; distinct = digest "
            "of the outcome and the fault list; non-trivial = at least one injected exception fired")

    def gen(self, rng, i):
        multi = rng.random() < 0.2
        kind = rng.choice(["steps", "steps", "collector", "api"])
        if multi:
            spec = G.multi(rng, kinds=(kind,), maxn=8, maxgen=3, cond=0.2)
        else:
            spec = G.single(rng, kinds=(kind,), maxn=10, maxgen=6, cond=0.3)
        n = spec["n"]
        per = n if not multi else n * n
        total = per * max(1, spec["ngen"])
        k = rng.choice([1, 1, 2, 3])
        pool = rng.choice([min(n, total), total])
        f = {rng.randint(1, max(1, pool)) for _ in range(k)}
        if kind == "steps" and rng.random() < 0.4:
            x = rng.randint(1, max(1, pool))
            f |= {x, x + 1}
        if kind != "steps":
            f = {min(f)} if kind == "api" or rng.random() < 0.7 else f
        spec["faults"] = sorted(f)
        spec["exc"] = rng.choice(sorted(model.EXCS))
        spec["retry"] = kind == "steps"
        return {"c": spec}

    def parts(self, scn):
        clean = dict(scn["c"], faults=[])
        return [{"c": clean, "clean": True}, {"c": scn["c"], "clean": False}]

    def exec(self, part):
        spec = part["c"]
        e = eff(spec)
        c = begin(spec)
        run = Run(spec, c, ("gen",))
        v = []

        def consistent(d):
            nonlocal v
            if v:
                return
            v = after_fault(run, e, d)
        run.on_fault = consistent
        run.start()
        if not part["clean"]:
            v = v or (base_viol(run))
            tries = 0
            while not v and spec["kind"] == "collector" and run.status == "exc" and tries < 6:
                tries += 1
                if run.obj.after_raise:
                    v = [("evaluated-after-failure", "the objective was called after it had failed")]
                    break
                v = after_fault(run, e, run.api.ga_data)
                if v:
                    break
                run.retries += 1
                run.obj.pending = False
                try:
                    run.api.optimize()
                    run.status, run.exc = "ok", None
                except SimHang as ex:
                    run.status, run.exc = "hang", ex
                except BaseException as ex:
                    run.status, run.exc = "exc", ex
                v = base_viol(run)
            if not v and run.obj.after_raise:
                v = [("evaluated-after-failure", "the objective was called again before its exception reached the caller")]
            if not v and spec["kind"] == "api" and run.obj.raised and run.status != "exc":
                v = [("exception-swallowed", "the exception of the objective did not reach the caller")]
            if not v and spec["kind"] == "api" and run.obj.raised and len(run.obj.raised) > 1:
                v = [("evaluated-after-failure", "the objective was called after it had failed")]
            if not v and spec["kind"] == "steps" and len(run.obj.raised) != run.retries:
                v = [("exception-swallowed", f"{len(run.obj.raised)} exceptions raised, {run.retries} reached the caller")]
        x = {"calls": [digest(canon(list(a) + [b])) for a, b in run.obj.calls], "status": run.status,
             "data": digest(canon_data(run.data)),
             "hb": [digest(g.hb_canon) for g in run.gens],
             "pops": [digest(canon([[s.g, s.ph, s.score, s.obj, s.feas] for s in g.pop])) for g in run.gens],
             "best": digest(run.gens[-1].best_canon) if run.gens else None,
             "bests": [digest(g.best_canon) for g in run.gens],
             "raised": len(run.obj.raised), "retries": run.retries}
        return result(v, run, x=x, nt=len(run.obj.raised) > 0,
                      fp=digest(run.outcome() + canon(spec["faults"])))

    def judge(self, scn, rs):
        out = super().judge(scn, rs[:1]) or super().judge(scn, rs[1:])
        if out:
            return out
        a, b = rs[0]["x"], rs[1]["x"]
        spec = scn["c"]
        if spec["kind"] == "api":
            if eff(spec)["single"] and b["calls"] != a["calls"][:len(b["calls"])]:
                return [("evaluations-differ", "evaluations before the failure differ from the fault-free run")]
            return []
        if not b["raised"]:
            return [] if a["data"] == b["data"] else [("differs-without-fault", "two identical runs differ")]
        single = eff(spec)["single"]
        if spec["kind"] == "steps":
            if single and a["calls"] != b["calls"]:
                return [("retry-evaluations", f"with {b['raised']} failures retried {len(b['calls'])} evaluations succeeded, "
                                              f"{len(a['calls'])} without failures, or they differ")]
            if a["data"] != b["data"]:
                return [("retry-result", f"after {b['raised']} retried failures the result differs from the fault-free run")]
            return []
        # assembled optimiser started again: goes on as if nothing had happened
        k = len(a["pops"])
        if a["pops"] != b["pops"][:k] or a["hb"] != b["hb"][:k] or a["bests"] != b["bests"][:k]:
            return [("restart-result", f"started again after {b['raised']} failures the optimiser's generations differ from the "
                                       f"fault-free run (first {k} generations)")]
        if single and a["calls"] != b["calls"][:len(a["calls"])]:
            return [("retry-evaluations", "started again after a failure the optimiser evaluates other candidates than "
                                          "the fault-free run")]
        return []


def after_fault(run, e, d):
    """Consistency of the run data right after an injected failure reached the caller."""
    done = {}
    for a, b in run.obj.calls:
        done.setdefault(a, []).append(b)
    for i, ind in enumerate(d.population):
        g, ph = ind.get("genotype"), ind.get("phenotype")
        if e["binary"]:
            if not isinstance(g, list) or any(x not in ("0", "1") for x in g) or len(g) != model.total_bits(run.spec):
                return [("broken-encoding", f"after the failure individual {i} has encoding {g!r}")]
            if ph is not None and (not isinstance(ph, list) or len(ph) != len(run.spec["gens"]["g"]) or not all(
                    O.is_num(x) and model.close(x, y) for x, y in zip(ph, model.decode(run.spec, e["pop"], g)))):
                return [("broken-encoding", f"after the failure individual {i} shows values {ph!r} for bits {''.join(g)}")]
        if e["single"] and ind.get("score") is not None:
            vals = tuple(ph if e["binary"] else g)
            if vals not in done:
                return [("score-without-evaluation", f"individual {i} is scored but {vals!r} was never evaluated")]
    if e["single"] and not run.gens:
        got = sum(1 for ind in d.population if ind.get("score") is not None)
        if got != len(run.obj.calls):
            return [("evaluation-lost", f"{len(run.obj.calls)} evaluations succeeded, {got} individuals keep a score")]
    return []


# ---------------------------------------------------------------------------------------------------------------
# single-run properties

def with_retry(rng, s, p=0.2):
    if s["kind"] == "steps" and rng.random() < p:
        hi = s["n"] * max(1, s["ngen"])
        s["faults"] = sorted({rng.randint(1, hi) for _ in range(rng.choice([1, 2]))})
        s["retry"] = True
    return s


class C05(Prop):
    id = "C05"
    oracles = (O.o_best,)
    quick = 24000
    thorough = 400000
    rule = RULE_RUN + "at least two generations"

    def gen(self, rng, i):
        s = G.single(rng, maxgen=14, cond=0.2, inpop_p=0.2)
        if rng.random() < 0.15:
            s["obj"]["noisy"] = True
            s["obj"].pop("conds", None)
            s.pop("penalty", None)
        return {"c": with_retry(rng, s)}


class C06(Prop):
    id = "C06"
    oracles = (O.o_truth,)
    quick = 18000
    thorough = 400000
    rule = RULE_RUN + "at least two generations"

    def gen(self, rng, i):
        if rng.random() < 0.2:
            s = G.multi(rng, cond=0.2, objectives=rng.choice([None, None, 4, 5]))
            return {"c": with_retry(rng, s)}
        s = G.single(rng, maxgen=10, cond=0.15)
        if rng.random() < 0.1 and "conds" not in s["obj"]:
            s["obj"]["noisy"] = True
        elif rng.random() < 0.08 and "conds" not in s["obj"]:
            s["obj"]["wrap"] = rng.choice(["list", "tuple"])
        return {"c": with_retry(rng, s)}


class C07(Prop):
    id = "C07"
    oracles = (O.o_space,)
    quick = 17000
    thorough = 250000
    rule = RULE_RUN + ("at least two generations; plus reachability scenarios: large random first generations over small spaces, "
                       "non-trivial when every point is looked for")

    def gen(self, rng, i):
        if i % 96 == 29:
            return {"reach": "axis", "c": self.axis_spec(rng)}
        if i % 12 == 5:
            return {"reach": True, "c": self.reach_spec(rng)}
        if rng.random() < 0.25:
            s = G.multi(rng, cond=0.2)
        else:
            s = G.single(rng, maxgen=14, cond=0.1, inpop_p=0.3)
        return {"c": with_retry(rng, s, 0.3)}

    @staticmethod
    def reach_spec(rng):
        pop = rng.choice(["binary", "gray", "cat", "order"])
        while True:
            if pop in ("binary", "gray"):
                g = G.bin_gens(rng, 1, 2)
                size = math.prod(2 ** model.bits_of(x) for x in g["g"])
            elif pop == "cat":
                g = G.cat_gens(rng, 1, 3)
                size = math.prod(len(G.cat_values(x)) for x in g["g"])
            else:
                g = G.ord_gens(rng, rng.choice([2, 3, 3]))
                g["g"][2] = min(g["g"][2], 3)
                w = g["g"][1] - g["g"][0] + 1
                size = math.perm(w, g["g"][2])
            if size <= 48:
                break
        return {"kind": "steps", "pop": pop, "fit": "hyper", "gens": g, "n": 2500, "ngen": 1, "obj": {"fam": "const"},
                "stream": G.stream(rng, 0.0)}

    @staticmethod
    def axis_spec(rng):
        """Wide genes: every value of each gene on its own must turn up."""
        pop = rng.choice(["binary", "gray", "cat", "order"])
        if pop in ("binary", "gray"):
            g = []
            for _ in range(rng.choice([1, 2, 3])):
                lo = rng.choice([0, -3, 0.5, -0.001])
                g.append([lo, lo + rng.choice([1, 10, 0.002]) * rng.choice([40, 100, 129, 255, 300, 513, 1023, 1500, 2047]), 0])
                g[-1][2] = (g[-1][1] - lo) / rng.choice([20, 64, 200, 255, 511, 700, 1023, 1500])
            size = max(2 ** model.bits_of(x) for x in g)
            gens = {"k": "bin", "g": g, "as": "tuple"}
        elif pop == "cat":
            g = []
            for _ in range(rng.choice([1, 2, 4])):
                if rng.random() < 0.6:
                    lo, st = rng.choice([0, -7, 3]), rng.choice([1, 1, 2, 5])
                    g.append({"r": [lo, lo + st * rng.choice([30, 70, 130, 260, 600, 1100]), st]})
                else:
                    g.append({"l": [f"v{j}" for j in range(rng.choice([15, 40, 90, 300]))]})
            size = max(len(G.cat_values(x)) for x in g)
            gens = {"k": "cat", "g": g, "as": rng.choice(["list", "tuple"])}
        else:
            lo, w = rng.choice([0, 1, -4]), rng.choice([12, 25, 40, 80])
            gens = {"k": "ord", "g": [lo, lo + w - 1, rng.choice([3, w // 2, w])]}
            size = w
        return {"kind": "steps", "pop": pop, "fit": "hyper", "gens": gens, "n": 36 * size, "ngen": 1, "obj": {"fam": "const"},
                "stream": G.stream(rng, 0.0)}

    def axis_exec(self, part):
        spec = part["c"]
        c = begin(spec)
        c.budget = 0
        p = model.pop_class(spec)()
        a = Args(spec)
        p.set_params(num_individ=spec["n"], gens=a.gens, input_population=None)
        p.fill()
        k, g = spec["pop"], spec["gens"]["g"]
        v, looked = [], 0
        rows = [ind["genotype"] for ind in p]
        if len(rows) != spec["n"]:
            v = [("size", f"{len(rows)} individuals instead of {spec['n']}")]
        axes = []
        if k in ("binary", "gray"):
            pos = 0
            for x in g:
                b = model.bits_of(x)
                axes.append(([int("".join(r[pos:pos + b]), 2) for r in rows], range(2 ** b)))
                pos += b
        elif k == "cat":
            for j, x in enumerate(g):
                axes.append(([r[j] for r in rows], G.cat_values(x)))
        else:
            for j in range(g[2]):
                axes.append(([r[j] for r in rows], range(g[0], g[1] + 1)))
        for j, (col, want) in enumerate(axes):
            looked += len(want)
            got = set(col)
            miss = [x for x in want if x not in got]
            extra = [x for x in got if x not in set(want)]
            if extra and not v:
                v = [("outside-space", f"first generation has {extra[0]!r} for gene {j}")]
            if miss and not v:
                v = [("unreachable", f"gene {j}: {len(miss)} of {len(want)} values never occur among {len(rows)} random "
                                     f"individuals, e.g. {miss[0]!r}")]
        return result(v, fp=digest(canon(rows[:20]) + canon(spec["gens"])), nt=True,
                      st={"random_draws": c.stream.n, "reachability_scenarios": 1, "points_looked_for": looked})

    def exec(self, part):
        if part.get("reach") == "axis":
            return self.axis_exec(part)
        if not part.get("reach"):
            return super().exec(part)
        spec = part["c"]
        c = begin(spec)
        p = model.pop_class(spec)()
        a = Args(spec)
        p.set_params(num_individ=spec["n"], gens=a.gens, input_population=None)
        p.fill()
        e = {"binary": spec["pop"] in ("binary", "gray"), "pop": spec["pop"]}
        seen = set()
        v = []
        for ind in p:
            vals = model.decode(spec, spec["pop"], ind["genotype"]) if e["binary"] else ind["genotype"]
            why = O.in_space(spec, e, vals)
            if why and not v:
                v = [("outside-space", f"first generation has {vals!r}: {why}")]
            seen.add(canon(list(vals)))
        g = spec["gens"]
        if e["binary"]:
            axes = []
            for lo, hi, step in g["g"]:
                k = 2 ** model.bits_of((lo, hi, step))
                axes.append([lo + j * ((hi - lo) / (k - 1)) for j in range(k)])
            allp = [list(t) for t in itertools.product(*axes)]
        elif spec["pop"] == "cat":
            allp = [list(t) for t in itertools.product(*[G.cat_values(x) for x in g["g"]])]
        else:
            allp = [list(t) for t in itertools.permutations(range(g["g"][0], g["g"][1] + 1), g["g"][2])]
        if not v and len(p) != spec["n"]:
            v = [("size", f"{len(p)} individuals instead of {spec['n']}")]
        if not v:
            miss = [t for t in allp if canon(t) not in seen]
            if miss:
                v = [("unreachable", f"{len(miss)} of {len(allp)} points never occur among {spec['n']} random individuals, "
                                     f"e.g. {miss[0]!r}")]
        return result(v, fp=digest(canon(sorted(seen)) + canon(spec["gens"])), nt=True,
                      st={"random_draws": c.stream.n, "reachability_scenarios": 1, "points_looked_for": len(allp)})


class C08(Prop):
    id = "C08"
    rec = ("gen", "fit")
    oracles = (O.o_once,)
    quick = 24000
    thorough = 400000
    rule = RULE_RUN + "at least two generations"

    def gen(self, rng, i):
        s = G.single(rng, maxgen=12, cond=0.2, inpop_p=0.3, inputs=0.45)
        return {"c": s}


class C09(Prop):
    id = "C09"
    oracles = (O.o_book,)
    quick = 13000
    thorough = 300000
    rule = RULE_RUN + "at least two generations"

    def gen(self, rng, i):
        if rng.random() < 0.35:
            s = G.multi(rng, maxgen=10)
            if rng.random() < 0.5:
                s["gens"] = {"k": "bin", "g": [[0, 3, 1], [0, 1, 1]], "as": "tuple"}
                s["inpop"] = None
        else:
            s = G.single(rng, maxgen=25, cond=0.15)
            if rng.random() < 0.4 and s["gens"]["k"] == "bin":
                s["obj"]["fam"] = rng.choice(["plateau", "const", "coarse"])
        s["early"] = rng.choice(["default", None, 0, 0, 1, 1, 2, 3, 4, 6])
        if i % 40 == 13:        # long after the last improvement
            s = G.multi(rng, kinds=("api",), maxn=6, big=0.0) if rng.random() < 0.6 else G.single(rng, maxn=8, big=0.0)
            s["ngen"] = rng.choice([20, 40, 70, 130]) if s.get("algo") != "ffga" else rng.choice([20, 34])
            if s["gens"]["k"] == "bin":
                s["gens"] = {"k": "bin", "g": [[0, 3, 1], [0, 1, 1]], "as": "tuple"}
                s["inpop"] = None
                if s.get("cx") == "two":
                    s["cx"] = "one"
        if s["ngen"] > 18:
            s["early"] = rng.choice([None, None, None, "default", 8, 12, 25, 60, 90])
        return {"c": s}


class C10(Prop):
    id = "C10"
    rec = ()
    quick = 28000
    thorough = 500000
    rule = RULE_RUN + "at least two generations"

    def gen(self, rng, i):
        bias = rng.choice([0.0, 0.05, 0.2, 0.5])
        r = rng.random()
        if r < 0.35:
            s = G.multi(rng, cond=0.2, maxgen=8, bias=bias)
            if rng.random() < 0.3:
                s["obj"]["fam"] = rng.choice(["const", "huge", "needle", "wide"])
        else:
            s = G.single(rng, hard=True, cond=0.2, maxgen=14, bias=bias, minn=4)
            if rng.random() < 0.05 and "conds" not in s["obj"]:
                s["obj"]["wrap"] = rng.choice(["list", "tuple"])
        if rng.random() < 0.15:
            # the entry point with default arguments only
            for k in ("cp", "tsize", "lvl", "tp", "is_print"):
                if k in s:
                    s[k] = None
            s["early"] = "default"
            if s["kind"] != "api":
                s["mut"]["lvl"] = None
                s["sel"].pop("k", None)
                s["ng"]["tp"] = None
            if G.child_ok(s) is False:
                s["cp"] = 1.0
        return {"c": s}

    def exec(self, part):
        run = run_one(part["c"], self.rec)
        r = result(base_viol(run), run, nt=len(run.gens) >= 2)
        r["st"]["max_draws_per_step"] = run.client.max_since
        return r


class C11(Prop):
    id = "C11"
    oracles = (O.o_constrained,)
    quick = 24000
    thorough = 400000
    rule = RULE_RUN + "at least two generations and at least one infeasible individual"

    def gen(self, rng, i):
        if rng.random() < 0.2:
            s = G.multi(rng, cond=0.97, nocon=1.0)
        else:
            s = G.single(rng, cond=0.97, nocon=1.0, maxgen=8)
        return {"c": with_retry(rng, s)}

    def nontrivial(self, run):
        return len(run.gens) >= 2 and any(not s.feas for g in run.gens for s in g.pop)


class C12(Prop):
    id = "C12"
    oracles = (O.o_pareto,)
    quick = 11000
    thorough = 150000
    rule = RULE_RUN + "at least two generations"

    def gen(self, rng, i):
        return {"c": with_retry(rng, G.multi(rng, maxgen=8))}


class C13(Prop):
    id = "C13"
    oracles = (O.o_archive,)
    quick = 8000
    thorough = 100000
    rule = RULE_RUN + "at least two generations"

    def gen(self, rng, i):
        return {"c": G.multi(rng, algos=("ffga",), tps=(None, "best"), maxgen=9)}


# ---------------------------------------------------------------------------------------------------------------
# distribution helpers

def prepared(spec, c, update=True):
    """Population, components and run data of a hand-written loop, evaluated and recorded once."""
    import baumeva.ga as g
    run = Run(spec, c, ())
    e = eff(spec)
    kw = {"early_stop": e["early"]}
    if spec.get("cp") is not None:
        kw["children_percent"] = spec["cp"]
    d = (g.GaData if e["single"] else g.MultiGaData)(num_generations=spec["ngen"], **kw)
    p = model.pop_class(spec)()
    p.set_params(num_individ=spec["n"], gens=run.args.gens, input_population=run.args.inpop)
    p.fill()
    d.population = p
    comp = run.components()
    comp["fit"].execute(d)
    d.update()
    return run, d, comp


def zscore(c, t, p):
    """Deviation of c hits in t trials of rate p, in sigmas: the smaller of the plain and the variance-stabilised one,
    as the plain one overstates the skewed tail of a small rate."""
    z = (c - t * p) / math.sqrt(t * p * (1 - p))
    a = 2 * math.sqrt(t) * (math.asin(math.sqrt(min(1.0, max(0.0, c / t)))) - math.asin(math.sqrt(p)))
    return min(z, a, key=abs)


def guarded(fn):
    """Run a distribution scenario; an internal error of the package is a crash, not a harness error."""
    try:
        return fn()
    except SimHang as ex:
        return result([("hang", str(ex))], fp="hang", st={})
    except Exception as ex:
        if where(ex) is None:
            raise
        return result([("crash:" + type(ex).__name__, f"unexpected {type(ex).__name__}: {str(ex)[:200]} (in {where(ex)})")],
                      fp="crash", st={})


class C14(Prop):
    id = "C14"
    rec = ("gen", "sel")
    oracles = (O.o_selection,)
    quick = 12000
    thorough = 150000
    rule = RULE_RUN + ("at least two generations; plus distribution scenarios: one evaluated generation, selection repeated under "
                       "fair draws, first parents compared with the promised distribution")

    def gen(self, rng, i):
        if i % 20 == 3:
            return self.dist(rng)
        if rng.random() < 0.4:
            s = G.multi(rng, maxgen=5)
        else:
            s = G.single(rng, maxgen=8, hard=rng.random() < 0.3)
        return {"c": s}

    def dist(self, rng):
        if rng.random() < 0.45:
            s = G.multi(rng, kinds=("steps",), maxn=9, bias=0.0, inputs=0.0, inpop_p=0.0, big=0.0)
            s["obj"]["fam"] = rng.choice(["hash", "signed", "coarse", "ints", "linear", "tinyval"])
            if s["fit"] == "vega":
                s["obj_value"] = rng.choice([None, [0] * s["obj"]["m"]])
        else:
            s = G.single(rng, kinds=("steps",), maxn=9, bias=0.0, cond=0.0, inpop_p=0.0, inputs=0.0, big=0.0)
            s["obj"]["fam"] = rng.choice(["hash", "signed", "plateau", "ints", "unit", "sphere", "tinyval"])
            s["obj_value"] = rng.choice([None, 0, 0, 1, 2.5, 20000])
            if rng.random() < 0.12:     # a large generation
                s["n"] = rng.choice([40, 70, 110, 150])
                s["obj"]["fam"] = rng.choice(["hash", "signed", "unit"])
                if s["sel"]["t"] == "tour":
                    s["sel"]["k"] = rng.choice([None, 2, 3, 5, 12, 30])
        s["cp"] = 1.0
        s["gens"] = {"bin": {"k": "bin", "g": [[0, 1023, 1], [-5, 5, 0.01]], "as": "tuple"},
                     "cat": {"k": "cat", "g": [{"r": [0, 99, 1]} for _ in range(4)], "as": "list"},
                     "ord": {"k": "ord", "g": [0, 19, 8]}}[s["gens"]["k"]]
        return {"dist": 9000, "c": s}

    def exec(self, part):
        if not part.get("dist"):
            return super().exec(part)
        return guarded(lambda: self.distribution(part))

    def distribution(self, part):
        spec = part["c"]
        e = eff(spec)
        c = begin(spec)
        run, d, comp = prepared(spec, c)
        inds = [(tuple(i["genotype"]), cp_(i["score"])) for i in d.population]
        idx = {g: k for k, (g, _) in enumerate(inds)}
        n = len(inds)
        if len(idx) != n:
            return result([], run, nt=False)
        vega = e["sel"].startswith("v")
        m = e["m"] if vega else 1
        counts = [[0] * n for _ in range(m)]
        second = [[0] * n for _ in range(m)]
        total = [0] * m
        reps = max(1, part["dist"] // n)
        for _ in range(reps):
            c.progress()
            comp["sel"].execute(d)
            par = list(d.parents)
            block = len(par) // 2 // m
            for q in range(len(par) // 2):
                o = min(m - 1, q // block) if block else 0
                k = idx.get(tuple(par[2 * q]["genotype"]))
                if k is None:
                    return result([("not-a-member", "a selected parent is not in the generation")], run)
                counts[o][k] += 1
                total[o] += 1
                k = idx.get(tuple(par[2 * q + 1]["genotype"]))
                if k is None:
                    return result([("not-a-member", "a selected parent is not in the generation")], run)
                second[o][k] += 1
        v = []
        for o in range(m):
            sc = [s[o] if vega else s for _, s in inds]
            exp = self.expected(e, sc)
            t = total[o]
            name = f"objective {o}: " if vega else ""
            if t == 0:
                v = [("no-parents", f"{name}selection made no pairs")]
                break
            if exp is not None:
                for k, p in enumerate(exp):
                    if t * p >= 25 and t * (1 - p) >= 25:
                        z = zscore(counts[o][k], t, p)
                        if abs(z) > Z:
                            v = [("wrong-pressure", f"{name}individual with fitness {sc[k]!r} was first parent {counts[o][k]} of {t} "
                                                    f"times, expected share {p:.4f} (z={z:.1f}); fitnesses {sc!r}, "
                                                    f"selection {e['sel']}")]
                            break
                    elif p < 1e-9 and counts[o][k] > 20:
                        v = [("wrong-pressure", f"{name}individual with fitness share {p:.2g} was first parent {counts[o][k]} times")]
                        break
            if not v and exp is not None and n > 12:
                for how, order in (("by fitness", sorted(range(n), key=lambda k: sc[k])), ("by position", list(range(n)))):
                    for q in range(6):
                        part_ = order[q * n // 6:(q + 1) * n // 6]
                        p = sum(exp[k] for k in part_)
                        got = sum(counts[o][k] for k in part_)
                        if t * p >= 25 and t * (1 - p) >= 25 and abs(zscore(got, t, p)) > Z:
                            v = [("wrong-pressure", f"{name}sixth {q + 1} of {n} individuals {how} was first parent {got} of {t} "
                                                    f"times, expected share {p:.4f}, selection {e['sel']}")]
            if not v and exp is not None and e["sel"] in ("bal", "vbal", "rank", "vrank") and max(exp) <= 0.75:
                for k, p in enumerate(exp):
                    w = sum(x * p / (1 - x) for i, x in enumerate(exp) if i != k)
                    if t * w >= 25 and t * (1 - w) >= 25 and abs(zscore(second[o][k], t, w)) > Z:
                        v = [("wrong-second", f"{name}individual with fitness {sc[k]!r} was second parent {second[o][k]} of {t} "
                                              f"times, expected share {w:.4f}; fitnesses {sc!r}, selection {e['sel']}")]
                        break
            if not v:
                for a in range(n):
                    for b in range(n):
                        if sc[a] > sc[b] and counts[o][b] - counts[o][a] > Z * math.sqrt(counts[o][a] + counts[o][b]):
                            v = [("favours-worse", f"{name}fitness {sc[b]!r} was first parent {counts[o][b]} times, the fitter "
                                                   f"{sc[a]!r} only {counts[o][a]} times of {t}")]
                            break
                    if v:
                        break
            if v:
                break
        st = stats(run)
        st["distribution_scenarios"] = 1
        st["selections_counted"] = sum(total)
        return result(v, fp=digest(canon(counts)), nt=True, st=st)

    @staticmethod
    def expected(e, sc):
        n = len(sc)
        if e["sel"] in ("bal", "vbal"):
            if min(sc) >= 0 and sum(sc) > 0:
                return [x / sum(sc) for x in sc]
            return None
        if e["sel"] in ("rank", "vrank"):
            r = [sum(y < x for y in sc) + (sum(y == x for y in sc) + 1) / 2 for x in sc]
            return [x / sum(r) for x in r]
        k = e["tsize"]
        # with ties: probability that the tournament's best is in the tie class, shared equally is not promised
        if len(set(sc)) < n:
            return None
        return [math.comb(sum(y < x for y in sc), k - 1) / math.comb(n, k) for x in sc]


class C15(Prop):
    id = "C15"
    rec = ("gen", "mut")
    oracles = (O.o_mutation,)
    quick = 12000
    thorough = 150000
    rule = RULE_RUN + ("at least two generations; plus rate scenarios: real offspring mutated repeatedly under fair draws, change "
                       "frequencies compared with the requested level")

    def gen(self, rng, i):
        if i % 20 == 3 or i % 80 == 7:
            return self.dist(rng, i % 80 == 7)
        s = G.multi(rng, maxgen=4) if rng.random() < 0.15 else G.single(rng, maxgen=8)
        if rng.random() < 0.5:
            lv = rng.choice([0.0, 1.0])
            if s["kind"] == "api":
                s["lvl"] = lv
            else:
                s["mut"]["lvl"] = lv
        return {"c": s}

    def dist(self, rng, long=False):
        s = G.single(rng, kinds=("steps",), maxn=10, minn=6, bias=0.0, cond=0.0, inpop_p=0.0, inputs=0.0, big=0.05,
                     pops=("order",) if long else ("binary", "gray", "cat", "order"))
        s["cp"] = 1.0
        s["mut"]["lvl"] = rng.choice([None, "weak", "normal", "strong", 0.0, 1.0, 0.5, 0.25, 0.1, 0.02, 0.75, 0.9])
        if s["gens"]["k"] == "ord" and rng.random() < 0.5:
            s["mut"]["lvl"] = rng.choice([1.0, 1.0, 0.9])
        if long:
            s["gens"] = G.ord_gens(rng, big=True)
            s["mut"]["lvl"] = rng.choice([1.0, 0.9])
        prior = None
        if rng.random() < 0.5:
            prior = copy.deepcopy(s)
            prior["gens"] = G.gens_for(rng, s["pop"], s["cx"])
            prior["inpop"] = None
        return {"dist": 30000 if s["mut"]["t"] == "shift" else 12000, "c": s, "prior": prior}

    def exec(self, part):
        if not part.get("dist"):
            return super().exec(part)
        return guarded(lambda: self.rates(part))

    def rates(self, part):
        spec = part["c"]
        e = eff(spec)
        c = begin(spec)
        if part.get("prior"):
            _, d0, comp0 = prepared(part["prior"], c)
            for k in ("sel", "cx", "mut"):
                comp0[k].execute(d0)
        run, d, comp = prepared(spec, c)
        mut = comp0["mut"] if part.get("prior") else comp["mut"]
        comp["sel"].execute(d)
        comp["cx"].execute(d)
        kids = d.children
        orig = [list(k["genotype"]) for k in kids]
        length = len(orig[0])
        reps = max(30, part["dist"] // max(1, len(kids)))
        lvl = e["lvl"]
        if e["mut"] in ("bin", "cat"):
            rate = {"weak": 0.3 / length, "normal": 1 / length, "strong": 3 / length}.get(lvl, lvl)
        else:
            rate = {"weak": 0.03, "normal": 0.1, "strong": 0.3}.get(lvl, lvl)
        rate = min(1.0, rate)
        changed = [0] * length
        joint = [0] * length
        whole = 0
        moves = set()
        moved = [0] * length
        wide = 0
        vals = [dict() for _ in range(length)]
        tot = 0
        for _ in range(reps):
            c.progress()
            for k, o in zip(kids, orig):
                k["genotype"] = list(o)
            mut.execute(d)
            for k, o in zip(kids, orig):
                tot += 1
                g = k["genotype"]
                whole += g != o
                if e["mut"] not in ("bin", "cat"):
                    if g != o:
                        if length <= 20:
                            moves.add(tuple(map(o.index, g)))
                        if length > 12:
                            hit = [j for j in range(length) if g[j] != o[j]]
                            wide += hit[-1] - hit[0] >= 0.75 * length
                            for j in hit:
                                moved[j] += 1
                    continue
                prev = False
                for j in range(length):
                    ch = g[j] != o[j]
                    if ch:
                        changed[j] += 1
                        if prev:
                            joint[j] += 1
                        if e["mut"] == "cat":
                            t = vals[j].setdefault(o[j], {})
                            t[g[j]] = t.get(g[j], 0) + 1
                    prev = ch
        v = []

        def off(count, total, want, tol):
            """More than tol (precision) plus Z sigma away?"""
            near = min(max(count / total, want - tol), want + tol)
            near = min(max(near, 1e-6), 1 - 1e-6)
            return abs(zscore(count, total, near)) > Z

        if e["mut"] in ("bin", "cat"):
            for j in range(length):
                alt = 2 if e["mut"] == "bin" else len(G.cat_values(spec["gens"]["g"][j]))
                want = rate if alt > 1 else 0.0
                exact = want in (0.0, 1.0)
                if (exact and changed[j] != want * tot) or off(changed[j], tot, want, 0.00101):
                    v = [("wrong-rate", f"position {j} was changed in {changed[j]} of {tot} offspring, level {lvl!r} with {length} "
                                        f"positions asks for {want:.4f}")]
                    break
                if j and alt > 1 and not exact and \
                        (e["mut"] == "bin" or len(G.cat_values(spec["gens"]["g"][j - 1])) > 1):
                    pj = changed[j] * changed[j - 1] / tot / tot
                    if off(joint[j], tot, pj, 0.0005):
                        v = [("not-independent", f"positions {j - 1} and {j} changed together in {joint[j]} of {tot} offspring, "
                                                 f"{pj * tot:.0f} expected")]
                        break
                if e["mut"] == "cat" and alt > 1:
                    for src, t in vals[j].items():
                        n = sum(t.values())
                        if n >= 60 * alt:
                            miss = [x for x in G.cat_values(spec["gens"]["g"][j]) if x != src and x not in t]
                            if miss:
                                v = [("value-unreachable", f"gene {j}: {n} changes of {src!r} never gave {miss[0]!r}")]
        else:
            exact = rate in (0.0, 1.0)
            if (exact and whole != rate * tot) or off(whole, tot, rate, 0.00101):
                v = [("wrong-rate", f"{whole} of {tot} orderings changed, level {lvl!r} asks for {rate:.4f} ({e['mut']})")]
            ref, rare = self.order_moves(e["mut"], length)
            if not v and length <= 20 and whole * rare >= 40 and not ref <= moves:
                v = [("unreachable", f"{e['mut']}: {len(ref - moves)} of {len(ref)} possible changes of an ordering of {length} never "
                                     f"occurred in {whole} mutations, e.g. {sorted(ref - moves)[0]!r} (positions before)")]
            if not v and length > 12 and whole >= 40 * length:
                if 0 in moved:
                    v = [("unreachable", f"{e['mut']}: {whole} mutations of orderings of {length} never changed position "
                                         f"{moved.index(0)}")]
                elif not wide:
                    v = [("unreachable", f"{e['mut']}: {whole} mutations of orderings of {length} never reached across three "
                                         f"quarters of the ordering")]
        st = stats(run)
        st["rate_scenarios"] = 1
        st["mutations_counted"] = tot
        return result(v, fp=digest(canon(changed) + canon(whole) + canon(spec)), nt=True, st=st)

    @staticmethod
    def order_moves(mut, n):
        """All changes the operator stands for, as permutations of positions, and the probability of the rarest."""
        out = set()
        for i in range(n):
            for j in range(i + 1, n):
                a, x, b = list(range(i)), list(range(i, j + 1)), list(range(j + 1, n))
                if mut == "swap":
                    out.add(tuple(a + [j] + x[1:-1] + [i] + b))
                elif mut == "inv":
                    out.add(tuple(a + x[::-1] + b))
                elif mut == "mov":
                    out |= {tuple(a + x[1:] + x[:1] + b), tuple(a + x[-1:] + x[:-1] + b)}
                elif n <= 12:
                    out |= {tuple(a + x[k:] + x[:k] + b) for k in range(1, len(x))}
        return out, 1 / (n * (n - 1)) / (max(1, n - 2) if mut == "shift" else 1)


class C16(Prop):
    id = "C16"
    rec = ("gen", "cx")
    oracles = (O.o_crossover,)
    quick = 17000
    thorough = 150000
    rule = RULE_RUN + ("at least two generations; plus reachability scenarios: two different parents recombined thousands of times, "
                       "every possible offspring looked for")

    def gen(self, rng, i):
        if i % 10 == 3:
            return self.reach(rng)
        s = G.multi(rng, maxgen=4) if rng.random() < 0.2 else G.single(rng, maxgen=8)
        return {"c": s}

    def reach(self, rng):
        cx = rng.choice(["one", "two", "uni", "ord"])
        long = rng.random() < 0.25
        if cx == "ord":
            ln = rng.randint(3, 6) if not long else rng.randint(7, 20)
            g = {"k": "ord", "g": [0, ln - 1 + rng.choice([0, 2]), ln]}
            pop = "order"
            a = rng.sample(range(g["g"][0], g["g"][1] + 1), ln)
            b = rng.sample(range(g["g"][0], g["g"][1] + 1), ln)
        elif rng.random() < 0.5:
            pop = "cat"
            ln = rng.randint({"one": 2, "two": 3, "uni": 1}[cx], 5 if cx == "uni" else 8)
            if long:
                ln = rng.randint(9, {"one": 130, "two": 30, "uni": 130}[cx])
            g = {"k": "cat", "g": [{"l": ["p", "q"]} for _ in range(ln)], "as": "list"}
            a, b = ["p"] * ln, ["q"] * ln
        else:
            pop = "binary"
            ln = rng.randint(1, 2)
            g = {"k": "bin", "g": [[0, 7, 1], [0, 3, 1]][:ln], "as": "tuple"}
            if long:
                k = rng.randint(8, {"one": 31, "two": 30, "uni": 31}[cx])
                g["g"] = [[0, 2 ** k - 1, 1]] * (1 if cx == "two" else rng.randint(1, 4))
            a = [x[0] for x in g["g"]]
            b = [x[1] for x in g["g"]]
        bits = ln if pop != "binary" else sum(model.bits_of(x) for x in g["g"])
        reach = 4000
        if long:
            reach = 45 * {"one": 2 * bits, "two": bits * bits, "uni": 2 ** bits if bits <= 8 else 20, "ord": bits * bits}[cx]
        return {"reach": reach, "c": {"kind": "steps", "pop": pop, "fit": "hyper", "sel": {"t": "tour", "k": 2}, "cx": cx,
                                     "mut": {"t": {"order": "mov", "cat": "cat", "binary": "bin"}[pop], "lvl": 0.0},
                                     "ng": {"t": "new"}, "gens": g, "n": 4, "ngen": 2, "cp": 1.0, "obj": {"fam": "hash"},
                                     "inpop": [a, b], "early": None, "stream": G.stream(rng, 0.0)}}

    def exec(self, part):
        if not part.get("reach"):
            return super().exec(part)
        return guarded(lambda: self.reachable(part))

    def reachable(self, part):
        spec = part["c"]
        c = begin(spec)
        run, d, comp = prepared(spec, c)
        e = eff(spec)
        first = []
        for want in spec["inpop"]:
            first.append(next(i for i in d.population
                              if list(i["phenotype"] if e["binary"] else i["genotype"]) == list(want)))
        p, q = list(first[0]["genotype"]), list(first[1]["genotype"])
        par = d.population.get_empty_copy()
        for _ in range(part["reach"]):
            for one in first:
                par.append(dict(one, genotype=list(one["genotype"])))
        d.parents = par
        c.progress()
        c.budget = 0
        comp["cx"].execute(d)
        seen = {}
        for k in d.children:
            t = tuple(k["genotype"])
            seen[t] = seen.get(t, 0) + 1
        n = len(p)
        cx = spec["cx"]
        ref = set()
        for a, b in ((p, q), (q, p)):
            if cx == "one":
                ref |= {tuple(a[:k] + b[k:]) for k in range(1, n)}
            elif cx == "two":
                ref |= {tuple(a[:i] + b[i:j] + a[j:]) for i in range(1, n) for j in range(i + 1, n)}
            elif cx == "uni":
                if n <= 8:
                    ref |= set(itertools.product(*zip(a, b)))
            else:
                for i in range(1, n):
                    for j in range(i + 1, n):
                        seg = a[i:j]
                        rest = [x for x in b if x not in seg]
                        ref.add(tuple(rest[n - j:n - j + i] + seg + rest[:n - j]))
        v = []
        if not ref:
            return self.uniform_long(run, seen, p, q, part)
        bad = sorted(t for t in seen if t not in ref)
        miss = sorted(t for t in ref if t not in seen)
        if bad:
            v = [("bad-offspring", f"{cx}: offspring {bad[0]!r} of {p!r} and {q!r} is no recombination")]
        elif miss:
            v = [("unreachable", f"{cx}: {len(miss)} of {len(ref)} recombinations of {p!r} and {q!r} never occurred in "
                                 f"{part['reach']} offspring, e.g. {miss[0]!r}")]
        st = stats(run)
        st["reachability_scenarios"] = 1
        st["points_looked_for"] = len(ref)
        return result(v, fp=digest(canon(sorted(seen.items()))), nt=True, st=st)

    @staticmethod
    def uniform_long(run, seen, p, q, part):
        v = []
        pairs = [set() for _ in p]
        for t in seen:
            if len(t) != len(p) or any(x != a and x != b for x, a, b in zip(t, p, q)):
                v = [("bad-offspring", f"uni: offspring {t!r} of {p!r} and {q!r} is no recombination")]
                break
            for i in range(len(p) - 1):
                pairs[i].add((t[i] == p[i], t[i + 1] == p[i + 1]))
        for i in range(len(p) - 1):
            if not v and len(pairs[i]) < 4:
                v = [("unreachable", f"uni: in {part['reach']} offspring of {len(p)} genes those at positions {i} and {i + 1} "
                                     f"came from the parents in only {len(pairs[i])} of the 4 ways")]
        st = stats(run)
        st["reachability_scenarios"] = 1
        st["points_looked_for"] = 4 * (len(p) - 1)
        return result(v, fp=digest(canon(sorted(seen.items()))), nt=True, st=st)


class C17(Prop):
    id = "C17"
    rec = ("gen", "ng")
    oracles = (O.o_newgen,)
    quick = 20000
    thorough = 300000
    rule = RULE_RUN + "at least two generations"

    def gen(self, rng, i):
        if rng.random() < 0.35:
            s = G.multi(rng, maxgen=6)
        else:
            s = G.single(rng, maxgen=9, cond=0.1)
            if rng.random() < 0.3:
                # small spaces: many duplicate encodings
                if s["gens"]["k"] == "bin" and s.get("cx") != "two":
                    s["gens"] = {"k": "bin", "g": [[0, 3, 1]], "as": "tuple"}
                elif s["gens"]["k"] == "cat" and s.get("cx") != "two":
                    s["gens"] = {"k": "cat", "g": [{"l": ["a", "b"]}, {"l": ["a", "b"]}], "as": "list"}
                s["inpop"] = None
        return {"c": s}


class C18(Prop):
    id = "C18"
    oracles = (O.o_input,)
    quick = 22000
    thorough = 300000
    rule = RULE_RUN + "a starting population was supplied"

    def gen(self, rng, i):
        if rng.random() < 0.2:
            s = G.multi(rng, maxgen=4, inpop_p=1.0)
        else:
            s = G.single(rng, maxgen=8, inpop_p=1.0, cond=0.1)
        return {"c": with_retry(rng, s)}

    def exec(self, part):
        spec = part["c"]
        c = begin(spec)
        run = Run(spec, c, self.rec)
        run.start()
        v = judged(self.oracles, run)
        return result(v, run, nt=bool(spec.get("inpop")))


# ---------------------------------------------------------------------------------------------------------------
# C19 report

class C19(Prop):
    id = "C19"
    quick = 10000
    thorough = 200000
    rule = ("one run with simulated standard output, optionally failing at a scheduled write, against the same run with working "
            "output in a pristine process; distinct = digest of the outcome and the fault list; non-trivial = "
            "something was to be printed or printing was switched off")

    def gen(self, rng, i):
        kinds = rng.choice([("api",), ("collector",)])
        s = G.multi(rng, kinds=kinds, maxgen=5) if rng.random() < 0.3 else G.single(rng, kinds=kinds, maxgen=6, cond=0.2)
        fail = []
        if rng.random() < 0.55:
            fail = [rng.randint(1, rng.choice([2, 6, 16, 24]))]
        if rng.random() < 0.12:     # stops early, after many generations
            s["ngen"], s["early"] = rng.choice([8, 14, 30]), rng.choice([0, 1, 3, 5, 6, 9])
            if "ffga" in (s.get("algo"), s.get("fit")):     # its population grows
                s["ngen"] = min(s["ngen"], 12)
            s["obj"]["fam"] = rng.choice(["const", "plateau", "plateau", "coarse"])
            s["obj"].pop("near", None)
        return {"c": s, "fail": fail, "error": rng.choice(sorted(WRITE_ERRORS))}

    def parts(self, scn):
        return [{"c": scn["c"], "fail": []}, {"c": scn["c"], "fail": scn["fail"], "error": scn.get("error", "ENOSPC")}]

    def exec(self, part):
        spec = part["c"]
        c = begin(spec)
        c.stdout.fail_at = frozenset(part["fail"])
        c.stdout.error = part.get("error", "ENOSPC")
        run = Run(spec, c, ("gen",))
        run.start()
        v = base_viol(run)
        text = c.stdout.text()
        x = {"text": digest(text), "writes": c.stdout.writes, "status": run.status}
        if not v:
            v = self.look(run, text, part["fail"])
        if not v and c.stdout.fired:
            if run.status != "exc" or run.exc is not c.stdout.exc:
                v = [("write-error-hidden", "the write error did not reach the caller")]
            if not v and spec["kind"] == "collector":
                c.stdout.fail_at = frozenset()
                c.stdout.data = []
                d = run.api.ga_data
                try:
                    d.print_best_solution()
                except Exception as ex:
                    v = [("not-reprintable", f"printing again fails: {ex!r}")]
                x["again"] = digest(c.stdout.text())
        d = run.api.ga_data if spec["kind"] == "collector" and run.api else run.data
        x["data"] = digest(canon_data(d)) if d is not None else None
        return result(v, run, x=x, nt=True, fp=digest(run.outcome() + canon(part["fail"])))

    @staticmethod
    def look(run, text, fail):
        spec = run.spec
        printing = spec["kind"] == "collector" or spec.get("is_print") is not False
        out = run.client.stdout
        if not printing:
            if out.writes:
                return [("printed-though-off", f"printing is off but {text[:80]!r} was written")]
            return []
        if any(g.nout for g in run.gens):
            return [("printed-early", "something was written before the last generation was recorded")]
        if out.fired or run.status != "ok":
            return []
        if not text.strip():
            return [("nothing-printed", "printing is on but nothing was written")]
        half = len(text) // 2
        if text[:half] == text[half:]:
            return [("printed-twice", "the report was written twice")]
        b = run.data.best_solution
        if "pareto_set" in b:
            want = [i["phenotype"] for i in b["pareto_set"]] + [i["obj_score"] for i in b["pareto_set"]]
            lines = [t.strip() for t in text.split("\n")]
            phs = [str(i["phenotype"]) for i in b["pareto_set"]]
            obs = [str(i["obj_score"]) for i in b["pareto_set"]]
            if not set(phs) & set(obs):
                lp = [t for t in lines if t in set(phs)]
                lo = [t for t in lines if t in set(obs)]
                if len(lp) == len(phs) and len(lo) == len(obs) and sorted(zip(lp, lo)) != sorted(zip(phs, obs)):
                    return [("report-mixed-up", "the report pairs values with other objective values than the run data")]
        else:
            want = [b["phenotype"] if eff(spec)["binary"] else b["genotype"], b["score"], b["obj_score"], b["genotype"],
                    b["feasible"], b["idx_generation"]]
        if "pareto_set" in b:
            diff = {str(i["phenotype"]): str(i["obj_score"]) for i in b["pareto_set"]}
            if not set(diff) & set(diff.values()):
                for w, k in collections.Counter(diff.values()).items():
                    if text.count(w) < k:
                        return [("report-incomplete", f"{k} solutions of the set have the objective values {w[:80]}, the report "
                                                      f"shows them {text.count(w)} times")]
        for w in want:
            if str(w) not in text:
                return [("report-incomplete", f"the report does not show {str(w)[:120]}: {text[:200]!r}")]
        return []

    def judge(self, scn, rs):
        out = super().judge(scn, rs[:1]) or super().judge(scn, rs[1:])
        if out:
            return out
        a, b = rs[0]["x"], rs[1]["x"]
        if b["status"] == "exc" and scn["c"]["kind"] == "collector":
            if a["data"] != b["data"]:
                return [("data-altered", "after the write error the run data differ from those of a run with working output")]
            if b.get("again") != a["text"]:
                return [("not-reprintable", "the report printed again differs from that of a run with working output")]
        if b["status"] == "ok" and (a["data"] != b["data"] or a["text"] != b["text"]):
            return [("data-altered", "two identical runs differ")]
        return []


# ---------------------------------------------------------------------------------------------------------------
# C22 the three ways of running

class C22(Prop):
    id = "C22"
    quick = 14000
    thorough = 200000
    rule = ("one run of a ready-made optimiser, and the same run assembled from the documented components with every parameter "
            "and default spelled out (collector or hand-written loop), on the same simulated stream in pristine "
            "processes; distinct = digest of the outcome; non-trivial = at least two generations")

    def gen(self, rng, i):
        kind = rng.choice(["api", "api", "api", "collector"])
        if rng.random() < 0.3:
            s = G.multi(rng, kinds=(kind,), maxgen=7, cond=0.2, inpop_p=0.25)
        else:
            s = G.single(rng, kinds=(kind,), maxgen=14, cond=0.2, inpop_p=0.25)
        if kind == "api":
            for k, p in (("cp", 0.35), ("tsize", 0.35), ("lvl", 0.35), ("tp", 0.35)):
                if rng.random() < p:
                    s[k] = None
            if rng.random() < 0.35:
                s["early"] = "default"
            if s["tsize"] is None and s["n"] <= 3:
                s["tsize"] = 2
            if not G.child_ok(s):
                s["cp"] = 1.0
        if rng.random() < 0.15:
            s["faults"] = [rng.randint(1, s["n"] * max(1, s["ngen"]))]
            s["exc"] = rng.choice(sorted(model.EXCS))
        return {"c": s, "as": "steps" if kind == "collector" else rng.choice(["steps", "steps", "collector"])}

    @staticmethod
    def assembled(s, kind):
        """The documented assembly of a ready-made optimiser, defaults spelled out."""
        e = eff(s)
        t = {k: v for k, v in s.items() if k not in ("algo", "gray", "tsize", "lvl", "tp", "is_print")}
        t.update(kind=kind, pop=e["pop"], fit=e["fit"], cx=e["cx"], sel={"t": e["sel"]}, mut={"t": e["mut"], "lvl": e["lvl"]},
                 ng={"t": e["ng"], "tp": e["tp"]}, cp=e["cp"], early=e["early"])
        if e["sel"] in ("tour", "vtour"):
            t["sel"]["k"] = e["tsize"]
        return t

    def parts(self, scn):
        s = scn["c"]
        t = self.assembled(s, scn["as"])
        if s["kind"] == "api" and s["algo"] == "vega" and s.get("faults"):
            t["faults"] = []
            s = dict(s, faults=[])      # how often it asks for the number of objectives is its own affair
        return [{"c": s}, {"c": t}]

    def exec(self, part):
        run = run_one(part["c"], ("gen",))
        v = base_viol(run)
        e = eff(part["c"])
        d = run.data if part["c"]["kind"] != "collector" or run.api is None else run.api.ga_data
        x = {"status": run.status, "gens": [digest(canon([[s.g, s.ph, s.score, s.obj, s.feas, s.rank] for s in g.pop])
                                                   + g.best_canon + g.hb_canon + canon([g.hm, g.hw, g.idx, g.noimp]))
                                            for g in run.gens],
             "calls": digest(canon([list(a) for a, _ in run.obj.calls])) if e["single"] else None,
             "exc": type(run.exc).__name__ if run.exc is not None else None,
             "data": digest(canon_data(d)) if run.status == "ok" else None}
        return result(v, run, x=x, nt=len(run.gens) >= 2)

    def judge(self, scn, rs):
        out = super().judge(scn, rs[:1]) or super().judge(scn, rs[1:])
        if out:
            return out
        a, b = rs[0]["x"], rs[1]["x"]
        name = scn["c"].get("algo", "collector")
        if a["status"] != b["status"] or a["exc"] != b["exc"]:
            return [("ends-differently", f"{name} ends '{a['status']} {a['exc']}', its documented assembly "
                                         f"'{b['status']} {b['exc']}'")]
        for i, (p, q) in enumerate(zip(a["gens"], b["gens"])):
            if p != q:
                return [("generation-differs", f"{name} and its documented assembly ({scn['as']}) differ from generation {i} on")]
        if len(a["gens"]) != len(b["gens"]):
            return [("length-differs", f"{name} makes {len(a['gens'])} generations, its documented assembly {len(b['gens'])}")]
        if a["calls"] != b["calls"]:
            return [("evaluations-differ", f"{name} and its documented assembly evaluate different candidates")]
        if a["data"] != b["data"]:
            return [("data-differs", f"the run data returned by {name} differ from those of its documented assembly")]
        return []


# ---------------------------------------------------------------------------------------------------------------
# C24 malformed objective results

class C24(Prop):
    id = "C24"
    quick = 16000
    thorough = 200000
    rule = ("malformed results of the objective (too many or too few values, a bare number, none, an empty sequence) injected at "
            "scheduled evaluations, the refused step retried or the assembled optimiser started again, against the run "
            "without them; distinct = digest of the outcome and the fault list; non-trivial = a malformed result was returned")

    def gen(self, rng, i):
        kind = rng.choice(["steps", "steps", "collector", "api"])
        multi = rng.random() < 0.15
        if multi:
            s = G.multi(rng, kinds=(kind,), maxn=7, maxgen=3, cond=0.3, big=0.0)
        else:
            s = G.single(rng, kinds=(kind,), maxn=10, maxgen=6, cond=0.5)
        conds = any(c != "optimize" for c in objective.op_list(s["obj"]) or ()) and s.get("penalty") is not None
        ways = ["none", "scalar"] if multi else ["extra", "missing", "scalar", "none", "twice"] if conds else \
            ["extra", "none", "empty", "pair"]
        per = s["n"] * (s["n"] if multi else 1)
        hi = rng.choice([s["n"], s["n"], per * max(1, s["ngen"])])
        s["bad"] = [[k, rng.choice(ways)] for k in sorted({rng.randint(1, max(1, hi)) for _ in range(rng.choice([1, 1, 2, 3]))})]
        s["retry"] = kind == "steps"
        return {"c": s}

    def parts(self, scn):
        return [{"c": dict(scn["c"], bad=[])}, {"c": scn["c"]}]

    def exec(self, part):
        spec = part["c"]
        e = eff(spec)
        run = Run(spec, begin(spec), ("gen",))
        o = run.obj
        o.bad = {int(k): w for k, w in spec["bad"]}
        v = []

        def consistent(d):
            nonlocal v
            v = v or after_fault(run, e, d)
        run.on_fault = consistent

        def settle():
            """Did the exception that ended the run refuse a malformed result?"""
            if run.status == "exc" and o.badn > run.refused and isinstance(run.exc, Exception):
                run.refused += 1
                o.pending = False
                return True
            return False
        run.start()
        refused = settle()
        tries = 0
        while refused and not v and spec["kind"] == "collector" and tries < 6:
            tries += 1
            v = after_fault(run, e, run.api.ga_data)
            if v or o.after_raise:
                break
            try:
                run.api.optimize()
                run.status, run.exc = "ok", None
            except SimHang as ex:
                run.status, run.exc = "hang", ex
            except BaseException as ex:
                run.status, run.exc = "exc", ex
            refused = settle()
        if o.after_raise:
            v = [("malformed-accepted", f"evaluation {self.first(spec)} returned a malformed result and the run went on evaluating")]
        elif o.badn > run.refused:
            v = v or base_viol(run) or [("malformed-accepted", "a malformed result of the objective did not raise an exception")]
        elif not refused:
            v = v or base_viol(run)
        x = {"calls": [digest(canon(list(a) + [b])) for a, b in o.calls], "data": digest(canon_data(run.data)), "bad": o.badn,
             "gens": [digest(canon([[s.g, s.ph, s.score, s.obj, s.feas] for s in g.pop]) + g.best_canon + g.hb_canon)
                      for g in run.gens]}
        return result(v, run, x=x, nt=o.badn > 0, fp=digest(run.outcome() + canon(spec["bad"])))

    @staticmethod
    def first(spec):
        return spec["bad"][0][0] if spec["bad"] else 0

    def judge(self, scn, rs):
        out = super().judge(scn, rs[:1]) or super().judge(scn, rs[1:])
        if out:
            return out
        a, b = rs[0]["x"], rs[1]["x"]
        s = scn["c"]
        single = eff(s)["single"]
        if s["kind"] == "api":
            if single and b["calls"] != a["calls"][:len(b["calls"])]:
                return [("evaluations-differ", "evaluations before the malformed result differ from the run without it")]
            return []
        if single and a["calls"] != b["calls"][:len(a["calls"])]:
            return [("retry-evaluations", f"after {b['bad']} refused results other candidates are evaluated than without them")]
        if a["gens"] != b["gens"][:len(a["gens"])]:
            return [("retry-result", f"after {b['bad']} refused results the generations differ from the run without them")]
        if s["kind"] == "steps" and a["data"] != b["data"]:
            return [("retry-result", f"after {b['bad']} refused results the final run data differ from the run without them")]
        return []


# ---------------------------------------------------------------------------------------------------------------
# C23 checkpoint and resume

def in_new_process(fn, *a):
    """Run fn(*a) in a process forked from this one; its value comes back pickled."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 1, 1)
            try:
                out = fn(*a)
                data = pickle.dumps(out)
            except SimHang as ex:
                data = pickle.dumps({"status": "hang", "msg": str(ex)})
            except BaseException:
                data = pickle.dumps({"status": "harness", "msg": traceback.format_exc()[-2000:]})
            signal.setitimer(signal.ITIMER_PROF, 0)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    _, status = os.waitpid(pid, 0)
    if not buf:
        return {"status": "hang", "msg": f"the process ended with status {status}"}
    return pickle.loads(buf)


class Life:
    """The hand-written loop as a sequence of numbered steps that can be left at any boundary and taken up again."""

    ORDER = ("sel", "cx", "mut", "ng")

    def __init__(self, spec, saved=None):
        import baumeva.ga as g
        self.spec = spec
        self.e = e = eff(spec)
        CTX.reset()
        c = self.client = CTX.main
        c.set_stream(spec["stream"])
        c.budget = budget(spec)
        self.run = run = Run(spec, c, ("gen",))
        self.comp = run.components()
        self.log = {"gens": [], "calls": [], "out": "", "n": 0, "fired": 0, "raised": 0}
        if saved is None:
            kw = {"early_stop": e["early"]}
            if spec.get("cp") is not None:
                kw["children_percent"] = spec["cp"]
            d = (g.GaData if e["single"] else g.MultiGaData)(num_generations=spec["ngen"], **kw)
            p = pop_class(spec)()
            p.set_params(num_individ=spec["n"], gens=run.args.gens, input_population=run.args.inpop)
            p.fill()
            d.population = p
            self.d = d
            self.done, self.gen, self.phase = 0, 0, "fit"
        else:
            self.take(saved)

    def take(self, saved):
        self.d = pickle.loads(saved["data"])
        s = self.client.stream
        s.core.setstate(saved["core"])
        s.ent.setstate(saved["ent"])
        s.key, s.k, s.n, s.last, s.seedings = saved["st"]
        self.done, self.gen, self.phase = saved["pos"]
        self.run.obj.attempts = saved["attempts"]
        self.log = saved["log"]

    def save(self):
        s = self.client.stream
        self.drain()
        return {"status": "saved", "data": pickle.dumps(self.d), "core": s.core.getstate(), "ent": s.ent.getstate(),
                "st": (s.key, s.k, s.n, s.last, s.seedings), "pos": (self.done, self.gen, self.phase),
                "attempts": self.run.obj.attempts, "log": self.log}

    def drain(self):
        run, lg = self.run, self.log
        lg["calls"] += [canon([list(a), b]) for a, b in run.obj.calls]
        run.obj.calls = []
        lg["gens"] += [digest(canon([[s.g, s.ph, s.score, s.obj, s.feas, s.rank] for s in g.pop]) + g.best_canon + g.hb_canon
                              + canon([g.hm, g.hw, g.idx, g.noimp, list(g.nhist)])) for g in run.gens]
        run.gens = []
        lg["raised"] += len(run.obj.raised)
        run.obj.raised = []
        lg["fired"] += len(self.client.stream.fired)
        self.client.stream.fired = []

    def step(self):
        """One step of the loop; False when the loop is over."""
        d = self.d
        ph = self.phase
        if ph == "fit":
            self.comp["fit"].execute(d)
            self.phase = "update"
        elif ph == "update":
            d.update()
            self.gen += 1
            self.phase = "sel"
            if self.gen >= d.num_generations or (self.gen > 1 and d.num_generation_no_improve > d.early_stop):
                self.phase = "end"
        elif ph == "end":
            return False
        else:
            self.comp[ph].execute(d)
            self.phase = dict(zip(self.ORDER, self.ORDER[1:] + ("fit",)))[ph]
        self.done += 1
        return self.phase != "end"

    def go(self, stop):
        """Until boundary `stop`, an injected failure, or the end."""
        o = self.run.obj
        while stop is None or self.done < stop:
            try:
                if not self.step():
                    break
            except SimHang:
                raise
            except BaseException as ex:
                if any(ex is x for x in o.raised):
                    o.pending = False
                    if stop is not None:
                        return "stop"
                    continue
                self.drain()
                return ("crash:" + type(ex).__name__, f"unexpected {type(ex).__name__}: {str(ex)[:200]} (in {where(ex)})")
        return "end" if self.phase == "end" else "stop"


def life_segment(spec, saved, stop, mode):
    try:
        lf = Life(spec, saved)
    except (SimHang, pickle.PickleError, TypeError, AttributeError) as ex:
        if isinstance(ex, SimHang) or saved is None:
            raise
        return {"status": "viol", "v": ["not-restorable", f"the saved run data cannot be read back: {type(ex).__name__}: {ex}"]}
    r = lf.go(stop)
    if isinstance(r, tuple):
        return {"status": "viol", "v": list(r)}
    if r == "stop":
        try:
            return lf.save()
        except Exception as ex:
            return {"status": "viol", "v": ["not-savable", f"the run data cannot be pickled after step {lf.done}: "
                                                           f"{type(ex).__name__}: {str(ex)[:150]}"]}
    lf.drain()
    return {"status": "end", "log": lf.log, "data": canon_data(lf.d), "done": lf.done, "n": lf.client.stream.n}


class C23(Prop):
    id = "C23"
    quick = 10000
    thorough = 150000
    rule = ("a hand-written loop killed at scheduled step boundaries or by a failing evaluation, each time continued in a "
            "pristine process from nothing but the pickled run data and the state of the random stream, with new component "
            "objects, against the uninterrupted run; distinct = digest of the outcome and the crash points; "
            "non-trivial = at least one crash before the end")

    def gen(self, rng, i):
        if rng.random() < 0.3:
            s = G.multi(rng, kinds=("steps",), maxn=9, maxgen=5, cond=0.25, inpop_p=0.3, big=0.01)
        else:
            s = G.single(rng, kinds=("steps",), maxgen=10, cond=0.4, inpop_p=0.3, big=0.01)
        k = rng.choice([1, 1, 2, 3])
        hi = 2 + 6 * max(0, s["ngen"] - 1)
        stops = sorted({rng.randint(0, hi) for _ in range(k)})
        if eff(s)["single"] and rng.random() < 0.3:
            s["faults"] = [rng.randint(1, s["n"] * max(1, s["ngen"]))]
            s["exc"] = rng.choice(sorted(model.EXCS))
        return {"c": s, "acts": [{"stop": x} for x in stops]}

    def parts(self, scn):
        return [{"c": dict(scn["c"], faults=[]), "acts": []}, {"c": scn["c"], "acts": scn["acts"]}]

    def exec(self, part):
        spec = part["c"]
        stops = [a["stop"] for a in part["acts"]]
        saved = None
        crashes = 0
        v = []
        while True:
            last = not stops and not spec.get("faults")
            if stops:
                stop = stops[0]
            else:
                stop = None if last else 10 ** 9
            r = in_new_process(life_segment, spec, saved, stop, None)
            if r["status"] == "harness":
                raise RuntimeError(r["msg"])
            if r["status"] != "saved":
                break
            crashes += 1
            if stops and r["pos"][0] >= stops[0]:
                stops = stops[1:]
            saved = r
            if crashes > 12:
                stops, spec = [], dict(spec, faults=[])
        if r["status"] == "hang":
            v = [("hang", r["msg"])]
        elif r["status"] == "viol":
            v = [tuple(r["v"])]
        if v:
            return {"viol": [list(x) for x in v], "fp": "v", "nt": False, "st": {"optimiser_runs": 1}, "x": None, "fired": None}
        lg = r["log"]
        st = {"optimiser_runs": 1, "fault_process_crash": crashes - lg["raised"], "fault_objective_exception": lg["raised"],
              "fault_extreme_draw": lg["fired"], "generations": len(lg["gens"]), "evaluations": len(lg["calls"]),
              "random_draws": r["n"], "kind_steps": 1}
        return {"viol": [], "fp": digest("".join(lg["gens"]) + canon(part["acts"])), "nt": crashes > 0,
                "st": {k: x for k, x in st.items() if x}, "fired": None,
                "x": {"gens": lg["gens"], "calls": digest("".join(lg["calls"])), "ncalls": len(lg["calls"]),
                      "data": [digest(t) for t in r["data"].split("\n")], "n": r["n"], "crashes": crashes}}

    def judge(self, scn, rs):
        out = super().judge(scn, rs[:1]) or super().judge(scn, rs[1:])
        if out:
            return out
        a, b = rs[0]["x"], rs[1]["x"]
        at = [x["stop"] for x in scn["acts"]] + [f"evaluation {f}" for f in scn["c"].get("faults", ())]
        tail = f"(process ended after steps {at} and continued from the saved run data)"
        for i, (p, q) in enumerate(zip(a["gens"], b["gens"])):
            if p != q:
                return [("resumed-differs", f"generation {i} differs from the uninterrupted run {tail}")]
        if len(a["gens"]) != len(b["gens"]):
            return [("resumed-length", f"{len(b['gens'])} generations instead of {len(a['gens'])} {tail}")]
        if eff(scn["c"])["single"] and a["calls"] != b["calls"]:
            return [("resumed-evaluations", f"{b['ncalls']} evaluations, {a['ncalls']} uninterrupted, or others {tail}")]
        if a["data"] != b["data"]:
            return [("resumed-data", f"the final run data differ from the uninterrupted run {tail}")]
        return []


PROPS = {cls.id: cls() for cls in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17,
                                   C18, C19, C22, C23, C24)}
