"""Oracles over a recorded run.  Each returns a list of (code, message); `code` is the violation class."""
from . import model, objective
from .model import MISSING, bits_of, close, decode, eff, total_bits

INF = float("inf")


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) and v == v


def values_of(e, s):
    """The values an individual stands for: decoded for binary encodings, else the genotype."""
    return s.ph if e["binary"] else s.g


def feq(a, b):
    if not (is_num(a) and is_num(b)):
        return a == b
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def feq_any(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(feq(x, y) for x, y in zip(a, b))
    return feq(a, b)


# ---------------------------------------------------------------------------------------------------------------
# C07

def in_space(spec, e, cand, alphabet=None):
    """None if the candidate lies in the declared search space, else why not."""
    g = spec["gens"]
    if g["k"] == "bin":
        if len(cand) != len(g["g"]):
            return f"{len(cand)} values for {len(g['g'])} genes"
        for v, (lo, hi, step) in zip(cand, g["g"]):
            if not is_num(v):
                return f"value {v!r} is not a number"
            rng = hi - lo
            if v < lo - 1e-9 * max(1, abs(lo), rng) or v > hi + 1e-9 * max(1, abs(hi), rng):
                return f"value {v!r} outside [{lo}, {hi}]"
            real = rng / (2 ** bits_of((lo, hi, step)) - 1)
            k = (v - lo) / real
            if abs(k - round(k)) > max(1e-5 * max(1.0, abs(lo) / real * 1e-9), (abs(k) + abs(lo) / real) * 1e-15):
                return f"value {v!r} not on the grid of [{lo}, {hi}] with step {real}"
        return None
    if g["k"] == "cat":
        if len(cand) != len(g["g"]):
            return f"{len(cand)} values for {len(g['g'])} genes"
        for i, (v, gene) in enumerate(zip(cand, g["g"])):
            if "l" in gene:
                ok = any(type(v) is type(x) and v == x for x in gene["l"])
            else:
                ok = type(v) is int and v in range(gene["r"][0], gene["r"][1] + 1, gene["r"][2])
            if not ok:
                return f"gene {i} has value {v!r}, not one of its declared values"
        return None
    lo, hi, ln = g["g"]
    if len(cand) != ln:
        return f"{len(cand)} elements instead of {ln}"
    if len(set(cand)) != len(cand):
        return f"repeated element in {list(cand)!r}"
    for v in cand:
        if alphabet is not None and v in alphabet:
            continue
        if not (type(v) is int and lo <= v <= hi):
            return f"element {v!r} outside {lo}..{hi}"
    return None


def o_space(run):
    e = eff(run.spec)
    out = []
    alphabet = None
    if run.spec["gens"]["k"] == "ord" and run.spec.get("inpop"):
        alphabet = {v for i in run.spec["inpop"] for v in i}
    for k, (cand, _) in enumerate(run.obj.calls):
        why = in_space(run.spec, e, cand, alphabet)
        if why:
            out.append(("outside-space", f"evaluation {k + 1}: candidate {list(cand)!r}: {why}"))
            break
    if run.obj.types - {"list"}:
        out.append(("not-a-list", f"objective was given {sorted(run.obj.types)}"))
    return out


# ---------------------------------------------------------------------------------------------------------------
# reference fitness

def ref_fitness(spec, e, value, pen=0):
    t = spec.get("obj_value")
    if e["fit"] == "hyper":
        if t is not None:
            return 1.0 / (1 + abs(t - value) + pen)
        return -(value + pen)
    if e["fit"] == "vega":
        if t is not None:
            return [1.0 / (1 + abs(t[i] - v) + pen) for i, v in enumerate(value)]
        return [-(v + pen) for v in value]
    raise ValueError


def split(spec, ret):
    """Returned values -> (optimised value(s), [(op, value)])."""
    conds = spec["obj"].get("conds")
    if conds is None:
        return ret, []
    opt = [r for r, c in zip(ret, conds) if c == "optimize"]
    con = [(c["op"], r) for r, c in zip(ret, conds) if c != "optimize"]
    return (opt if spec["obj"].get("multi") else opt[0]), con


def feasible(con):
    return all((v <= 0) if op == "<=" else (v == 0) for op, v in con)


def violation(op, v):
    return abs(v) if op == "!=" else max(0, v)


def ref_penalty(spec, con, t, best_feasible):
    p = spec["penalty"]
    if p["t"] == "dyn":
        s = sum(violation(op, v) ** p.get("betta", 2) for op, v in con)
        return p.get("delta", 1) * ((p.get("c", 0.5) * t) ** p.get("alpha", 2)) * s
    if p["t"] == "ada":
        s = sum(violation(op, v) ** p.get("betta", 2) for op, v in con)
        w = 0 if t == 0 else 10 / p.get("betta_1", 1.1) if best_feasible else 10 * p.get("betta_2", 1.2)
        return p.get("delta", 1) * w * s
    if p["t"] == "own":
        s = sum(violation(op, v) for op, v in con)
        return p["base"] * (s > 0) + p["k"] * s
    tot = 0
    for j, (op, v) in enumerate(con):
        x = violation(op, v)
        if x == 0:
            continue
        iv, co = (p["ei"], p["ec"]) if op == "!=" else (p["ii"], p["ic"])
        for (a, b), r in zip(iv[str(j)], co[str(j)]):
            b = INF if b is None else b
            if a < x <= b:
                tot += (r * x) ** 2
                break
        else:
            return None
    return tot


def conditional(spec):
    return spec["obj"].get("conds") is not None and spec.get("penalty") is not None


# ---------------------------------------------------------------------------------------------------------------
# C05

def o_best(run):
    out = []
    prev_hb = None
    first_reached = {}
    allbest = None
    seen_gen = 0
    best_gen = 0
    for gi, g in enumerate(run.gens):
        scores = [s.score for s in g.pop]
        if not all(is_num(x) for x in scores):
            return [("no-score", f"generation {gi}: an individual has no fitness: {scores!r}")]
        # individuals evaluated in this generation are those in the population now; union over history
        m = max(scores)
        if allbest is None or m > allbest:
            allbest, best_gen = m, gi
        b = g.best_snap
        if b is None:
            return [("no-best", f"generation {gi}: no best solution reported")]
        if b.score != allbest:
            out.append(("best-not-max", f"generation {gi}: reported best fitness {b.score!r}, "
                                        f"highest fitness seen so far {allbest!r} (generation {best_gen})"))
        if m < allbest:
            out.append(("best-lost", f"generation {gi}: best fitness present {m!r}, but {allbest!r} was reached in "
                                     f"generation {best_gen}"))
        elif not any(s.score == b.score and s.g == b.g for s in g.pop):
            out.append(("best-not-present", f"generation {gi}: the reported best individual {b.g!r} is not in the "
                                            f"generation"))
        if g.best_idx != best_gen:
            out.append(("best-index", f"generation {gi}: best marked with generation {g.best_idx!r}, first reached in "
                                      f"{best_gen}"))
        if prev_hb is not None and is_num(g.hb) and g.hb < prev_hb:
            out.append(("history-regressed", f"generation {gi}: best-fitness history falls from {prev_hb!r} to {g.hb!r}"))
        prev_hb = g.hb
        if out:
            return out
    # the best value over everything the objective returned (unconstrained, deterministic fitness formula)
    e = eff(run.spec)
    if not conditional(run.spec) and run.gens and run.status == "ok":
        best_eval = max(ref_fitness(run.spec, e, r) for _, r in run.obj.calls)
        if not feq(best_eval, run.gens[-1].best_snap.score):
            out.append(("best-evaluation-missed", f"an evaluation had fitness {best_eval!r}, reported best has "
                                                  f"{run.gens[-1].best_snap.score!r}"))
    if run.status == "ok" and run.gens and run.data is not None:
        now = model.canon_full(run.data.best_solution)
        if now != run.gens[-1].best_full:
            out.append(("best-altered", f"best solution changed after the last generation: {run.gens[-1].best_full} -> "
                                        f"{now}"))
    # snapshots: while best_idx stays, content must stay
    for a, b in zip(run.gens, run.gens[1:]):
        if a.best_idx == b.best_idx and a.best_full != b.best_full:
            out.append(("best-altered", f"best of generation {a.best_idx} changed from {a.best_full} to "
                                        f"{b.best_full} without a better one"))
            break
    return out


# ---------------------------------------------------------------------------------------------------------------
# C06

def o_truth(run):
    e = eff(run.spec)
    log = {}
    out = []
    pos = 0
    for gi, g in enumerate(run.gens):
        for cand, ret in run.obj.calls[pos:g.ncalls]:
            log.setdefault(cand, []).append(ret)
        pos = g.ncalls
        inds = [("individual %d" % i, s) for i, s in enumerate(g.pop)]
        if g.best_snap is not None:
            inds.append(("the reported best", g.best_snap))
        inds += [("member %d of the reported front" % i, s) for i, s in enumerate(g.pareto or ())]
        for name, s in inds:
            where = f"generation {gi}, {name}"
            if e["binary"]:
                if not isinstance(s.g, list) or len(s.g) != total_bits(run.spec) or \
                        any(b not in ("0", "1") for b in s.g):
                    return [("bad-encoding", f"{where}: encoding {s.g!r} is not a bit string of "
                                             f"{total_bits(run.spec)} bits")]
                ref = decode(run.spec, e["pop"], s.g)
                if not isinstance(s.ph, list) or len(ref) != len(s.ph) or \
                        not all(is_num(a) and close(a, b) for a, b in zip(s.ph, ref)):
                    return [("decode-mismatch", f"{where}: bits {''.join(s.g)} decode to {ref!r}, shown {s.ph!r}")]
            v = values_of(e, s)
            if not isinstance(v, list):
                return [("bad-values", f"{where}: values {v!r}")]
            rets = log.get(tuple(v))
            if rets is None:
                return [("never-evaluated", f"{where}: values {v!r} were never passed to the objective")]
            opts = [split(run.spec, r)[0] for r in rets]
            if not any(o == s.obj for o in opts):
                return [("wrong-value", f"{where}: shows objective value {s.obj!r}, the objective returned "
                                        f"{opts!r} for {v!r}")]
            if not conditional(run.spec) and e["fit"] != "ffga":
                f = ref_fitness(run.spec, e, s.obj)
                if not (feq(f, s.score) if e["single"] else isinstance(s.score, list) and len(f) == len(s.score) and
                        all(feq(a, b) for a, b in zip(f, s.score))):
                    return [("wrong-fitness", f"{where}: fitness {s.score!r} for objective value {s.obj!r}, "
                                              f"expected {f!r}")]
    return out


# ---------------------------------------------------------------------------------------------------------------
# C08

def o_once(run):
    e = eff(run.spec)
    out = []
    if run.obj.bad_args:
        out.append(("wrong-arguments", run.obj.bad_args[0]))
    if run.status != "ok":
        return out
    n = run.spec["n"]
    kids = int(e["cp"] * n)
    ngen = len(run.gens)
    want = n + kids * (ngen - 1)
    if len(run.obj.calls) != want:
        out.append(("call-count", f"{len(run.obj.calls)} evaluations for {ngen} generations of {n} individuals with "
                                  f"{kids} offspring each; expected {want}"))
    pos = 0
    for gi, g in enumerate(run.gens):
        fresh = n if gi == 0 else kids
        got = [c for c, _ in run.obj.calls[pos:g.ncalls]]
        if len(got) != fresh:
            out.append(("call-count", f"generation {gi}: {len(got)} evaluations for {fresh} new individuals"))
            break
        pos = g.ncalls
    # each call belongs to one new individual: compare as multisets around the evaluation steps
    for st in run.steps:
        if st.kind != "fit" or st.exc is not None:
            continue
        new = sorted(repr(tuple(values_of(e, b))) for a, b in zip(st.pre_pop, st.post_pop) if a.score is None)
        got = sorted(repr(c) for c, _ in run.obj.calls[st.calls[0]:st.calls[1]])
        if new != got:
            out.append(("evaluated-other", f"generation {st.gen}: evaluated {got[:4]}..., new individuals are "
                                           f"{new[:4]}..."))
            break
    return out


# ---------------------------------------------------------------------------------------------------------------
# C09

def pareto_key(run, g):
    return frozenset(tuple(s.g) for s in g.pareto or ())


def o_book(run):
    out = []
    e = eff(run.spec)
    ngen, es = run.spec["ngen"], e["early"]
    if run.status != "ok":
        return out
    d = run.data
    k = len(run.gens)
    if k and e["fit"] != "vega":
        sc = [s.score for s in run.gens[-1].pop]
        want, tol = sum(sc) / len(sc), 1e-9 * (1 + sum(map(abs, sc)) / len(sc))
        got = d.get_avg_score()
        if got != want and not abs(got - want) <= tol:
            return [("wrong-average", f"the average fitness is reported as {got!r}, the last generation {sc!r} has {want!r}")]
    noimp = 0
    best = None
    for gi, g in enumerate(run.gens):
        if e["single"]:
            sc = sorted(s.score for s in g.pop)
            b = sc[-1]
            if best is None or b > best:
                if best is not None:
                    noimp = 0
                best = b
            else:
                noimp += 1
            want = (sc[-1], sc[int(len(sc) / 2)], sc[0])
            if (g.hb, g.hm, g.hw) != want:
                return [("history-values", f"generation {gi}: history entries best/middle/worst "
                                           f"{(g.hb, g.hm, g.hw)!r}, the generation has {want!r}")]
            if g.nhist != (gi + 1,) * 3:
                return [("history-length", f"after generation {gi} the histories have {g.nhist} entries")]
        else:
            b = non_dominated_set(run, g)
            if best is None or b != best:
                noimp = 0
            else:
                noimp += 1
            best = b
            if g.nhist[0] != gi + 1:
                return [("history-length", f"after generation {gi} the history has {g.nhist[0]} entries")]
            hb = frozenset(tuple(i.get("genotype") or ()) for i in (g.hb if isinstance(g.hb, list) else []))
            if hb != b:
                # g.hb is a live reference; only judged here when it is still what was recorded
                if model.canon_hist([g.hb]) == g.hb_canon:
                    return [("history-values", f"generation {gi}: history entry has {len(hb)} solutions, the "
                                               f"generation has {len(b)} non-dominated ones")]
        if g.noimp != noimp:
            return [("no-improve-count", f"generation {gi}: {g.noimp} generations without improvement reported, "
                                         f"{noimp} counted")]
        if g.idx != gi + 1:
            return [("generation-index", f"after generation {gi} the index of the next generation is {g.idx}")]
        stop = gi > 0 and noimp > es
        last = gi == k - 1
        if stop and not last:
            return [("stopped-late", f"no improvement for {noimp} generations after generation {gi} "
                                     f"(limit {es}), but {k - 1 - gi} more generations were made")]
        if last and not stop and k < ngen:
            return [("stopped-early", f"stopped after generation {gi} of {ngen} with {noimp} generations without "
                                      f"improvement (limit {es})")]
    if k > ngen:
        out.append(("too-many-generations", f"{k} generations made, {ngen} requested"))
    if k == 0:
        out.append(("no-generation", "no generation recorded"))
    # history immutability
    ent = list(d.historical_best or [])
    if len(ent) != k:
        out.append(("history-length", f"{len(ent)} history entries for {k} generations"))
    for gi, g in enumerate(run.gens[:len(ent)]):
        now = model.canon_full(ent[gi])
        if now != g.hb_full:
            out.append(("history-rewritten", f"history entry of generation {gi} was {g.hb_full[:300]} and later "
                                             f"became {now[:300]}"))
            break
    if e["single"]:
        for gi, g in enumerate(run.gens):
            if (d.historical_mediocre[gi], d.historical_worst[gi]) != (g.hm, g.hw):
                out.append(("history-rewritten", f"history entries of generation {gi} changed"))
                break
    return out


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def vectors(run, pop):
    return [objective.returned(run.spec["obj"], tuple(s.ph)) for s in pop]


def non_dominated_set(run, g):
    vs = vectors(run, g.pop)
    return frozenset(tuple(s.g) for s, v in zip(g.pop, vs) if not any(dominates(w, v) for w in vs))


# ---------------------------------------------------------------------------------------------------------------
# C11

def o_constrained(run):
    e = eff(run.spec)
    first = {}
    prev_best_feas = None
    prev = {}
    for gi, g in enumerate(run.gens):
        # which individuals are new in this generation: those evaluated now
        new_calls = run.obj.calls[(run.gens[gi - 1].ncalls if gi else 0):g.ncalls]
        evaluated = {c for c, _ in new_calls}
        cur = {}
        for i, s in enumerate(g.pop):
            where = f"generation {gi}, individual {i}"
            v = tuple(values_of(e, s) or ())
            ret = objective.returned(run.spec["obj"], v)
            opt, con = split(run.spec, ret)
            if s.obj != opt:
                return [("wrong-objective", f"{where}: shows objective value {s.obj!r}, returned values {ret!r} with "
                                            f"conditions {objective.op_list(run.spec['obj'])} give {opt!r}")]
            if bool(s.feas) != feasible(con) or not isinstance(s.feas, bool):
                return [("wrong-feasible", f"{where}: feasible={s.feas!r} with constraint values {con!r}")]
            # allowed fitness: computed now (if evaluated in this generation) or carried over
            if e["fit"] == "ffga":
                continue
            ok = set()
            pen = ref_penalty(run.spec, con, gi, prev_best_feas)
            want = ref_fitness(run.spec, e, opt, pen)
            now_ok = v in evaluated and feq_any(s.score, want)
            old_ok = any(feq_any(s.score, x) for x in prev.get(v, ()))
            if not now_ok and not old_ok:
                return [("wrong-fitness", f"{where}: fitness {s.score!r} for objective {opt!r}, constraint values "
                                          f"{con!r}, generation {gi}, best so far feasible={prev_best_feas}; "
                                          f"expected {want!r}" + (f" or carried-over {prev[v]!r}" if v in prev else ""))]
            cur.setdefault(v, []).append(s.score)
        prev = cur
        if e["single"] and g.best_snap is not None:
            prev_best_feas = g.best_snap.feas
    return []


# ---------------------------------------------------------------------------------------------------------------
# C12 / C13

def o_pareto(run):
    e = eff(run.spec)
    for gi, g in enumerate(run.gens):
        if any(not isinstance(s.ph, list) for s in g.pop):
            return [("no-values", f"generation {gi}: an individual has no decoded values")]
        vs = vectors(run, g.pop)
        for i, (s, v) in enumerate(zip(g.pop, vs)):
            where = f"generation {gi}, individual {i}"
            ref = decode(run.spec, e["pop"], s.g)
            if not all(close(a, b) for a, b in zip(ref, s.ph)):
                return [("decode-mismatch", f"{where}: bits {''.join(s.g)} decode to {ref!r}, shown {s.ph!r}")]
            rk = 1 + sum(dominates(w, v) for w in vs)
            if s.rank != rk:
                return [("wrong-rank", f"{where}: rank {s.rank!r}, dominated by {rk - 1} individuals "
                                       f"(values {v!r})")]
            if s.obj != v:
                return [("wrong-value", f"{where}: shows objective values {s.obj!r}, the objective returns {v!r}")]
            if e["fit"] == "ffga":
                if not feq(s.score, 1.0 / (1 + rk)):
                    return [("wrong-fitness", f"{where}: fitness {s.score!r} with rank {rk}, expected "
                                              f"{1.0 / (1 + rk)!r}")]
            else:
                f = ref_fitness(run.spec, e, v)
                if not feq_any(s.score, f):
                    return [("wrong-fitness", f"{where}: fitness {s.score!r}, expected {f!r}")]
        want = sorted(tuple(s.g) for s, v in zip(g.pop, vs) if not any(dominates(w, v) for w in vs))
        got = sorted(tuple(s.g) for s in g.pareto or ())
        if set(want) != set(got):
            missing = [x for x in want if x not in got]
            extra = [x for x in got if x not in want]
            return [("wrong-set", f"generation {gi}: reported set has {len(got)} solutions, {len(want)} are "
                                  f"non-dominated; missing {[''.join(x) for x in missing][:3]}, not non-dominated "
                                  f"{[''.join(x) for x in extra][:3]}")]
        for s in g.pareto or ():
            v = objective.returned(run.spec["obj"], tuple(s.ph))
            if s.obj != v or not all(close(a, b) for a, b in zip(decode(run.spec, e["pop"], s.g), s.ph)):
                return [("wrong-value", f"generation {gi}: reported solution {s.ph!r} shows {s.obj!r}, the objective "
                                        f"returns {v!r}")]
    return []


def o_archive(run):
    seen = set()
    pos = 0
    for gi, g in enumerate(run.gens):
        if any(not isinstance(s.ph, list) for s in g.pop):
            return [("no-values", f"generation {gi}: an individual has no decoded values")]
        for s in g.pop:
            seen.add(tuple(objective.returned(run.spec["obj"], tuple(s.ph))))
        for c, r in run.obj.calls[pos:g.ncalls]:
            seen.add(tuple(r))
        pos = g.ncalls
        rep = {tuple(objective.returned(run.spec["obj"], tuple(s.ph))) for s in g.pareto or ()}
        for r in sorted(rep):
            d = [w for w in seen if dominates(w, r)]
            if d:
                return [("dominated-reported", f"generation {gi}: reported vector {r!r} is dominated by {min(d)!r} "
                                               f"evaluated earlier in the run")]
        for w in sorted(seen):
            if w not in rep and not any(dominates(r, w) for r in rep):
                return [("non-dominated-lost", f"generation {gi}: evaluated vector {w!r} is neither reported nor "
                                               f"dominated by a reported one")]
    return []


# ---------------------------------------------------------------------------------------------------------------
# C14 structure

def ident(s):
    return (repr(s.g), repr(s.score), repr(s.obj))


def o_selection(run):
    e = eff(run.spec)
    n = run.spec["n"]
    m = e["m"]
    vega = e["sel"].startswith("v")
    if e["sel"] in ("tour", "vtour"):
        k = e["tsize"]
        if run.spec["kind"] == "api" and run.spec["algo"] == "ffga":
            k = None
    else:
        k = None
    for st in run.steps:
        if st.kind != "sel" or st.exc is not None:
            continue
        gi = st.gen
        pre = {}
        for s in st.pre_pop:
            pre[ident(s)] = pre.get(ident(s), 0) + 1
        post = {}
        for s in st.post_pop:
            post[ident(s)] = post.get(ident(s), 0) + 1
        if pre != post:
            return [("population-changed", f"generation {gi}: selection changed the generation")]
        par = st.post_par or []
        pairs = m * int(e["cp"] * n / m) if vega else int(e["cp"] * n)
        if len(par) != 2 * pairs:
            return [("pair-count", f"generation {gi}: {len(par) / 2:g} pairs selected, expected {pairs} "
                                   f"(child percentage {e['cp']}, size {n}" + (f", {m} objectives)" if vega else ")"))]
        for s in par:
            if ident(s) not in pre:
                return [("not-a-member", f"generation {gi}: parent {s.g!r} (fitness {s.score!r}) is not an individual of "
                                         f"the generation")]
        for i in range(0, len(par), 2):
            a, b = ident(par[i]), ident(par[i + 1])
            if a == b and pre[a] < 2:
                return [("same-parent", f"generation {gi}: pair {i // 2} uses one individual twice: {par[i].g!r}")]
        if k:
            k = min(k, len(st.pre_pop) - 1)
            for i, s in enumerate(par):
                o = (i // 2) // (pairs // m) if vega else None
                mine = s.score[o] if vega else s.score
                lower = sum((x.score[o] if vega else x.score) <= mine for x in st.pre_pop) - 1
                if lower < k - 1:
                    return [("weak-winner", f"generation {gi}: parent {i} with fitness {mine!r}"
                                            + (f" in objective {o}" if vega else "") +
                                            f" won a tournament of {k} but only {lower} others are not fitter")]
    return []


# ---------------------------------------------------------------------------------------------------------------
# C15 structure

def o_mutation(run, lvl=None):
    e = eff(run.spec)
    lvl = e["lvl"] if lvl is None else lvl
    for st in run.steps:
        if st.kind != "mut" or st.exc is not None:
            continue
        gi = st.gen
        for what, a, b in (("the current generation", st.pre_pop, st.post_pop), ("the parents", st.pre_par, st.post_par)):
            if [ident(x) for x in a or ()] != [ident(x) for x in b or ()]:
                return [("touched-others", f"generation {gi}: mutation altered {what}")]
        if len(st.pre_chi) != len(st.post_chi):
            return [("offspring-count", f"generation {gi}: mutation changed the number of offspring")]
        for i, (a, b) in enumerate(zip(st.pre_chi, st.post_chi)):
            if len(a.g) != len(b.g):
                return [("length-changed", f"generation {gi}: mutation changed the length of offspring {i}")]
            if lvl == 0.0 and a.g != b.g:
                return [("level-zero-mutated", f"generation {gi}: level 0.0 changed offspring {i} from {a.g!r} to "
                                               f"{b.g!r}")]
            if lvl == 1.0:
                if e["mut"] in ("bin", "cat"):
                    for j, (x, y) in enumerate(zip(a.g, b.g)):
                        if e["mut"] == "cat":
                            vals = run.spec["gens"]["g"][j]
                            vals = vals["l"] if "l" in vals else list(range(vals["r"][0], vals["r"][1] + 1, vals["r"][2]))
                            if len(vals) < 2:
                                if x != y:
                                    return [("bad-change", f"generation {gi}: gene {j} with a single value changed")]
                                continue
                        if x == y:
                            return [("level-one-kept", f"generation {gi}: level 1.0 kept position {j} of offspring {i}: "
                                                       f"{a.g!r} -> {b.g!r}")]
                elif a.g == b.g:
                    return [("level-one-kept", f"generation {gi}: level 1.0 kept ordering {a.g!r}")]
            if e["mut"] in ("inv", "mov", "shift", "swap"):
                why = explain_order_mutation(e["mut"], a.g, b.g)
                if why:
                    return [("bad-change", f"generation {gi}: {why}: {a.g!r} -> {b.g!r}")]
    return []


def explain_order_mutation(t, a, b):
    if sorted(map(repr, a)) != sorted(map(repr, b)):
        return "elements changed"
    if a == b:
        return None
    n = len(a)
    if t == "swap":
        d = [i for i in range(n) if a[i] != b[i]]
        return None if len(d) == 2 else "not a swap of two elements"
    d = [i for i in range(n) if a[i] != b[i]]
    lo, hi = d[0], d[-1]
    x, y = a[lo:hi + 1], b[lo:hi + 1]
    if t == "inv":
        return None if x[::-1] == y else "not the reversal of one segment"
    if t == "mov":
        return None if (x[1:] + x[:1] == y or x[-1:] + x[:-1] == y) else "not the move of one element"
    # shift: a contiguous chain moved elsewhere == rotation of the differing window
    return None if any(x[i:] + x[:i] == y for i in range(1, len(x))) else "not the move of one chain"


# ---------------------------------------------------------------------------------------------------------------
# C16 structure

def explain_child(cx, p, q, c):
    """(None, feature) if child c is a recombination of p and q under cx, else (why, None)."""
    n = len(p)
    if len(c) != n:
        return "wrong length", None
    if cx in ("one", "two", "uni"):
        for j in range(n):
            if c[j] != p[j] and c[j] != q[j]:
                return f"position {j} has a gene of neither parent", None
    if cx == "uni":
        return None, None
    if cx == "one":
        for a, b, r in ((p, q, 1), (q, p, 2)):
            for k in range(1, n):
                if c == a[:k] + b[k:]:
                    return None, (r, k)
        return "not a one-point recombination", None
    if cx == "two":
        for a, b, r in ((p, q, 1), (q, p, 2)):
            for i in range(1, n):
                if c[i - 1] != a[i - 1]:
                    break
                for j in range(i + 1, n):
                    if c[j - 1] != b[j - 1]:
                        break
                    if c[j:] == a[j:]:
                        return None, (r, i, j)
        return "not a two-point recombination with an inner segment", None
    for a, b, r in ((p, q, 1), (q, p, 2)):
        for i in range(1, n):
            for j in range(i + 1, n):
                if c[j - 1] != a[j - 1]:
                    break
                seg = a[i:j]
                rest = [x for x in b if x not in seg]
                if c == rest[n - j:n - j + i] + seg + rest[:n - j]:
                    return None, (r, i, j)
    return "not an order recombination", None


def o_crossover(run):
    e = eff(run.spec)
    for st in run.steps:
        if st.kind != "cx" or st.exc is not None:
            continue
        gi = st.gen
        if [ident(x) for x in st.pre_par] != [ident(x) for x in st.post_par]:
            return [("parents-changed", f"generation {gi}: recombination altered the parents")]
        if [ident(x) for x in st.pre_pop] != [ident(x) for x in st.post_pop]:
            return [("population-changed", f"generation {gi}: recombination altered the current generation")]
        if len(st.post_chi) * 2 != len(st.pre_par):
            return [("offspring-count", f"generation {gi}: {len(st.post_chi)} offspring from {len(st.pre_par) / 2:g} "
                                        f"pairs")]
        for i, c in enumerate(st.post_chi):
            p, q = st.pre_par[2 * i].g, st.pre_par[2 * i + 1].g
            why, _ = explain_child(e["cx"], p, q, c.g)
            if why:
                return [("bad-offspring", f"generation {gi}: offspring {c.g!r} of {p!r} and {q!r}: {why}")]
            if c.score is not None or (e["binary"] and c.ph is not None) or c.obj not in (None, MISSING):
                return [("stale-offspring", f"generation {gi}: offspring {i} already has values {c.ph!r}, fitness "
                                            f"{c.score!r}, objective {c.obj!r}")]
    return []


# ---------------------------------------------------------------------------------------------------------------
# C17

def o_newgen(run):
    e = eff(run.spec)
    n = run.spec["n"]
    for st in run.steps:
        if st.kind != "ng" or st.exc is not None:
            continue
        gi = st.gen
        kids = [repr(s.g) for s in st.pre_chi]
        post = list(st.post_pop)
        if len({s.ident for s in post}) != len(post):
            return [("shared-individual", f"generation {gi}: one individual object appears twice in the new generation")]
        new = [s for s in post if s.score is None]
        old = [s for s in post if s.score is not None]
        if sorted(repr(s.g) for s in new) != sorted(kids):
            return [("offspring-lost", f"generation {gi}: {len(kids)} offspring created, {len(new)} unscored "
                                       f"individuals in the new generation, or their encodings differ")]
        pre = {}
        for s in st.pre_pop:
            pre.setdefault(ident(s) + (repr(s.ph), repr(s.feas)), []).append(s)
        for s in old:
            if ident(s) + (repr(s.ph), repr(s.feas)) not in pre:
                return [("foreign-survivor", f"generation {gi}: survivor {s.g!r} (fitness {s.score!r}) is not an "
                                             f"individual of the previous generation")]
        if e["ng"] == "multi":
            if e["tp"] == "best":
                want = sorted(ident(s) for s in st.pre_pop if s.rank == 1)
                got = sorted(ident(s) for s in old)
                if want != got:
                    return [("carried-over", f"generation {gi}: {len(got)} carried over, {len(want)} rank-one "
                                             f"individuals")]
            continue
        if len(post) != n + 1:
            return [("size", f"generation {gi}: new generation has {len(post)} individuals, expected {n} + 1")]
        k = n + 1 - len(kids)
        if e["single"]:
            best = max(s.score for s in st.pre_pop)
            if not any(s.score == best for s in old):
                return [("best-dropped", f"generation {gi}: best individual (fitness {best!r}) not carried over")]
            if e["tp"] == "best":
                sc = sorted((s.score for s in st.pre_pop), reverse=True)
                thr = sc[k - 1]
                top = [s for s in st.pre_pop if s.score > thr]
                border = [s for s in st.pre_pop if s.score == thr]
                oldg = {repr(s.g) for s in old}
                if any(repr(s.g) not in oldg for s in top):
                    return [("fit-dropped", f"generation {gi}: an individual fitter than the {k}-th was not carried over")]
                # without duplicates in any admissible top-k the survivors are exactly a top-k
                pool = [repr(s.g) for s in top + border]
                if len(set(pool)) == len(pool):
                    if sorted((s.score for s in old), reverse=True) != sc[:k]:
                        return [("not-fittest", f"generation {gi}: carried-over fitness "
                                                f"{sorted((s.score for s in old), reverse=True)!r}, fittest are {sc[:k]!r}")]
            else:
                cnt = {}
                for s in old:
                    key = ident(s) + (repr(s.ph), repr(s.feas))
                    cnt[key] = cnt.get(key, 0) + 1
                for key, c in cnt.items():
                    if c > len(pre[key]):
                        return [("carried-twice", f"generation {gi}: individual {pre[key][0].g!r} carried over {c} "
                                                  f"times, present {len(pre[key])} times")]
        else:
            best = max(s.score[0] for s in st.pre_pop)
            if not any(s.score[0] == best for s in old):
                return [("best-dropped", f"generation {gi}: no individual with the best first-objective fitness "
                                         f"{best!r} carried over")]
    return []


# ---------------------------------------------------------------------------------------------------------------
# C18

def o_input(run):
    e = eff(run.spec)
    spec = run.spec
    inp = spec.get("inpop")
    out = []
    if run.args.inpop != inp:
        out.append(("caller-list-altered", f"supplied starting population changed to {run.args.inpop!r}"))
    if not inp:
        return out
    n = spec["n"]
    for gi, g in enumerate(run.gens):
        if g.aliased is not None:
            out.append(("supplied-list-shared", f"generation {gi} holds the caller's own list {g.aliased!r} instead "
                                                f"of a copy"))
            break
    first = [c for c, _ in run.obj.calls[:run.gens[0].ncalls]] if run.gens else [c for c, _ in run.obj.calls[:n]]
    if e["single"] and len(first) != n:
        out.append(("first-size", f"first generation has {len(first)} evaluated individuals instead of {n}"))
    if run.gens and len(run.gens[0].pop) != n:
        out.append(("first-size", f"first generation has {len(run.gens[0].pop)} individuals instead of {n}"))
    pool = list(first) if e["single"] else [tuple(s.ph) for s in run.gens[0].pop]
    enc = []
    for ind in inp:
        hit = None
        for c in pool:
            if e["binary"]:
                ok = len(c) == len(ind)
                for v, x, gene in zip(c, ind, spec["gens"]["g"]):
                    real = (gene[1] - gene[0]) / (2 ** bits_of(gene) - 1)
                    ok = ok and abs(v - x) <= real * 0.5 * (1 + 1e-6) + 1e-9 * max(1, abs(x))
            else:
                ok = list(c) == list(ind)
            if ok:
                hit = c
                break
        if hit is None:
            out.append(("missing-individual", f"supplied individual {ind!r} is not in the first generation"))
            return out
        pool.remove(hit)
        enc.append(hit)
    if e["single"] and run.status == "ok" and not conditional(spec) and not spec["obj"].get("noisy"):
        b = max(ref_fitness(spec, e, objective.returned(spec["obj"], c)) for c in enc)
        got = run.data.best_solution["score"]
        if got < b and not feq(got, b):
            out.append(("worse-than-supplied", f"best reported fitness {got!r}, a supplied individual has {b!r}"))
    return out
