"""Swarm-style scenario generation.  `rng` is the only source of choice (a real Mersenne Twister)."""
import copy

from . import model

BIN_GENES = [(0, 1, 1), (0, 3, 1), (0, 7, 1), (-5, 5, 0.5), (-16, 16, 0.01), (0, 1, 0.3), (-1, 1, 0.1), (2, 9, 1),
             (0.00001, 100, 0.01), (-7, -1, 2), (0, 0.7, 0.1), (10, 11, 0.25), (-3, 4, 1), (0, 255, 1), (1, 3, 0.01),
             (0, 2, 1), (0, 10, 3), (-0.3, 0.6, 0.1), (0, 5, 5), (-100, 100, 200), (1000000, 1000007, 1)]
MIX = [None, 0.5, -2.5, "0", 7, "None", False, "a b", 12.25, -11]
CATS = ["a", "b", "c", "d", "e", "zz", "x1", "Q", "long value", ""]


BIG_GENES = [(0, 2 ** 20 - 1, 1), (-1000, 1000, 0.001), (0, 1e6, 0.5), (-1e-3, 1e-3, 1e-6), (5, 1e9, 1),
             (0, 2 ** 29 - 1, 1), (-2 ** 30, 2 ** 30 - 1, 1), (0, 2 ** 39 - 1, 1)]


def bin_gens(rng, minbits=2, maxgenes=4, big=False):
    if big:
        g = [rng.choice(BIG_GENES)] + [rng.choice(BIG_GENES if rng.random() < 0.3 else BIN_GENES)
                                       for _ in range(rng.choice([rng.randint(1, 9), rng.randint(1, 9), 26]))]
        rng.shuffle(g)
        return {"k": "bin", "g": [list(x) for x in g], "as": rng.choice(["tuple", "list"])}
    while True:
        g = [rng.choice(BIN_GENES) for _ in range(rng.randint(1, maxgenes))]
        if rng.random() < 0.3:
            lo = rng.choice([-50, -2.5, 0, 0.1, 3, 1e6])
            width = rng.choice([1, 2.5, 0.9, 13, 31, 64])
            g[0] = (lo, lo + width, width / rng.choice([1, 1.5, 2, 3, 3.7, 7, 15, 16, 100]))
        s = {"k": "bin", "g": [list(x) for x in g], "as": rng.choice(["tuple", "list"])}
        if sum(model.bits_of(x) for x in g) >= minbits and all(model.bits_of(x) for x in g):
            return s


def cat_gens(rng, mingenes=2, maxgenes=6, big=False):
    out = []
    if big:
        for _ in range(rng.choice([rng.randint(5, 14), rng.randint(5, 14), 40])):
            k = rng.choice([2, 11, 30])
            out.append({"l": [f"v{j}" for j in range(k)]} if rng.random() < 0.5 else {"r": [-k, k, rng.choice([1, 2, 7])]})
        return {"k": "cat", "g": out, "as": rng.choice(["list", "tuple"])}
    for _ in range(rng.randint(mingenes, max(mingenes, maxgenes))):
        if rng.random() < 0.6:
            k = rng.choice([1, 2, 2, 3, 4, 5])
            r = rng.random()
            vals = rng.sample(MIX if r < 0.15 else CATS if r < 0.75 else range(-5, 20), k)
            out.append({"l": list(vals)})
        else:
            lo = rng.randint(-4, 5)
            st = rng.choice([1, 1, 2, 3])
            out.append({"r": [lo, lo + rng.choice([0, 1, 2, 5, 9]), st]})
    g = {"k": "cat", "g": out, "as": rng.choice(["list", "list", "tuple"])}
    if rng.random() < 0.12:
        j = rng.randrange(len(out))
        for k in range(rng.randrange(2), len(out)):
            out[k] = copy.deepcopy(out[j])
        g["alias"] = True
    return g


def ord_gens(rng, minlen=3, big=False):
    ln = rng.randint(minlen, 8) if not big else rng.choice([rng.randint(9, 30), rng.randint(31, 120)])
    lo = rng.choice([0, 0, 1, -3, 10])
    return {"k": "ord", "g": [lo, lo + ln - 1 + rng.choice([0, 0, 0, 1, 4]), ln]}


def cat_values(gene):
    return list(gene["l"]) if "l" in gene else list(range(gene["r"][0], gene["r"][1] + 1, gene["r"][2]))


def rand_individ(rng, pop, gens):
    if pop in ("binary", "gray"):
        out = []
        for lo, hi, step in gens["g"]:
            r = rng.random()
            out.append(lo if r < 0.2 else hi if r < 0.4 else lo + (hi - lo) * rng.random())
        return out
    if pop == "cat":
        return [rng.choice(cat_values(g)) for g in gens["g"]]
    lo, hi, ln = gens["g"]
    return rng.sample(range(lo, hi + 1), ln)


def inpop(rng, pop, gens, n, prob=0.25, full=False):
    if rng.random() >= prob:
        return None
    k = n if full else rng.choice([1, max(1, n // 2), n])
    rows = [rand_individ(rng, pop, gens) for _ in range(k)]
    r = rng.random()
    if r < 0.15:        # the same individual several times
        few = rows[:rng.choice([1, 1, 2, 3])]
        rows = [list(rng.choice(few)) for _ in rows]
    elif r < 0.25 and pop == "order":       # elements the declared range does not have
        for row in rows[:rng.choice([1, k])]:
            row[rng.randrange(len(row))] = gens["g"][1] + rng.choice([1, 40])
    return rows


def stream(rng, bias=None):
    p = rng.choice([0.0, 0.02, 0.1, 0.3]) if bias is None else bias
    return {"s": rng.getrandbits(40), "p": p, "salt": rng.getrandbits(20)}


FAMS_NUM = ["near", "tinyval", "bigint", "infs", "hash", "signed", "plateau", "ints", "unit", "wide", "sphere", "linear", "neglin", "sphere"]
FAMS_ANY = ["near", "tinyval", "bigint", "infs", "hash", "signed", "plateau", "ints", "unit", "wide", "order", "linear", "sphere"]
FAMS_HARD = ["const", "huge", "needle", "wide"]


def objective(rng, binary, hard=False):
    fam = rng.choice(FAMS_NUM if binary else FAMS_ANY)
    if hard and rng.random() < 0.4:
        fam = rng.choice(FAMS_HARD)
    s = {"fam": fam, "salt": rng.randrange(1000)}
    if fam == "const":
        s["c"] = rng.choice([0, 0, 1, -1, 5.5])
    returns(rng, s)
    return s


def returns(rng, s):
    """In what form the values come back."""
    r = rng.random()
    if r < 0.08:
        s["ret"] = "buffer"
    elif r < 0.5:
        s["ret"] = "list"
    elif r < 0.55:
        s["sub"] = True


def obj_value(rng):
    return rng.choice([None, None, None, 0, 0, 1, -3, 2.5, 1000])


def constraints(rng, m=1):
    """Condition list with m 'optimize' entries in random places."""
    ncon = rng.choice([1, 1, 1, 2, 2, 3, 3, 5])
    conds = ["optimize"] * m
    for j in range(ncon):
        op = rng.choice(["<=", "<=", "!="])
        fam = rng.choice(["tri", "mostly0", "border", "lin", "feas", "tiny"])
        conds.insert(rng.randint(0, len(conds)), {"op": op, "fam": fam, "salt": rng.randrange(1000),
                                                  "mag": rng.choice([1, 0.5, 2, 10])})
    return conds


def penalty(rng, conds, kinds=("dyn", "ada", "static")):
    t = rng.choice(list(kinds))
    if rng.random() < 0.12:
        return {"t": "own", "base": rng.choice([0, 0, 5]), "k": rng.choice([1, 0.5, 30])}
    if t == "dyn":
        p = {"t": "dyn"}
        if rng.random() < 0.5:
            p.update(delta=rng.choice([1, 0.5, 3]), c=rng.choice([0.5, 1, 2]), alpha=rng.choice([1, 2, 1.5]),
                     betta=rng.choice([1, 2, 3]))
        return p
    if t == "ada":
        p = {"t": "ada"}
        if rng.random() < 0.5:
            p.update(delta=rng.choice([1, 0.5, 3]), betta_1=rng.choice([1.1, 2]), betta_2=rng.choice([1.2, 3]),
                     betta=rng.choice([1, 2, 3]))
        return p
    p = {"t": "static", "ei": {}, "ec": {}, "ii": {}, "ic": {}}
    j = 0
    for c in conds:
        if c == "optimize":
            continue
        cuts = sorted(rng.sample([0.25, 0.6, 1.2, 1.7, 4, 15], rng.choice([0, 1, 2, 3])))
        pts = [0] + cuts
        iv = [[a, b] for a, b in zip(pts, cuts + [None])]
        co = [rng.choice([1, 2, 5, 50, 100]) for _ in iv]
        if rng.random() < 0.2:
            rng.shuffle(iv)     # the table need not be sorted
        a, b = ("ei", "ec") if c["op"] == "!=" else ("ii", "ic")
        p[a][str(j)], p[b][str(j)] = iv, co
        j += 1
    return p


def child_pct(rng, n, m=1):
    for _ in range(50):
        cp = rng.choice([None, None, 1.0, 0.5, 0.3, 0.9, 0.75, round(rng.uniform(0.1, 1.0), 3)])
        if int((0.95 if cp is None else cp) * n / m) >= 1:
            return cp
    return 1.0


def level(rng, mut):
    r = rng.random()
    if r < 0.25:
        return None
    if r < 0.5:
        return rng.choice(["weak", "normal", "strong"])
    return rng.choice([0.0, 1.0, 0.35, 0.05, round(rng.random(), 3)])


def early(rng):
    return rng.choice(["default", None, None, 0, 1, 2, 3, 5])


def single(rng, kinds=("api", "collector", "steps"), pops=("binary", "gray", "cat", "order"), hard=False,
           cond=0.15, sels=("tour", "bal", "rank"), maxn=16, maxgen=12, inpop_p=0.25, bias=None, minn=4,
           penalties=("dyn", "ada", "static"), inputs=0.2, big=0.04, extreme=None, nocon=0.03):
    """A single-objective client."""
    extreme = bool(big) if extreme is None else extreme
    big = rng.random() < big
    if big:
        minn, maxn, maxgen = minn, rng.choice([16, 32, 64, 110]), rng.choice([maxgen, 20, 45])
    kind = rng.choice(list(kinds))
    pop = rng.choice(list(pops))
    n = rng.randint(minn, maxn)
    s = {"kind": kind, "n": n, "ngen": rng.choice([1, 2, 3, rng.randint(2, maxgen), maxgen]), "early": early(rng),
         "cp": child_pct(rng, n)}
    if not big and extreme:
        r = rng.random()
        if r < 0.012:       # long
            s["n"] = n = rng.randint(minn, max(minn, 8))
            s["ngen"], s["early"] = rng.choice([55, 110, 210]), rng.choice([None, None, "default", 20, 50])
            s["cp"] = child_pct(rng, n)
        elif r < 0.02:      # crowded
            s["n"] = n = rng.randint(120, 330)
            s["ngen"] = rng.choice([1, 2, 2, 3])
            s["cp"] = child_pct(rng, n)
            big = rng.random() < 0.3
    if kind == "api":
        s["algo"] = {"binary": "binary", "gray": "binary", "cat": "cat", "order": "comb"}[pop]
        if pop == "gray":
            s["gray"] = True
        s["gens"] = gens_for(rng, pop, "one" if pop in ("binary", "gray") else None, big)
        s["tsize"] = rng.choice([None, 2, 3, rng.randint(2, n - 1 if n <= 20 else n // 2 if n <= 60 else 30)])
        if s["tsize"] is None and n <= 3:
            s["tsize"] = 2
        s["lvl"] = level(rng, None)
        s["tp"] = rng.choice([None, "best", "random"])
        s["is_print"] = rng.choice([None, True, False, False])
    else:
        s["pop"], s["fit"] = pop, "hyper"
        t = rng.choice(list(sels))
        s["sel"] = {"t": t}
        if t == "tour":
            s["sel"]["k"] = rng.choice([None if n > 3 else 2, 2, rng.randint(2, n - 1 if n <= 20 else n // 2 if n <= 60 else 30)])
        s["cx"] = "ord" if pop == "order" else rng.choice(["one", "two", "uni"])
        s["mut"] = {"t": {"binary": "bin", "gray": "bin", "cat": "cat"}.get(pop) or
                    rng.choice(["inv", "mov", "shift", "swap"]), "lvl": level(rng, None)}
        s["ng"] = {"t": "new", "tp": rng.choice([None, "best", "random", "random"])}
        s["gens"] = gens_for(rng, pop, s["cx"], big)
    s["obj"] = objective(rng, pop in ("binary", "gray"), hard)
    s["obj_value"] = obj_value(rng)
    if s["obj"]["fam"] in ("near", "bigint") and rng.random() < 0.4:        # a target close to every value
        s["obj_value"] = {"near": 5.0 + 2.0 ** -43, "bigint": 10 ** 17 + 3}[s["obj"]["fam"]]
    if rng.random() < cond:
        conds = constraints(rng)
        s["obj"]["conds"] = conds
        s["penalty"] = penalty(rng, conds, penalties)
    elif cond and rng.random() < nocon:      # a penalty and nothing to penalise
        s["penalty"] = penalty(rng, [], penalties)
        if rng.random() < 0.5:
            s["obj"]["conds"] = ["optimize"]
    s["inpop"] = inpop(rng, pop, s["gens"], n, inpop_p)
    if rng.random() < inputs:
        s["input"] = rng.choice(sorted(model.INPUTS))
    s["stream"] = stream(rng, bias)
    return s


def gens_for(rng, pop, cx, big=False):
    if pop in ("binary", "gray"):
        return bin_gens(rng, 3 if cx == "two" else 2, big=big)
    if pop == "cat":
        return cat_gens(rng, {"one": 2, "two": 3}.get(cx, 1), big=big)
    return ord_gens(rng, big=big)


FAMS_MULTI = ["near", "tinyval", "bigint", "infs", "hash", "coarse", "coarse", "plateau", "signed", "sphere", "linear", "ints", "const"]


def multi(rng, kinds=("api", "collector", "steps"), algos=("vega", "ffga"), cond=0.0, maxn=12, maxgen=6, bias=None,
          sels=None, tps=(None, "best", "random"), inputs=0.15, inpop_p=0.15, penalties=("dyn", "static"),
          big=0.02, objectives=None, nocon=0.03):
    extreme = bool(big)
    big = rng.random() < big
    if big:
        maxn, maxgen = rng.choice([16, 24, 32]), rng.choice([maxgen, 8, 12])
    kind = rng.choice(list(kinds))
    algo = rng.choice(list(algos))
    pop = rng.choice(["binary", "gray"])
    m = rng.choice([1, 2, 2, 2, 3, 4]) if algo == "ffga" else rng.choice([1, 2, 2, 2, 3])
    if rng.random() < (0.4 if big else 0.03):
        m = rng.choice([4, 5, 7])
    m = objectives or m
    n = rng.randint(max(4, m + 1), max(maxn, m + 2))
    s = {"kind": kind, "n": n, "ngen": rng.choice([1, 2, 3, rng.randint(2, maxgen), maxgen]), "early": early(rng)}
    r = 1.0 if big or not extreme else rng.random()
    if r < 0.01:        # crowded
        s["n"] = n = rng.choice([rng.randint(33, 55), rng.randint(56, 80)])
        s["ngen"] = rng.choice([1, 2, 2])
    elif r < 0.03:      # long
        s["n"] = n = rng.randint(max(4, m + 1), max(6, m + 1))
        s["ngen"], s["early"] = rng.choice([35, 55, 110]) if algo == "vega" else rng.choice([15, 25]), \
            rng.choice([None, None, "default", 12, 20, 50])
    if big and algo == "ffga":
        s["ngen"] = min(s["ngen"], 8)       # its population grows
    s["cp"] = child_pct(rng, n, m if algo == "vega" else 1)
    s["gens"] = bin_gens(rng, 3, 3, big)
    obj = {"fam": rng.choice(FAMS_MULTI), "salt": rng.randrange(1000), "m": m, "multi": True,
           "shape": rng.choice(["indep", "indep", "indep", "conflict", "chain"])}
    returns(rng, obj)
    s["obj"] = obj
    tp = rng.choice(list(tps))
    if kind == "api":
        s["algo"] = algo
        s["gray"] = pop == "gray"
        s["tsize"] = rng.choice([None, 2, rng.randint(2, n - 1 if n <= 20 else n // 2 if n <= 60 else 30)])
        s["lvl"] = level(rng, None)
        s["tp"] = tp
        s["is_print"] = rng.choice([None, True, False, False])
    else:
        s["pop"], s["fit"] = pop, algo
        t = rng.choice(list(sels or (("vtour", "vbal", "vrank") if algo == "vega" else ("tour", "bal", "rank"))))
        s["sel"] = {"t": t}
        if t in ("tour", "vtour"):
            s["sel"]["k"] = rng.choice([None, 2, rng.randint(2, n - 1 if n <= 20 else n // 2 if n <= 60 else 30)])
        s["cx"] = rng.choice(["one", "two", "uni"])
        s["mut"] = {"t": "bin", "lvl": level(rng, None)}
        s["ng"] = {"t": "multi" if algo == "ffga" else "new", "tp": tp}
    s["obj_value"] = None
    if algo == "vega" and rng.random() < 0.4:
        s["obj_value"] = [rng.choice([0, 1, -2.5]) for _ in range(m)]
    if rng.random() < cond:
        obj["conds"] = constraints(rng, m)
        s["penalty"] = penalty(rng, obj["conds"], penalties)
    elif cond and rng.random() < nocon:
        obj["conds"] = ["optimize"] * m
        s["penalty"] = penalty(rng, obj["conds"], penalties)
    s["inpop"] = inpop(rng, pop, s["gens"], n, inpop_p)
    if rng.random() < inputs:
        s["input"] = rng.choice(sorted(model.INPUTS))
    s["stream"] = stream(rng, bias)
    return s


def child_ok(s):
    """Does the default child percentage give at least one pair (per objective)?"""
    m = s["obj"].get("m", 1) if (s.get("algo") == "vega" or s.get("fit") == "vega") else 1
    cp = 0.95 if s.get("cp") is None else s["cp"]
    return int(cp * s["n"] / m) >= 1
