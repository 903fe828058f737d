"""Objective functions as data: pure functions of (spec, candidate), usable as stub and as reference."""
import json
import zlib


def key(cand):
    return repr(tuple(cand)).encode()


def h32(cand, salt):
    return zlib.crc32(key(cand) + str(salt).encode())


def num(v):
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, (int, float)):
        return v
    return zlib.crc32(repr(v).encode()) % 7


def one(spec, cand, salt=0):
    """One value of the candidate under family spec['fam']."""
    fam = spec["fam"]
    salt = spec.get("salt", 0) * 31 + salt
    if fam == "const":
        return spec.get("c", 0)
    if fam == "hash":
        return h32(cand, salt) / 65536.0
    if fam == "signed":
        return (h32(cand, salt) / 4294967296.0 - 0.5) * 200.0
    if fam == "plateau":
        return h32(cand, salt) % 3
    if fam == "coarse":
        return h32(cand, salt) % 5
    if fam == "near":
        return 5.0 + (h32(cand, salt) % 6) * 2.0 ** -44
    if fam == "bigint":
        return 10 ** 17 + h32(cand, salt) % 9
    if fam == "infs":
        h = h32(cand, salt)
        return float("inf") if h % 4 == 0 else (h >> 8) % 50 / 2
    if fam == "ints":
        return h32(cand, salt) % 1000 - 500
    if fam == "unit":
        return (h32(cand, salt) % 3) - 1
    if fam == "tinyval":
        return (h32(cand, salt) % 50 - 5) * 1e-12
    if fam == "wide":
        return 10.0 ** (h32(cand, salt) % 40 - 10)
    if fam == "huge":
        return 10.0 ** (h32(cand, salt) % 290)
    if fam == "needle":
        return 0.0 if h32(cand, salt) % 17 == 0 else 1e25
    if fam == "sphere":
        return float(sum((num(v) - (salt % 5)) ** 2 for v in cand))
    if fam == "linear":
        return float(sum((((salt + 3 * i) % 7) - 3) * num(v) for i, v in enumerate(cand)))
    if fam == "neglin":
        return -float(sum((((salt + 3 * i) % 5) + 1) * num(v) for i, v in enumerate(cand)))
    if fam == "order":
        return float(sum(abs(num(v) - i - salt % 3) for i, v in enumerate(cand)))
    raise ValueError(fam)


def con_value(c, cand, j):
    """Value of constraint c = {"op", "fam", "salt", "thr"}; many exact zeros so that equality can be met."""
    f = c["fam"]
    if f == "tri":
        return (h32(cand, c["salt"]) % 3 - 1) * c["mag"]
    if f == "mostly0":
        return 0 if h32(cand, c["salt"]) % 3 else c["mag"]
    if f == "border":
        return (-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0)[h32(cand, c["salt"]) % 7] * c["mag"]
    if f == "tiny":
        return (0, 1e-13, -1e-13, 1e-7, -0.25, 0.0)[h32(cand, c["salt"]) % 6] * c["mag"]
    if f == "lin":
        return float(sum(num(v) for v in cand)) - c["mag"]
    if f == "feas":
        return -c["mag"] if c["op"] == "<=" else 0
    raise ValueError(f)


def returned(spec, cand):
    """What the objective returns for the candidate."""
    conds = spec.get("conds")
    m = spec.get("m", 1)
    if conds is None:
        if m == 1 and not spec.get("multi"):
            return one(spec, cand)
        return [vec(spec, cand, i) for i in range(m)]
    out = []
    i = j = 0
    for c in conds:
        if c == "optimize":
            out.append(one(spec, cand) if not spec.get("multi") else vec(spec, cand, i))
            i += 1
        else:
            out.append(con_value(c, cand, j))
            j += 1
    return out


def vec(spec, cand, i):
    """i-th objective of a multi-objective task."""
    shape = spec.get("shape", "indep")
    if shape == "conflict":
        base = one(spec, cand)
        return base if i % 2 == 0 else -base
    if shape == "chain":
        return one(spec, cand) + i
    return one(spec, cand, i)


def op_list(spec):
    conds = spec.get("conds")
    if conds is None:
        return None
    return [c if c == "optimize" else c["op"] for c in conds]


def dumps(spec):
    return json.dumps(spec, sort_keys=True)


def malformed(spec, cand, how):
    """A result of the wrong shape."""
    v = returned(spec, cand)
    seq = list(v) if isinstance(v, list) else [v]
    if how == "none":
        return None
    if how == "scalar":
        return seq[0]
    if how == "empty":
        return []
    if how == "missing":
        seq = seq[:-1]
    elif how == "twice":
        seq = seq + seq
    elif how == "pair":
        seq = [seq[0], seq[0]]
    else:
        seq = seq + [0.0]
    return tuple(seq) if spec.get("ret", "tuple") == "tuple" else seq
