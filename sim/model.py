"""From scenario data to live objects of the package under test, and runs of them."""
import copy
import random as _r
import sys
import zlib
from collections import namedtuple

from . import objective
from .seam import CTX, SimHang

class UserError(Exception):
    """An exception of the caller that cannot be rebuilt from its text."""

    def __init__(self, msg, code=7, *more):
        super().__init__(msg)
        self.code = code


class UserInterrupt(BaseException):
    pass


EXCS = {"ValueError": ValueError, "RuntimeError": RuntimeError, "ZeroDivisionError": ZeroDivisionError,
        "TypeError": TypeError, "AttributeError": AttributeError, "KeyError": KeyError, "IndexError": IndexError,
        "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration,
        "OSError": OSError, "Exception": Exception, "ArithmeticError": ArithmeticError,
        "TimeoutError": TimeoutError, "SystemExit": SystemExit, "AssertionError": AssertionError,
        "OverflowError": OverflowError, "RecursionError": RecursionError, "EOFError": EOFError,
        "ConnectionError": ConnectionError, "ConnectionResetError": ConnectionResetError,
        "BrokenPipeError": BrokenPipeError, "PermissionError": PermissionError, "FileNotFoundError": FileNotFoundError,
        "InterruptedError": InterruptedError, "BlockingIOError": BlockingIOError, "ChildProcessError": ChildProcessError,
        "LookupError": LookupError, "NameError": NameError, "FloatingPointError": FloatingPointError,
        "BufferError": BufferError, "ImportError": ImportError, "GeneratorExit": GeneratorExit, "UserWarning": UserWarning,
        "UnicodeError": UnicodeError, "SyntaxError": SyntaxError, "StopAsyncIteration": StopAsyncIteration,
        "NotImplementedError": NotImplementedError, "UserError": UserError, "UserInterrupt": UserInterrupt}



class FloatSub(float):
    """A number as numeric libraries return it: a float, but not of type float."""


class IntSub(int):
    pass


def number(v):
    return IntSub(v) if isinstance(v, int) else FloatSub(v)


S = namedtuple("S", "g ph score obj feas rank ident")
MISSING = "<missing>"


def cp_(v):
    return list(v) if isinstance(v, list) else v


def snap(ind):
    get = ind.get
    return S(cp_(get("genotype", MISSING)), cp_(get("phenotype", MISSING)), cp_(get("score", MISSING)),
             cp_(get("obj_score", MISSING)), get("feasible", MISSING), cp_(get("rank", MISSING)), id(ind))


def snaps(pop):
    return [snap(i) for i in pop]


# ---------------------------------------------------------------------------------------------------------------
# canonical form and digest of run data

def canon(v):
    if isinstance(v, bool) or v is None:
        return repr(v)
    if isinstance(v, float):
        return v.hex()
    if isinstance(v, int):
        return repr(v)
    if isinstance(v, str):
        return "s" + v
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(f"{k}:{canon(x)}" for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))) + "}"
    return repr(v)


KEYS = ("genotype", "phenotype", "score", "obj_score", "feasible", "rank")


def canon_ind(i):
    return "(" + ";".join(canon(i.get(k, MISSING)) for k in KEYS) + ")"


def canon_hist(h):
    out = []
    for e in h or []:
        out.append("[" + ",".join(canon_ind(i) for i in e) + "]" if isinstance(e, list) else canon(e))
    return "|".join(out)


def canon_best(b):
    if b is None:
        return "None"
    if "pareto_set" in b:
        return f"{canon(b.get('idx_generation'))}:" + ",".join(canon_ind(i) for i in b["pareto_set"])
    return f"{canon(b.get('idx_generation'))}:" + canon_ind(b)


def canon_full(v):
    """Everything inside a recorded entry, whatever it is called."""
    if isinstance(v, dict):
        return "{" + ",".join(f"{k}={canon_full(v[k])}" for k in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)) and any(isinstance(x, dict) for x in v):
        return "[" + ",".join(canon_full(x) for x in v) + "]"
    return canon(v)


def canon_data(d):
    if d is None:
        return "None"
    return "\n".join([
        "gen %s noimp %s" % (canon(d.idx_generation), canon(d.num_generation_no_improve)),
        "pop " + ",".join(canon_ind(i) for i in (d.population or [])),
        "hb " + canon_hist(d.historical_best), "hm " + canon_hist(d.historical_mediocre),
        "hw " + canon_hist(d.historical_worst), "best " + canon_best(d.best_solution)])


def digest(text):
    b = text.encode()
    return "%08x%08x" % (zlib.crc32(b), zlib.adler32(b))


# ---------------------------------------------------------------------------------------------------------------
# objective stub

class Obj:
    """The objective function: foreign code from the library's point of view.  Pure unless `noisy`."""

    def __init__(self, spec, input_data=None, has_input=False, faults=(), exc="ValueError", client=None):
        self.spec = spec
        self.input_data = input_data
        self.has_input = has_input
        self.faults = frozenset(faults)
        self.exc = EXCS[exc]
        self.calls = []          # (tuple(candidate), returned)
        self.types = set()
        self.bad_args = []
        self.attempts = 0
        self.raised = []
        self.after_raise = 0     # calls attempted between a raise and the exception reaching the caller
        self.pending = False
        self.client = client
        self.cache = {}
        self.buf = []
        self.bad = {}            # evaluation number -> kind of malformed result
        self.badn = 0
        self.__name__ = "objective"

    def __call__(self, *args):
        c = self.client or CTX.cur()
        if c.sched is not None:
            c.sched.point()
        if self.pending:
            self.after_raise += 1
        self.attempts += 1
        CTX.clock += 7 * CTX.clock_step      # an evaluation takes time
        want = 2 if self.has_input else 1
        if len(args) != want:
            self.bad_args.append(f"objective called with {len(args)} arguments instead of {want}")
            raise TypeError(f"objective takes {want} positional arguments but {len(args)} were given")
        elif self.has_input and args[0] is not self.input_data:
            self.bad_args.append("first argument is not the supplied input data object")
        cand = args[-1]
        self.types.add(type(cand).__name__)
        if self.attempts in self.faults:
            e = self.exc(f"injected failure at evaluation {self.attempts}")
            self.raised.append(e)
            self.pending = True
            raise e
        tup = tuple(cand)
        if self.attempts in self.bad:
            self.badn += 1
            self.pending = True
            return objective.malformed(self.spec, tup, self.bad[self.attempts])
        if self.spec.get("multi"):      # ranking asks again and again
            key = (tup, tuple(map(type, tup)))      # 1 and 1.0 are different candidates
            ret = self.cache.get(key)
            if ret is None:
                ret = self.cache[key] = objective.returned(self.spec, tup)
            ret = list(ret)
        else:
            ret = objective.returned(self.spec, tup)
        if self.spec.get("sub"):
            ret = [number(v) for v in ret] if isinstance(ret, list) else number(ret)
        if self.spec.get("noisy"):
            ret = ret + (self.attempts * 2654435761 % 97)
        self.calls.append((tup, list(ret) if isinstance(ret, list) else ret))
        if isinstance(ret, list):
            if self.spec.get("ret") == "buffer":        # one list, filled again for every candidate
                self.buf[:] = ret
                return self.buf
            return tuple(ret) if self.spec.get("ret", "tuple") == "tuple" else ret
        if self.spec.get("wrap"):
            return [ret] if self.spec["wrap"] == "list" else (ret,)
        return ret


# ---------------------------------------------------------------------------------------------------------------
# arguments

def mk_gens(g):
    if g["k"] == "bin":
        if g.get("as") == "list":
            return [list(x) for x in g["g"]]
        return tuple(tuple(x) for x in g["g"])
    if g["k"] == "cat":
        out = [list(x["l"]) if "l" in x else tuple(x["r"]) for x in g["g"]]
        if g.get("alias"):      # equal declarations are one object, as in [values] * 5
            out = [next(o for o in out if o == x) for x in out]
        return tuple(out) if g.get("as") == "tuple" else out
    return tuple(g["g"])


INPUTS = {"dict": lambda: {"w": 2}, "zero": lambda: 0, "empty": lambda: [], "false": lambda: False,
          "str": lambda: "", "list": lambda: [1, 2], "float0": lambda: 0.0, "emptydict": lambda: {}}


def mk_tables(p):
    """The caller's interval and coefficient tables of a static penalty."""
    if p is None or p["t"] != "static":
        return None

    def iv(d):
        return {int(k): [(a, float("inf") if b is None else b) for a, b in v] for k, v in d.items()}

    def co(d):
        return {int(k): list(v) for k, v in d.items()}
    return {"equality_intervals": iv(p["ei"]), "equality_r_coef": co(p["ec"]), "inequality_intervals": iv(p["ii"]),
            "inequality_r_coef": co(p["ic"])}


def own_penalty(base):
    """A penalty class written by the user: a fixed part and a multiple of the violations, nothing for feasible ones."""
    class OwnPenalty(base):
        def __init__(self, base=0, k=1):
            super().__init__(power=1)
            self.base, self.k = base, k

        def get_sum_conditional_func(self, conditionals, values):
            for c, v in zip(conditionals, values):
                self.sum_conditional += abs(v) if c == "!=" else max(0, v)

        def execute(self, conditionals, values):
            super().execute(conditionals, values)
            self.penalty = self.base * (self.sum_conditional > 0) + self.k * self.sum_conditional
            return self.penalty

    return OwnPenalty


def mk_penalty(p, args=None):
    if p is None:
        return None
    import baumeva.ga as g
    kw = {k: v for k, v in p.items() if k != "t"}
    if p["t"] == "dyn":
        return g.DynamicPenalty(**kw)
    if p["t"] == "ada":
        return g.AdaptivePenalty(**kw)
    if p["t"] == "own":
        return own_penalty(g.BasePenalty)(**kw)
    own = args is not None and args.tables is not None and args.tables_of == p
    return g.StaticPenalty(**(args.tables if own else mk_tables(p)))


def twin(v):
    """An equal value, where possible another object (as after reading the starting individuals from a file)."""
    if type(v) is str:
        return "".join(list(v))
    if type(v) is float:
        return float.fromhex(v.hex())
    return int(str(v)) if type(v) is int else v


class Args:
    """The caller's argument objects of one run (possibly shared between runs)."""

    def __init__(self, spec):
        self.gens = mk_gens(spec["gens"])
        self.conditions = objective.op_list(spec["obj"])
        self.inpop = [[twin(v) for v in row] for row in spec["inpop"]] if spec.get("inpop") else spec.get("inpop")
        if self.inpop and len(self.inpop) % 2:      # equal rows are one list object
            one = {}
            self.inpop = [one.setdefault(canon(row), row) for row in self.inpop]
        k = spec.get("input")
        self.has_input = k is not None
        self.input_data = INPUTS[k]() if k is not None else None
        self.obj_value = copy.deepcopy(spec.get("obj_value"))
        self.tables_of = copy.deepcopy(spec.get("penalty"))
        self.tables = mk_tables(spec.get("penalty"))

    def fingerprint(self):
        return {"gens": canon(self.gens) + type(self.gens).__name__, "conditions": canon(self.conditions),
                "starting population": canon(self.inpop), "input data": canon(self.input_data),
                "target value": canon(self.obj_value), "penalty tables": canon(self.tables)}


def mk_component(kind, spec, obj, args):
    import baumeva.ga as g
    if kind == "fit":
        cls = {"hyper": g.HyperbolaFitness, "vega": g.VEGAHyperbolaFitness, "ffga": g.FFGAFitness}[spec["fit"]]
        kw = {}
        if args.obj_value is not None:
            kw["obj_value"] = args.obj_value
        if args.has_input:
            kw["input_data"] = args.input_data
        if spec.get("penalty") is not None:
            kw["penalty"] = mk_penalty(spec["penalty"], args)
        if args.conditions is not None:
            kw["conditions"] = args.conditions
        return cls(obj_function=obj, **kw)
    if kind == "sel":
        t = spec["sel"]["t"]
        m = spec["obj"].get("m", 1)
        kw = {} if spec["sel"].get("k") is None else {"tournament_size": spec["sel"]["k"]}
        return {"tour": lambda: g.TournamentSelection(**kw), "bal": g.BalancedSelection, "rank": g.RankedSelection,
                "vtour": lambda: g.VEGATournamentSelection(m, **kw), "vbal": lambda: g.VEGABalancedSelection(m),
                "vrank": lambda: g.VEGARankedSelection(m)}[t]()
    if kind == "cx":
        return {"one": g.OnePointCrossover, "two": g.TwoPointCrossover, "uni": g.UniformCrossover,
                "ord": g.OrderCrossover}[spec["cx"]]()
    if kind == "mut":
        cls = {"bin": g.BinStringMutation, "cat": g.CategoricalMutation, "inv": g.InversionMutation,
               "mov": g.MovementMutation, "shift": g.ShiftMutation, "swap": g.SwapMutation}[spec["mut"]["t"]]
        lvl = spec["mut"].get("lvl")
        return cls() if lvl is None else cls(lvl)
    if kind == "ng":
        cls = {"new": g.NewGeneration, "multi": g.MultiNewGeneration}[spec["ng"]["t"]]
        tp = spec["ng"].get("tp")
        return cls() if tp is None else cls(tp)
    raise ValueError(kind)


def pop_class(spec):
    import baumeva.ga as g
    return {"binary": g.BinaryPopulation, "gray": g.BinaryGrayPopulation, "cat": g.CatPopulation,
            "order": g.OrderCatPopulation}[spec["pop"]]


def mk_api(spec, obj, args):
    import baumeva
    cls = {"binary": baumeva.BinaryGA, "comb": baumeva.CombinatoryGA, "cat": baumeva.CategoricalGA,
           "vega": baumeva.VEGA, "ffga": baumeva.FFGA}[spec["algo"]]
    kw = dict(num_generations=spec["ngen"], num_individ=spec["n"], gens=args.gens, obj_function=obj)
    if args.obj_value is not None:
        kw["obj_value"] = args.obj_value
    if args.has_input:
        kw["input_data"] = args.input_data
    if spec.get("penalty") is not None:
        kw["penalty"] = mk_penalty(spec["penalty"], args)
    if args.conditions is not None:
        kw["conditions"] = args.conditions
    if spec.get("gray"):
        kw["is_gray"] = True
    if spec.get("cp") is not None:
        kw["children_percent"] = spec["cp"]
    if spec.get("early", "default") != "default":
        kw["early_stop"] = spec["early"]
    if args.inpop is not None:
        kw["input_population"] = args.inpop
    if spec.get("tsize") is not None:
        kw["tournament_size"] = spec["tsize"]
    if spec.get("lvl") is not None:
        kw["mutation_lvl"] = spec["lvl"]
    if spec.get("tp") is not None:
        kw["transfer_parents"] = spec["tp"]
    if spec.get("is_print") is not None:
        kw["is_print"] = spec["is_print"]
    return cls(**kw)


def eff(spec):
    """Effective parameters of a client spec, whatever way it runs."""
    e = {}
    e["cp"] = spec.get("cp") if spec.get("cp") is not None else 0.95
    es = spec.get("early", "default")
    e["early"] = 10 if es == "default" else (spec["ngen"] if es is None else es)
    if spec["kind"] == "api":
        a = spec["algo"]
        e["pop"] = {"binary": "binary", "vega": "binary", "ffga": "binary", "comb": "order", "cat": "cat"}[a]
        if spec.get("gray"):
            e["pop"] = "gray"
        e["fit"] = {"vega": "vega", "ffga": "ffga"}.get(a, "hyper")
        e["sel"] = {"vega": "vtour", "ffga": "bal"}.get(a, "tour")
        e["tsize"] = spec.get("tsize") if spec.get("tsize") is not None else 3
        e["cx"] = {"binary": "one", "vega": "one", "ffga": "one", "comb": "ord", "cat": "uni"}[a]
        e["mut"] = {"binary": "bin", "vega": "bin", "ffga": "bin", "comb": "mov", "cat": "cat"}[a]
        e["lvl"] = spec.get("lvl") if spec.get("lvl") is not None else "normal"
        e["ng"] = "multi" if a == "ffga" else "new"
        e["tp"] = spec.get("tp") or "best"
    else:
        e["pop"], e["fit"], e["sel"] = spec["pop"], spec["fit"], spec["sel"]["t"]
        e["tsize"] = spec["sel"].get("k") or 3
        e["cx"], e["mut"] = spec["cx"], spec["mut"]["t"]
        e["lvl"] = spec["mut"].get("lvl") if spec["mut"].get("lvl") is not None else "normal"
        e["ng"], e["tp"] = spec["ng"]["t"], spec["ng"].get("tp") or "best"
    e["binary"] = e["pop"] in ("binary", "gray")
    e["single"] = e["fit"] == "hyper"
    e["m"] = spec["obj"].get("m", 1)
    return e


def bits_of(gene):
    lo, hi, step = gene
    pts = int(abs(hi - lo) / step)
    n = 0
    while 2 ** n - 1 < pts:
        n += 1
    return n


def decode(spec, pop, genotype):
    """Reference decoder: bit string -> values."""
    out = []
    pos = 0
    for gene in spec["gens"]["g"]:
        n = bits_of(gene)
        bits = genotype[pos:pos + n]
        pos += n
        v = 0
        if pop == "gray":
            b = 0
            for ch in bits:
                b ^= int(ch)
                v = v * 2 + b
        else:
            for ch in bits:
                v = v * 2 + int(ch)
        out.append(gene[0] + v * (abs(gene[1] - gene[0]) / (2 ** n - 1)))
    return out


def total_bits(spec):
    return sum(bits_of(g) for g in spec["gens"]["g"])


def close(a, b, scale=1.0):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b), abs(scale))


# ---------------------------------------------------------------------------------------------------------------
# a run and its recorded history

class Step:
    __slots__ = ("kind", "inst", "gen", "pre_pop", "pre_par", "pre_chi", "post_pop", "post_par", "post_chi", "exc",
                 "calls", "draws")

    def __init__(self, kind, inst, gen):
        self.kind, self.inst, self.gen = kind, inst, gen
        self.exc = None
        self.pre_pop = self.pre_par = self.pre_chi = self.post_pop = self.post_par = self.post_chi = None
        self.calls = (0, 0)
        self.draws = (0, 0)


class Gen:
    """Snapshot right after a generation was recorded by the run data."""
    __slots__ = ("pop", "hb", "hm", "hw", "best", "idx", "noimp", "ncalls", "nhist", "best_canon", "hb_canon",
                 "best_snap", "pareto", "best_idx", "nout", "best_full", "hb_full", "aliased")


class Run:
    def __init__(self, spec, client=None, rec=("gen",), args=None):
        self.spec = spec
        self.client = client or CTX.cur()
        self.client.run = self
        self.rec = frozenset(rec)
        self.args = args or Args(spec)
        self.obj = Obj(spec["obj"], self.args.input_data, self.args.has_input, spec.get("faults", ()),
                       spec.get("exc", "ValueError"))
        self.gens = []
        self.steps = []
        self.depth = 0
        self.udepth = 0
        self.data = None
        self.status = None
        self.exc = None
        self.retries = 0
        self.api = None
        self.pending_gen = 0
        self.refused = 0
        self.irq = None          # {"line": source line count inside the package, "exc": name}
        self.irq_exc = None

    # -- recording -----------------------------------------------------------------------------------------------
    def pre(self, kind, inst, d):
        self.client.progress()
        if kind not in self.rec:
            return None
        st = Step(kind, inst, len(self.gens))
        st.pre_pop = snaps(d.population) if d.population is not None else None
        if kind != "sel":
            st.pre_par = snaps(d.parents) if d.parents is not None else None
        if kind not in ("sel", "cx"):
            st.pre_chi = snaps(d.children) if d.children is not None and kind != "fit" else None
        st.calls = (len(self.obj.calls), None)
        lg = self.client.stream.log
        st.draws = (len(lg) if lg is not None else 0, None)
        return st

    def post(self, st, d, exc=None):
        self.client.progress()
        if st is None:
            return
        st.exc = exc
        st.post_pop = snaps(d.population) if d.population is not None else None
        st.post_par = snaps(d.parents) if d.parents is not None else None
        st.post_chi = snaps(d.children) if d.children is not None and st.kind not in ("fit", "ng") else None
        st.calls = (st.calls[0], len(self.obj.calls))
        lg = self.client.stream.log
        st.draws = (st.draws[0], len(lg) if lg is not None else 0)
        self.steps.append(st)

    def on_update(self, d):
        self.client.progress()
        self.data = d
        if "gen" not in self.rec:
            self.gens.append(None)
            return
        g = Gen()
        g.pop = snaps(d.population)
        g.nhist = (len(d.historical_best or []), len(d.historical_mediocre or []), len(d.historical_worst or []))
        g.hb_canon = canon_hist((d.historical_best or [])[-1:])
        g.hb = (d.historical_best or [None])[-1]
        g.hm = (d.historical_mediocre or [None])[-1]
        g.hw = (d.historical_worst or [None])[-1]
        b = d.best_solution
        g.best_canon = canon_best(b)
        g.best_full = canon_full(b)
        g.hb_full = canon_full(g.hb)
        g.aliased = None
        if self.args.inpop:
            own = {id(x) for x in self.args.inpop if isinstance(x, list)}
            g.aliased = next((x for ind in d.population for x in (ind.get("genotype"), ind.get("phenotype")) if id(x) in own), None)
        g.best_snap = None if b is None or "pareto_set" in b else snap(b)
        g.pareto = None if b is None or "pareto_set" not in b else snaps(b["pareto_set"])
        g.best_idx = None if b is None else b.get("idx_generation")
        g.idx = d.idx_generation
        g.noimp = d.num_generation_no_improve
        g.ncalls = len(self.obj.calls)
        g.nout = self.client.stdout.writes
        self.gens.append(g)

    # -- execution -----------------------------------------------------------------------------------------------
    def start(self):
        """Run to completion; outcome in status/exc/data."""
        c = self.client
        c.run = self
        self.irq_exc = None
        if self.irq is not None:
            return self._interrupted()
        return self._start()

    def _interrupted(self):
        """The run with an asynchronous exception raised at the n-th source line executed inside the package."""
        import baumeva
        import os
        pkg = os.path.join(os.path.dirname(os.path.abspath(baumeva.__file__)), "")
        left = [int(self.irq["line"])]

        def local(frame, event, arg):
            if event == "line":
                left[0] -= 1
                if left[0] == 0:
                    self.irq_exc = EXCS[self.irq["exc"]]("injected interrupt")
                    raise self.irq_exc
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(pkg) or frame.f_code.co_name == "<module>":
                return None
            return local
        sys.settrace(tracer)
        try:
            return self._start()
        finally:
            sys.settrace(None)

    def _start(self):
        try:
            if self.spec["kind"] == "api":
                self._api()
            elif self.spec["kind"] == "collector":
                self._collector()
            else:
                self._steps()
            self.status = "ok"
        except SimHang as e:
            self.status, self.exc = "hang", e
        except BaseException as e:
            if type(e).__name__ == "SimAbort":
                raise
            self.obj.pending = False
            self.status, self.exc = "exc", e
        return self

    def _api(self):
        if self.api is None:
            self.api = mk_api(self.spec, self.obj, self.args)
        r = self.api.optimize()
        self.returned = r
        self.data = r

    def components(self):
        return {k: mk_component(k, self.spec, self.obj, self.args) for k in ("fit", "sel", "cx", "mut", "ng")}

    def _collector(self):
        if self.api is None:
            self.api = mk_collector(self.spec, self.components())
        set_population(self.api, self.spec, self.args)
        self.data = self.api.ga_data
        self.api.optimize()
        self.data = self.api.ga_data

    def _steps(self):
        """The hand-written loop of the documentation, with retry of a failed evaluation step."""
        import baumeva.ga as g
        s = self.spec
        e = eff(s)
        kw = {}
        if s.get("cp") is not None:
            kw["children_percent"] = s["cp"]
        kw["early_stop"] = e["early"]
        d = (g.GaData if e["single"] else g.MultiGaData)(num_generations=s["ngen"], **kw)
        self.data = d
        p = pop_class(s)()
        p.set_params(num_individ=s["n"], gens=self.args.gens, input_population=self.args.inpop)
        p.fill()
        d.population = p
        c = self.components()
        self.comp = c
        self.evaluate(c["fit"], d)
        d.update()
        for _ in range(1, d.num_generations):
            for k in ("sel", "cx", "mut", "ng"):
                c[k].execute(d)
            self.evaluate(c["fit"], d)
            d.update()
            if d.num_generation_no_improve > d.early_stop:
                break

    def evaluate(self, fit, d):
        while True:
            try:
                fit.execute(d)
                return
            except BaseException as e:
                if self.obj.pending and self.obj.badn > self.refused and isinstance(e, Exception) and self.spec.get("retry"):
                    self.refused += 1
                elif not any(e is r for r in self.obj.raised) or not self.spec.get("retry"):
                    raise
                self.obj.pending = False
                self.retries += 1
                hook = getattr(self, "on_fault", None)
                if hook:
                    hook(d)

    def outcome(self):
        """Canonical text of everything a caller can observe about the run."""
        head = str(self.status)
        if self.status == "exc":
            injected = any(self.exc is r for r in self.obj.raised)
            head += f" {type(self.exc).__name__}: {self.exc}" + (" (injected)" if injected else "")
        calls = canon([list(c) for c in self.obj.calls])
        return "\n".join([head, "calls " + calls, canon_data(self.data), "out " + self.client.stdout.text()])


def mk_collector(spec, comp):
    import baumeva
    import baumeva.ga as g
    kw = {} if eff(spec)["single"] else {"storage": g.MultiGaData}
    return baumeva.CollectorGA(fitness=comp["fit"], selection=comp["sel"], crossover=comp["cx"],
                               mutation=comp["mut"], new_generation=comp["ng"], **kw)


def set_population(col, spec, args):
    kw = {}
    if args.inpop is not None:
        kw["input_population"] = args.inpop
    if spec.get("cp") is not None:
        kw["children_percent"] = spec["cp"]
    if spec.get("early", "default") not in ("default", None):
        kw["early_stop"] = spec["early"]
    elif spec.get("early", "default") is None:
        kw["early_stop"] = spec["ngen"]
    col.set_population(population=pop_class(spec), num_individ=spec["n"], num_generations=spec["ngen"],
                       gens=args.gens, **kw)


# ---------------------------------------------------------------------------------------------------------------
# instrumentation of the public step methods (once per simulated process)

def _all_sub(cls):
    out = {cls}
    for s in cls.__subclasses__():
        out |= _all_sub(s)
    return out


_DONE = False


def instrument():
    global _DONE
    if _DONE:
        return
    _DONE = True
    import baumeva  # noqa: F401
    import baumeva.ga as g
    kinds = [("sel", g.BaseSelection), ("cx", g.BaseCrossover), ("mut", g.BaseMutation), ("ng", g.NewGeneration),
             ("fit", g.BaseFitness)]
    for kind, base in kinds:
        for cls in sorted(_all_sub(base), key=lambda c: c.__name__):
            if "execute" in cls.__dict__:
                cls.execute = _wrap(kind, cls.__dict__["execute"])
    for cls in sorted(_all_sub(g.GaData), key=lambda c: c.__name__):
        if "update" in cls.__dict__:
            cls.update = _wrap_update(cls.__dict__["update"])


def _wrap(kind, orig):
    def execute(self, *a, **k):
        run = getattr(CTX.cur(), "run", None)
        d = a[0] if a else k.get("ga_data")
        if run is None or run.depth or d is None:
            return orig(self, *a, **k)
        run.depth = 1
        try:
            st = run.pre(kind, self, d)
            exc = None
            try:
                return orig(self, *a, **k)
            except BaseException as e:
                exc = e
                raise
            finally:
                run.post(st, d, exc)
        finally:
            run.depth = 0
    return execute


def _wrap_update(orig):
    def update(self, *a, **k):
        run = getattr(CTX.cur(), "run", None)
        if run is None or run.udepth:
            return orig(self, *a, **k)
        run.udepth = 1
        try:
            r = orig(self, *a, **k)
        finally:
            run.udepth = 0
        run.on_update(self)
        return r
    return update
