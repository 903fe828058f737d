"""The seams the simulator owns: randomness, OS entropy, clocks, standard output.

`install()` must run before the package under test is imported.  It replaces the functions of the `random` module and
`random.Random` / `random.SystemRandom` by routed versions: every draw is answered by the simulated stream of the
client (simulated caller) whose thread asks.  `os.urandom` and the clock functions are answered by the simulator too.

A stream is a deterministic function of its spec {"s": int, "p": float, "salt": int, "keep": null | [draw numbers]}:
a Mersenne Twister (fair part) plus, with probability p per draw, an injected extreme value (the fault part).  A fired
injection is identified by its draw number, so a replay file can keep any subset of them ("keep").
"""
import os
import random as _random_mod
import sys
import threading
import datetime
import time as _time_mod
import zlib

RealRandom = _random_mod.Random
M64 = (1 << 64) - 1


class SimHang(BaseException):
    """Draw budget without progress exceeded: the code under test loops."""


class SimSlow(BaseException):
    """The harness itself is too slow (never a verdict about the code under test)."""


class SimAbort(BaseException):
    """Raised inside a client thread when the simulation is being torn down."""


def mix(*xs):
    h = 0x9E3779B97F4A7C15
    for x in xs:
        h = (h ^ (x & M64)) & M64
        h = (h * 0xBF58476D1CE4E5B9) & M64
        h ^= h >> 27
        h = (h * 0x94D049BB133111EB) & M64
        h ^= h >> 31
    return h


class Stream:
    """Simulated random stream of one client."""

    def __init__(self, spec, client=None):
        self.spec = dict(spec)
        s = int(spec.get("s", 0))
        self.core = RealRandom(s)
        self.ent = RealRandom(s ^ 0x5DEECE66D)
        self.p16 = int(float(spec.get("p", 0.0)) * 65536)
        self.salt = int(spec.get("salt", 0))
        keep = spec.get("keep")
        self.keep = None if keep is None else frozenset(keep)
        self.key = mix(s)
        self.k = 0            # draws since last seeding
        self.n = 0            # draws since creation
        self.last = 0
        self.fired = []       # draw numbers at which an extreme value was injected
        self.client = client
        self.log = None       # list of (kind, bound, value) when recording
        self.seedings = 0
        self.fixed = False    # seeded by the code under test with a value of its own

    # -- seeding -----------------------------------------------------------------------------------------------
    def seed(self, a=None, version=2):
        known = a is not None
        if a is None:
            a = self.ent.getrandbits(64)
        self.core.seed(a, version)
        self.key = mix(zlib.crc32(repr(a).encode()), zlib.adler32(repr(a).encode()))
        self.k = 0
        self.last = 0
        self.seedings += 1
        self.fixed = known

    # -- draws -------------------------------------------------------------------------------------------------
    def _tick(self):
        self.k += 1
        self.n += 1
        c = self.client
        if c is not None:
            c.on_draw()
        if not self.p16:
            return None
        h = mix(self.key, self.salt, self.k)
        if (h & 0xFFFF) >= self.p16:
            return None
        if self.keep is not None and self.n not in self.keep:
            return None
        if len(self.fired) < 20000:
            self.fired.append(self.n)
        return h >> 16

    def below(self, n):
        h = self._tick()
        v = None
        if h is not None:
            m = h % 4
            v = 0 if m == 0 else n - 1 if m == 1 else self.last % n if m == 2 else (h >> 8) % n
        if v is None:
            v = self.core._randbelow(n)
        self.last = v
        if self.log is not None:
            self.log.append(("b", n, v))
        return v

    def bits(self, k):
        h = self._tick()
        v = None
        if h is not None:
            m = h % 3
            v = 0 if m == 0 else (1 << k) - 1 if m == 1 else None
        if v is None:
            v = self.core.getrandbits(k)
        if self.log is not None:
            self.log.append(("g", k, v))
        return v

    def float(self):
        h = self._tick()
        v = None
        if h is not None:
            m = h % 4
            v = (0.0, 1.0 - 2.0 ** -53, 0.5, 2.0 ** -53)[m]
        if v is None:
            v = self.core.random()
        if self.log is not None:
            self.log.append(("f", 0, v))
        return v

    def getstate(self):
        return ("simstream", self.core.getstate(), self.key, self.k, self.last)

    def setstate(self, st):
        _, core, self.key, self.k, self.last = st
        self.core.setstate(core)


class Client:
    """One simulated caller: its random stream, output stream, draw budget, and its yield points."""

    def __init__(self, name="main", stream=None):
        self.name = name
        self.stream = Stream(stream or {"s": 1}, self)
        self.stdout = SimOut()
        self.budget = 0        # 0 = unlimited
        self.since = 0
        self.max_since = 0
        self.sched = None
        self.private = {}      # streams of generators the package made while it was imported

    def set_stream(self, spec):
        self.stream = Stream(spec, self)
        for k, old in self.private.items():
            new = self.private[k] = self.new_private(k)
            if old.fixed:
                new.setstate(old.getstate())
                new.fixed = True

    def new_private(self, k):
        return Stream(dict(self.stream.spec, s=mix(int(self.stream.spec.get("s", 0)), CTX.started, k)), self)

    def private_stream(self, k, x):
        s = self.private.get(k)
        if s is None:
            s = self.private[k] = self.new_private(k)
            s.seed(x)
        return s

    def on_draw(self):
        self.since += 1
        if self.since > self.max_since:
            self.max_since = self.since
        if self.budget and self.since > self.budget:
            raise SimHang(f"{self.since} random draws without finishing a step")
        if self.sched is not None:
            self.sched.point()

    def progress(self):
        self.since = 0


WRITE_ERRORS = {"ENOSPC": lambda: OSError(28, "No space left on device (simulated)"),
                "EIO": lambda: OSError(5, "Input/output error (simulated)"),
                "EPIPE": lambda: BrokenPipeError(32, "Broken pipe (simulated)"),
                "EAGAIN": lambda: BlockingIOError(11, "write could not complete without blocking (simulated)", 0),
                "EINTR": lambda: InterruptedError(4, "Interrupted (simulated)"),
                "closed": lambda: ValueError("I/O operation on closed file. (simulated)"),
                "encoding": lambda: UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128) (simulated)"),
                "memory": lambda: MemoryError("(simulated)"),
                "ctrl-c": lambda: KeyboardInterrupt("(simulated)")}


class SimOut:
    """Simulated standard output: records, and fails at scheduled write numbers."""

    def __init__(self):
        self.data = []
        self.writes = 0
        self.fail_at = frozenset()
        self.exc = None
        self.error = "ENOSPC"
        self.fired = 0
        self.encoding = "utf-8"
        self.errors = "strict"
        self.on_write = None

    def write(self, s):
        self.writes += 1
        if self.writes in self.fail_at:
            self.fired += 1
            self.exc = WRITE_ERRORS[self.error]()
            raise self.exc
        self.data.append(s)
        if self.on_write is not None:
            self.on_write(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True

    def text(self):
        return "".join(self.data)


class Ctx:
    def __init__(self):
        self.main = Client("main")
        self.by_tid = {}
        self.clock = 1.7e9
        self.clock_step = 0.001
        self.pid = 4711
        self.on = False
        self.importing = False
        self.born = 0
        self.started = 99
        self.skew, self.reads, self.jumpy = 0.0, 0, False
        self.entropy = RealRandom(99)

    def cur(self):
        return self.by_tid.get(threading.get_ident(), self.main)

    def reset(self, env=None):
        env = env or {}
        self.main = Client("main")
        self.by_tid = {}
        self.clock = float(env.get("clock", 1.7e9))
        self.clock_step = float(env.get("clock_step", 0.001))
        self.pid = int(env.get("pid", 4711))
        self.started = int(env.get("entropy", 99))
        self.entropy = RealRandom(self.started)
        self.skew = 0.0
        self.reads = 0
        self.jumpy = False

    def now(self, wall):
        """Monotonic clocks only go on; the wall clock may be set back and forth."""
        self.clock += self.clock_step
        self.reads += 1
        if self.jumpy and self.reads % 5 == 0:
            self.skew = (-90000.0, 40000.0, 0.0, -3.0)[self.reads // 5 % 4]
        return self.clock + (self.skew if wall else 0.0)


CTX = Ctx()


class SimRandom(RealRandom):
    """Private generators (`random.Random(x)`): own stream state, draws accounted to the asking client."""

    def __new__(cls, *a, **k):
        return RealRandom.__new__(cls)

    def __init__(self, x=None):
        self.gauss_next = None
        if CTX.importing:
            CTX.born += 1
            self._born = CTX.born, x
            return
        c = CTX.cur()
        sp = dict(c.stream.spec)
        sp["s"] = mix(int(sp.get("s", 0)), CTX.entropy.getrandbits(32))
        self._own = Stream(sp, c)
        self._own.seed(x)

    @property
    def _st(self):
        own = self.__dict__.get("_own")
        if own is not None:
            return own
        born = self.__dict__.get("_born")
        return CTX.cur().private_stream(*born) if born else CTX.cur().stream

    def seed(self, a=None, version=2):
        self.gauss_next = None
        self._st.seed(a, version)

    def random(self):
        return self._st.float()

    def getrandbits(self, k):
        return self._st.bits(k)

    def _randbelow(self, n):
        return self._st.below(n)

    def getstate(self):
        return self._st.getstate()

    def setstate(self, st):
        self._st.setstate(st)


class _Global(SimRandom):
    """The module-level generator: routed to the stream of the calling client."""

    def __init__(self):
        self.gauss_next = None


class SimSystemRandom(SimRandom):
    def __init__(self, x=None):
        super().__init__(CTX.entropy.getrandbits(64))

    def seed(self, *a, **k):
        return None


class StdoutRouter:
    """sys.stdout: the asking client's while a simulation runs."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(CTX.cur().stdout if CTX.on else self._real, name)


def _urandom(n):
    return bytes(CTX.entropy.getrandbits(8) for _ in range(n))


def install():
    inst = _Global()
    m = _random_mod
    m._inst = inst
    for name in ("seed", "random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle",
                 "choices", "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate", "gammavariate",
                 "gauss", "binomialvariate", "betavariate", "paretovariate", "weibullvariate", "getstate", "setstate",
                 "getrandbits", "randbytes"):
        if hasattr(m, name) and hasattr(inst, name):
            setattr(m, name, getattr(inst, name))
    m.Random = SimRandom
    m.SystemRandom = SimSystemRandom
    install_world()


def install_world():
    """Routers for clock, entropy and output, in place before the package is imported; real until a simulation starts."""
    def clock(name, wall):
        real = getattr(_time_mod, name)

        def read():
            return CTX.now(wall) if CTX.on else real()
        setattr(_time_mod, name, read)
        if hasattr(_time_mod, name + "_ns"):
            real_ns = getattr(_time_mod, name + "_ns")
            setattr(_time_mod, name + "_ns", lambda: int(CTX.now(wall) * 1e9) if CTX.on else real_ns())
    for name in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        if hasattr(_time_mod, name):
            clock(name, name == "time")
    real_sleep, real_urandom = _time_mod.sleep, os.urandom

    def sleep(s):
        if not CTX.on:
            return real_sleep(s)
        CTX.clock += max(0, s)

    def urandom(n):
        return _urandom(n) if CTX.on else real_urandom(n)

    class SimDatetime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(_time_mod.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(_time_mod.time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    def broken_down(name):
        real = getattr(_time_mod, name)

        def read(secs=None):
            return real(CTX.now(True) if secs is None and CTX.on else secs)
        setattr(_time_mod, name, read)
    for name in ("localtime", "gmtime", "ctime"):
        broken_down(name)
    real_date, real_strftime, real_pid = datetime.date, _time_mod.strftime, os.getpid

    class SimDate(real_date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(_time_mod.time())
    datetime.date = SimDate
    _time_mod.strftime = lambda fmt, t=None: real_strftime(fmt, _time_mod.localtime() if t is None else t)
    os.getpid = lambda: CTX.pid if CTX.on else real_pid()
    _time_mod.sleep = sleep
    datetime.datetime = SimDatetime
    os.urandom = urandom
    _random_mod._urandom = urandom
    sys.stdout = StdoutRouter(sys.stdout)


def import_world(k):
    """The world in which process kind k imports the package."""
    CTX.reset({"clock": 1.6e9 + 86400.5 * k, "entropy": 7 + k})
    CTX.main.set_stream({"s": 5 + k})
    CTX.on = CTX.importing = True


def imported():
    CTX.on = CTX.importing = False
    CTX.reset()


def start_world():
    """From here on everything is simulated; only in children that run scenarios."""
    CTX.on = True
