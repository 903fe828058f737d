"""Baton-passing scheduler: real threads, exactly one of which runs; the simulator decides which, at source-line
granularity inside the package under test and at every draw and evaluation.

Schedule spec: {"s": int, "mean": float, "switches": null | [[point, target], ...]}.  With explicit switches (replay,
minimisation) nothing is drawn: at the given global point numbers the baton goes to the given client, otherwise the
running client keeps it; when a client ends, the baton goes to the lowest-numbered unfinished one unless the
schedule says otherwise ("ends": [[client, target], ...]).
"""
import os
import sys
import threading

from .seam import CTX, RealRandom, SimAbort


class Sched:
    def __init__(self, spec, pkg_dir):
        self.spec = spec
        self.rng = RealRandom(int(spec.get("s", 0)))
        self.mean = max(1.0, float(spec.get("mean", 40)))
        sw = spec.get("switches")
        self.explicit = None if sw is None else {int(p): int(t) for p, t in sw}
        self.ends = {int(c): int(t) for c, t in spec.get("ends", [])}
        self.points = 0
        self.next = self._gap()
        self.taken = []
        self.taken_ends = []
        self.clients = []
        self.fns = []
        self.sems = []
        self.alive = []
        self.cur = None
        self.dead = False
        self.max_points = int(spec.get("max_points", 3000000))
        self.pkg = os.path.join(os.path.realpath(pkg_dir), "")
        self.main_done = threading.Semaphore(0)
        self.error = None

    def _gap(self):
        return self.points + 1 + int(self.rng.expovariate(1.0 / self.mean))

    def add(self, client, fn):
        client.sched = self
        self.clients.append(client)
        self.fns.append(fn)
        self.sems.append(threading.Semaphore(0))
        self.alive.append(True)

    # called from the running client only
    def point(self):
        if self.cur is None:
            return
        self.points += 1
        if self.points > self.max_points:
            self.dead = True
            raise SimAbort("schedule too long")
        if self.explicit is not None:
            t = self.explicit.get(self.points)
            if t is None or t >= len(self.alive) or not self.alive[t] or t == self.cur:
                return
        else:
            if self.points < self.next:
                return
            self.next = self._gap()
            others = [i for i, a in enumerate(self.alive) if a and i != self.cur]
            if not others:
                return
            t = others[self.rng.randrange(len(others))]
        self.taken.append([self.points, t])
        me = self.cur
        self._switch(me, t)

    def _switch(self, me, t):
        self.cur = t
        self.sems[t].release()
        self.sems[me].acquire()
        if self.dead:
            raise SimAbort("torn down")

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.pkg) or frame.f_code.co_name == "<module>":
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self._local

    def _body(self, i):
        self.sems[i].acquire()
        c = self.clients[i]
        CTX.by_tid[threading.get_ident()] = c
        try:
            if not self.dead:
                sys.settrace(self._trace)
                try:
                    self.fns[i]()
                finally:
                    sys.settrace(None)
        except SimAbort as e:
            self.error = e
        except BaseException as e:  # harness error
            self.error = e
        finally:
            self.alive[i] = False
            rest = [j for j, a in enumerate(self.alive) if a]
            if rest:
                if self.explicit is not None:
                    t = self.ends.get(i, rest[0])
                    if t not in rest:
                        t = rest[0]
                else:
                    t = rest[self.rng.randrange(len(rest))]
                self.taken_ends.append([i, t])
                self.cur = t
                self.sems[t].release()
            else:
                self.cur = None
                self.main_done.release()

    def run(self):
        ths = []
        for i in range(len(self.fns)):
            t = threading.Thread(target=self._body, args=(i,), daemon=True)
            t.start()
            ths.append(t)
        self.cur = int(self.spec.get("first", 0)) % len(self.fns)
        self.sems[self.cur].release()
        self.main_done.acquire()
        for t in ths:
            t.join()
        if self.error is not None and not isinstance(self.error, SimAbort):
            raise self.error
