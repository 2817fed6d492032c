"""Simulated threads: real threads of which exactly one runs at a time.

At every executed line of ocbpy and every I/O event the running thread asks
the schedule who goes on; the others wait.  The schedule is part of the plan,
so that a run is repeatable whatever the machine does.
"""
import random
import threading

from dst import seams
from dst.seams import HarnessError


class Schedule:
    """Who runs after the n-th event: {"points": [[n, to], ...]} or a seeded
    choice with probability `p`, at any event or only in `within` of the given
    functions {name: events}, picked by the seed, shorter ones sooner."""

    def __init__(self, spec, events, funcs=None):
        self.points = {}
        self.only = None
        self.p = spec.get("p", 0.0)
        self.rng = random.Random(spec.get("seed", 0))
        for frac, to in spec.get("points", []):
            self.points[int(frac * events)] = to
        if spec.get("within"):
            order = sorted((self.rng.expovariate(1.0) * num ** .5, name)
                           for name, num in sorted(funcs.items())
                           if not name.startswith("io "))
            first = spec.get("skip", 0)
            self.only = set(name for _, name in
                            order[first:first + spec["within"]])

    def pick(self, n, alive, now, site):
        if n in self.points:
            return alive[self.points[n] % len(alive)]
        if self.only is not None and site not in self.only:
            return now
        if self.p and self.rng.random() < self.p:
            return alive[self.rng.randrange(len(alive))]
        return now


class Crew:
    """Runs bodies as threads under a schedule."""

    def __init__(self, bodies, schedule=None):
        self.bodies = bodies
        self.schedule = schedule
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.alive = list(range(len(bodies)))
        self.names = {}
        self.n = 0
        self.switches = 0
        self.sites = set()
        self.funcs = {}
        self.errors = [None] * len(bodies)
        self.done = threading.Event()

    def event(self, site, what=None):
        """The running thread is at a point where others may go first."""
        me = self.names.get(threading.get_ident())
        if me is None:
            return
        n, self.n = self.n, self.n + 1
        if self.schedule is None:
            self.funcs[site] = self.funcs.get(site, 0) + 1
            return
        if len(self.alive) < 2:
            return
        to = self.schedule.pick(n, self.alive, me, site)
        if to != me:
            self.switches += 1
            self.sites.add((str(site), what))
            self.sems[to].release()
            if not self.sems[me].acquire(timeout=300):
                raise HarnessError("a simulated thread was never resumed")

    def _line(self, code, line):
        self.event(code.co_qualname, line)

    def _body(self, me):
        self.names[threading.get_ident()] = me
        self.sems[me].acquire()
        seams.Shim.set_handler(seams.Shim.capsule)
        try:
            self.bodies[me]()
        except BaseException as err:
            self.errors[me] = err
        self.alive.remove(me)
        if self.alive:
            self.sems[self.alive[self.n % len(self.alive)]].release()
        else:
            self.done.set()

    def run(self, limit=20000000):
        crew = [threading.Thread(target=self._body, args=(i,), daemon=True)
                for i in range(len(self.bodies))]
        with seams.Steps(limit, hook=self._line):
            for one in crew:
                one.start()
            self.sems[0].release()
            if not self.done.wait(timeout=600):
                raise HarnessError("simulated threads are stuck")
            for one in crew:
                one.join(60)
        for err in self.errors:
            if err is not None:
                raise err
