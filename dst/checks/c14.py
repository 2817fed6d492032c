"""C14: sessions with their own objects do not affect each other.

Two to four seeded sessions run one after the other, each alone, and then as
simulated threads that switch at seeded lines of ocbpy and seeded I/O events.
Every result of every step and every file must be the same bit by bit.
"""
import logging
import os
import threading

from dst import core, jobs, seams, simfs, threads
from dst.core import check

RUNS = {"quick": 2000, "thorough": 40000}
BATCH = 40
LEVEL = "exploration"
RULE = ("2-4 seeded sessions under a seeded schedule; non-trivial if threads "
        "switched while at least two were running")
STATE_MEASURE = ("distinct (kind of session, function and line, or I/O "
                 "operation, at which another thread went on) pairs")
REAL = ["all of ocbpy except downloads", "Python threads", "numpy", "aacgmv2",
        "pandas", "xarray", "pysat"]
STUB = ["thread scheduler (one runs at a time, switches as seeded)",
        "file system (in memory, with faults)", "ocbpy log handler", "clock",
        "numpy allocator"]
ASSUMES = ["third-party calls are atomic: threads switch at lines of ocbpy and "
           "at I/O events",
           "AACGMV2 is a function of its arguments (its own dependence on the "
           "dates of earlier calls is removed by a seam)"]
SHRINK = ["parts", "scheds", "scheds.*.points", "parts.*.ops", "parts.*.series.rows",
          "parts.*.conv.obs.blocks", "parts.*.calls"]


def gen(rng, tier, index):
    num = rng.choice([2, 2, 2, 3, 4])
    kind = core.pick(rng, jobs.KINDS) if rng.random() < .65 else None
    parts = [jobs.gen(rng, kind) for _ in range(num)]
    if rng.random() < .5:
        # Alike in what they use, and different in numbers
        for i in range(1, num):
            parts[i] = max((jobs.gen(rng, parts[0]["job"]) for _ in range(6)),
                           key=lambda job: alike(parts[0], job))
    if rng.random() < .15:
        parts[1] = core.jround(parts[0])
    mode = core.pick(rng, {"few": 3, "many": 2, "dense": 2, "every": .5,
                           "turns": 1, "within": 4})
    sched = {}
    scheds = [sched]
    if mode == "few":
        sched["points"] = [[rng.random(), rng.randrange(num)]
                           for _ in range(rng.randint(1, 4))]
    elif mode == "many":
        sched["points"] = [[rng.random(), rng.randrange(num)]
                           for _ in range(rng.randint(5, 60))]
    elif mode == "within":
        # several sessions in the same few functions at once
        sched.update(p=rng.choice([.3, .6, .9]), seed=rng.randrange(1 << 30),
                     within=rng.choice([1, 1, 2, 4]))
        scheds = [dict(sched, skip=sched["within"] * i) for i in range(6)]
    elif mode != "turns":
        sched.update(p=.05 if mode == "dense" else .5,
                     seed=rng.randrange(1 << 30))
    plan = {"parts": parts, "scheds": scheds, "memseed": rng.getrandbits(30)}
    # I/O errors that belong to one session
    plan["fail"] = [[rng.randrange(num), rng.randrange(20)]
                    for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    return plan


def words(item):
    """Strings in a plan, with how often they occur there."""
    out, todo = {}, [item]
    while todo:
        one = todo.pop()
        if isinstance(one, str):
            out[one] = out.get(one, 0) + 1
        elif isinstance(one, dict):
            todo.extend(one)
            todo.extend(one.values())
        elif isinstance(one, (list, tuple)):
            todo.extend(one)
    return out


def alike(one, two):
    one, two = words(one), words(two)
    both = sum(min(num, two.get(word, 0)) for word, num in one.items())
    return both / (1 + sum(one.values()) + sum(two.values()) - both)


class Trap(logging.Handler):
    """Log lines of each thread."""

    def __init__(self, crew_of):
        super().__init__(level=logging.DEBUG)
        self.lines = {}

    def emit(self, record):
        self.lines.setdefault(threading.get_ident(), []).append(
            [record.levelname, record.getMessage()])


class Disk:
    """I/O events: switch points, and errors that belong to one session."""

    def __init__(self, fail):
        self.fail = fail
        self.seen = {}
        self.crew = None
        self.fired = 0

    def __call__(self, op, path):
        me = self.crew.names.get(threading.get_ident())
        if me is None:
            return
        num = self.seen.get(me, 0)
        self.seen[me] = num + 1
        self.crew.event("io " + op)
        if [me, num] in self.fail and op != "stat":
            self.fired += 1
            raise OSError(5, "simulated input/output error", path)


def run(plan):
    import ocbpy
    real = os.path.dirname(os.path.realpath(ocbpy.boundaries.__file__))
    dig, fired = core.Digest(), {}
    alone, events, funcs = [], 0, {}
    num = len(plan["parts"])
    for i in range(num):
        got = apart(plan, [i], None, real)
        alone.append(got["out"][0])
        events += got["events"]
        for name, times in got["funcs"].items():
            funcs.setdefault(name, []).append(times)
        dig.add(got["out"][0])
    funcs = {name: sum(n) for name, n in funcs.items() if len(n) > 1}
    switches = 0
    for sched in plan["scheds"]:
        both = apart(plan, list(range(num)),
                     threads.Schedule(sched, events, funcs), real)
        got = both["out"]
        for i, part in enumerate(plan["parts"]):
            same(alone[i], got[i], "session {:d} ({:s}) of {:s}".format(
                i, part["job"], "+".join(p["job"] for p in plan["parts"])))
        if both["fired"]:
            fired["errno"] = fired.get("errno", 0) + both["fired"]
        switches += both["switches"]
        for site in both["sites"]:
            dig.state(sorted(set(p["job"] for p in plan["parts"])), site)
        dig.add(both["switches"], both["events"])
    if switches:
        fired["thread switch"] = switches
    return {"digest": dig.hex(), "nontrivial": switches > 0,
            "states": dig.states, "fired": fired,
            "counts": {"sessions": num, "events": events,
                       "schedules": len(plan["scheds"])}}


def same(alone, mixed, where):
    for (name, want), (name2, have) in zip(alone, mixed):
        check(name == name2, "other-step", where, name, name2)
        check(core.canon(want) == core.canon(have), "result-differs", where,
              name, "together", show(have), "alone", show(want))
    check(len(alone) == len(mixed), "steps", where, len(alone), len(mixed))


def show(val):
    out = str(val)
    return out if len(out) < 700 else out[:700] + "..."


def apart(plan, which, schedule, real):
    """`together` in a process of its own, forked from one that has not run
    any session, so that nothing is left over from earlier ones."""
    def work():
        out, crew, disk = together(plan, which, schedule, real)
        return {"out": out, "events": crew.n, "switches": crew.switches,
                "sites": sorted(crew.sites, key=str), "fired": disk.fired,
                "funcs": crew.funcs}
    return core.forked(work)


def together(plan, which, schedule, real):
    """Outcomes of the given parts, run as threads under one schedule."""
    import ocbpy
    fs = simfs.SimFS(mounts=[(real, "/vsim/b")])
    for name in ("image_north_a.ocb", "amp_south_b.ocb", "wic_north_c.eab",
                 "dmsp-ssj_north_20100101_20110101_v1.ocb"):
        fs.put("/vsim/b/" + name, "x\n")
    out = {i: [] for i in which}
    disk = Disk([[which.index(who), num] for who, num in plan["fail"]
                 if who in which])

    def body(i):
        def work():
            home = "/vsim/t{:d}".format(i)
            fs.mkdirs(home)
            jobs.script(plan["parts"][i], fs, home, lambda step, got: out[
                i].append([step, core.canon(got)]))
            out[i].append(["log", core.canon(trap.lines.get(
                threading.get_ident(), []))])
            out[i].append(["files", core.canon(sorted(
                (p, fs.get(home + "/" + p)) for p in fs.listing(home)))])
        return work
    crew = threads.Crew([body(i) for i in which], schedule)
    disk.crew = crew
    trap = Trap(crew)
    log = ocbpy.logger
    saved = log.handlers, log.level, log.propagate
    log.handlers, log.propagate = [trap], False
    log.setLevel(logging.DEBUG)
    try:
        with fs, seams.Clock(1.6e9):
            fs.on_event = disk
            crew.run()
    finally:
        fs.on_event = None
        log.handlers, level, log.propagate = saved
        log.setLevel(level)
    return [out[i] for i in which], crew, disk


def prepare():
    jobs.preload()
