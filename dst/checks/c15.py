"""C15: the same calls on the same inputs give the same results everywhere.

A seeded piece of work runs in a pristine process.  It then runs again in
other processes: with other contents of fresh memory, another order of
directory listings, another hash seed and time zone, at another time, and
after other work, some of it failed.  Every value, text, warning and file must
be the same bit by bit.
"""
import os
import random

from dst import core, jobs, seams, server, simfs
from dst.core import check

RUNS = {"quick": 1600, "thorough": 60000}
BATCH = 40
LEVEL = "exploration"
RULE = ("1-2 seeded pieces of work, each repeated in 3 other settings; "
        "non-trivial if it did not only raise")
STATE_MEASURE = ("distinct (kinds of work, steps and how they ended, kind of "
                 "setting) tuples")
REAL = ["all of ocbpy", "numpy", "aacgmv2", "pandas", "xarray", "pysat",
        "zenodo_get", "the hash seed and time zone of separate processes"]
STUB = ["contents of fresh numpy memory (as seeded)",
        "file system (in memory, listing order as seeded)", "ocbpy log "
        "handler", "clock", "Zenodo"]
ASSUMES = ["AACGMV2 is a function of its arguments (its own dependence on the "
           "dates of earlier calls is removed by a seam)"]
SHRINK = ["work", "others", "others.*.before", "work.*.ops",
          "work.*.series.rows", "work.*.conv.obs.blocks", "work.*.calls",
          "work.*.vec"]
REPEAT_IS_VIOLATION = True
ENVS = [{"PYTHONHASHSEED": "1", "TZ": "AAA-5:30"},
        {"PYTHONHASHSEED": "20", "TZ": "BBB8CCC"},
        {"PYTHONHASHSEED": "333", "TZ": "UTC"}]
KINDS = dict(jobs.ALL, session=4)


def gen(rng, tier, index):
    plan = {"work": [jobs.gen(rng, None, KINDS)
                     for _ in range(rng.choice([1, 1, 1, 2]))]}
    plan["others"] = [gen_other(rng, where) for where in
                      [None, rng.randrange(len(ENVS)),
                       rng.randrange(len(ENVS))]]
    return plan


def gen_other(rng, where):
    out = {"where": where, "mode": rng.choice([0, 1, 1, 2, 3, 4]),
           "seed": rng.getrandbits(30), "list": rng.getrandbits(30),
           "now": rng.choice([0, 0, 43200.7, 1e5, 4e8]), "before": []}
    if where is None or rng.random() < .4:
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            item = {"work": jobs.gen(rng, None, KINDS)}
            if rng.random() < .35:
                item["fail"] = rng.randrange(12)
            out["before"].append(item)
    return out


def answer(req):
    """Outcomes of the work in the setting asked for."""
    import ocbpy
    real = os.path.dirname(os.path.realpath(ocbpy.boundaries.__file__))
    how = req["how"]
    with seams.Memory(how["seed"], how["mode"]):
        for num, item in enumerate(how["before"]):
            one(item["work"], real, how, 1.5e9 + 1e6 * num, item.get("fail"))
        # What depends on the day may do so
        return [one(work, real, how, 1.6e9 + (
            0 if work["job"] in ("default", "fetch", "daily") else how["now"]))
            for work in req["work"]]


def one(work, real, how, now, fail=None):
    fs = simfs.SimFS(mounts=[(real, "/vsim/b")])
    names = ["image_north_a.ocb", "amp_south_b.ocb", "wic_north_c.eab",
             "dmsp-ssj_north_20100101_20110101_v1.ocb"]
    rng = random.Random(how["list"])
    rng.shuffle(names)
    for name in names:
        fs.put("/vsim/b/" + name, "x\n")
    fs.shuffle = random.Random(how["list"])
    home = "/vsim/t"
    fs.mkdirs(home)
    out = []
    if fail is not None:
        fs.faults = [{"at": fail, "kind": "errno", "errno": "EIO"}]
    with fs, seams.LogTrap() as trap, seams.Clock(now):
        jobs.script(work, fs, home, lambda step, got: out.append(
            [step, core.canon(got)]))
    out.append(["log", core.canon(trap.lines)])
    out.append(["files", core.canon(sorted(
        (p, fs.get(home + "/" + p)) for p in fs.listing(home)))])
    return out


BASE = {"seed": 1, "mode": 0, "list": 0, "now": 0, "before": []}


def run(plan):
    dig, fired = core.Digest(), {}
    kinds = "+".join(w["job"] for w in plan["work"])
    base = core.forked(lambda: answer({"work": plan["work"], "how": BASE}))
    dig.add(base)
    ended = [[s, b"raised" in c[:60]] for o in base for s, c in o]
    for num, how in enumerate(plan["others"]):
        req = {"work": plan["work"], "how": how}
        got = core.forked(lambda: answer(req)) if how["where"] is None else \
            server.ask(how["where"], req)
        where = "{:s} in setting {:d}".format(kinds, num)
        for want, have in zip(base, got):
            same(want, have, where)
        dig.add(got)
        for key, on in (("memory", True), ("listing order", True), (
                "process", how["where"] is not None), (
                    "clock", how["now"] != 0), (
                        "history", bool(how["before"]))):
            if on:
                fired[key] = fired.get(key, 0) + 1
        bad = sum(1 for item in how["before"] if "fail" in item)
        if bad:
            fired["failed work before"] = fired.get(
                "failed work before", 0) + bad
        dig.state(kinds, how["where"], how["mode"], ended, sorted(
            set(item["work"]["job"] for item in how["before"])))
    return {"digest": dig.hex(), "states": dig.states, "fired": fired,
            "nontrivial": not all(bad for s, bad in ended if s not in (
                "log", "files")),
            "counts": {"settings": len(plan["others"]),
                       "steps": len(ended)}}


def same(want, have, where):
    for (step, a), (step2, b) in zip(want, have):
        check(step == step2, "other-step", where, step, step2)
        if a != b:
            pos = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                       min(len(a), len(b)))
            lo = max(0, pos - 120)
            check(False, "result-differs", where, step, "at byte", pos,
                  "was", a[lo:pos + 120], "now", b[lo:pos + 120])
    check(len(want) == len(have), "steps", where, len(want), len(have))


def prepare():
    server.start("C15", ENVS)
    jobs.preload()


def prepare_server():
    jobs.preload()
