"""C16: storage errors surface, files are closed, others stay as they are.

Seeded work runs once without faults, then again and again with errors at
seeded steps of its I/O: an error in a step must end it with an exception (or
as documented), whatever finishes must have finished with the right result and
files, every file must be closed without the garbage collector's help, and the
files it only reads or has nothing to do with must keep their contents.  A
last run without faults, on what the failures left behind, must give the right
result again.
"""
import json
import os
import random

from dst import core, faults, jobs, seams, simfs
from dst.checks.c11 import TEMP
from dst.core import check

RUNS = {"quick": 8000, "thorough": 80000}
BATCH = 40
LEVEL = "exploration"
RULE = ("one seeded piece of work, run without faults, 4 times under faults "
        "and once more without; non-trivial if a fault struck")
STATE_MEASURE = ("distinct (kind of work, kind of fault and I/O operation it "
                 "struck, how the work ended) tuples")
REAL = ["all file-using entry points of ocbpy", "numpy.loadtxt/genfromtxt",
        "zipfile", "zenodo_get"]
STUB = ["file system (in memory, with faults)", "Zenodo", "clock",
        "ocbpy log handler"]
SHRINK = ["tries", "work.ops", "work.series.rows", "work.conv.obs.blocks",
          "work.inputs", "tries.*.faults"]
KINDS = {"session": 3, "smag": 2, "vort": 2, "ascii": 2, "format": 2,
         "fetch": 1.2, "daily": 1.2, "default": .6, "read": 3}
FAULTS = {"errno": 8, "short_read": .7, "short_write": .7,
          "torn_then_enospc": 1.5}
FREE = ("stat",)


def gen(rng, tier, index):
    plan = {"work": jobs.gen(rng, None, KINDS),
            "block": rng.choice([0, 0, 16, 64, 300]),
            "max_read": rng.choice([0, 0, 0, 1, 64]),
            "list": rng.getrandbits(30), "tries": []}
    for _ in range(4):
        if rng.random() < .12:
            plan["tries"].append({"room": rng.random()})
        else:
            plan["tries"].append({"faults": faults.gen(rng, FAULTS, 2)})
    return plan


def perform(work, fs, home):
    """Outcomes of the work; everything it opens is closed afterwards."""
    out = []
    with seams.LogTrap() as trap:
        jobs.script(work, fs, home,
                    lambda step, got: out.append([step, got])
                    if step not in ("output", "outputs") else None)
    return out, trap.lines


BYSTANDERS = {"in.txt.bak": "1 2\n", "x.ocb": "3 4\n", "o.txt": "mine\n",
              "out/p.txt": "mine too\n", "out/q.csv": "a,b\n1,2\n"}


def run(plan):
    import ocbpy
    real = os.path.dirname(os.path.realpath(ocbpy.boundaries.__file__))
    work, home = plan["work"], "/vsim/t"
    fs = simfs.SimFS(mounts=[(real, "/vsim/b")], block=plan["block"],
                     max_read=plan["max_read"],
                     shuffle=random.Random(plan["list"]))
    for name in ("image_north_a.ocb", "amp_south_b.ocb", "wic_north_c.eab",
                 "dmsp-ssj_north_20100101_20110101_v1.ocb"):
        fs.put("/vsim/b/" + name, "x\n")
    for name, text in BYSTANDERS.items():
        fs.put(home + "/" + name, text)
    dig, fired = core.Digest(), {}
    struck = 0
    with fs, seams.Clock(1.6e9), seams.Steps(5000000):
        begin = fs.snapshot()
        base, said = perform(work, fs, home)
        faults.closed(fs, "no faults")
        clean = fs.snapshot()
        kept = {p: d for p, d in begin.items() if clean.get(p) == d}
        events = fs.events
        size = sum(map(len, clean.values())) - sum(map(len, begin.values()))
        shared = work["job"] in ("default",)
        dig.add([[s, core.canon(o)] for s, o in base],
                sorted(clean.items()))
        for num, trouble in enumerate(plan["tries"]):
            reset(fs, begin)
            fs.faults = faults.place(trouble.get("faults", []), events)
            if "room" in trouble:
                fs.capacity = fs.used() + int(
                    trouble["room"] * max(1, size))
            got, lines = perform(work, fs, home)
            hit, fs.faults, fs.capacity = dict(fs.fired), [], None
            faults.tally(fs, fired)
            where = "{:s} {:s}".format(work["job"], json.dumps(
                trouble, sort_keys=True))
            faults.closed(fs, where)
            struck += bool(hit)
            end = judge(plan, base, got, said, lines, hit, where)
            now = fs.snapshot()
            for path in kept:
                check(now.get(path) == kept[path], "bystander", where, path,
                      now.get(path), "was", kept[path])
            if end == "same":
                settle(clean, now, where)
            for path in set(now) - set(clean):
                check(work["job"] in ("fetch", "daily") or any(
                    k.endswith(FREE) for k in hit), "stray-file", where, path)
            dig.add(sorted(hit), end, sorted(now.items()))
            dig.state(work["job"], sorted(hit), end)
            # Once more, on what that left behind
            fs.fired, fs.events, fs.op_counts = {}, 0, {}
            if num == len(plan["tries"]) - 1 and not shared:
                again, _ = perform(work, fs, home)
                faults.closed(fs, where + ", again")
                compare(base, again, where + ", again")
                settle(clean, {p: d for p, d in fs.snapshot().items()
                               if p in clean or p not in now},
                       where + ", again")
    return {"digest": dig.hex(), "nontrivial": struck > 0, "states":
            dig.states, "fired": fired, "counts": {"events": events}}


def reset(fs, start):
    fs.nodes = {p: n for p, n in fs.nodes.items() if n.isdir}
    for path, data in start.items():
        fs.nodes[path] = simfs.Node(data)
    fs.fired, fs.events, fs.op_counts = {}, 0, {}


def settle(clean, now, where):
    for path in sorted(set(clean) | set(now)):
        if TEMP.search(path):
            # Left by the downloader, under names of its own
            continue
        check(now.get(path) == clean.get(path), "files", where, path,
              now.get(path), "want", clean.get(path))


def compare(base, got, where):
    for (step, want), (step2, have) in zip(base, got):
        check(step == step2 and core.canon(want) == core.canon(have),
              "result-differs", where, step, have, "want", want)
    check(len(base) == len(got), "steps", where)


def judge(plan, base, got, said, lines, hit, where):
    """How the work ended under faults: 'same', 'raised', 'logged' or 'unseen'."""
    hard = [k for k in hit if not k.startswith(("short_", "disk_full"))
            and not k.endswith(FREE + ("mkdir",))]
    unseen = any(k.endswith(FREE) for k in hit) and any(
        line not in said for line in lines
        if line[0] != "DEBUG")
    for (step, want), (step2, have) in zip(base, got):
        check(step == step2, "other-step", where, step, step2)
        if unseen and have[0] == "ok" and empty(plan["work"], step, have):
            # A file that cannot be seen is reported and gives nothing
            return "logged"
        if core.canon(want) == core.canon(have):
            continue
        if have[0] == "raised":
            return "raised"
        if plan["work"]["job"] == "default" and any(
                k.endswith(FREE) for k in hit):
            # A file that cannot be seen is no candidate
            return "unseen"
        check(False, "unreported", where, step, have, "want", want,
              "after", sorted(hit), "log", lines)
    check(len(base) == len(got), "steps", where)
    check(not hard, "swallowed", where, hard)
    return "logged" if unseen else "same"


def empty(work, step, have):
    """Whether a step gave what it gives for a file that is not there."""
    if step == "load" and work["job"] in ("session", "smag", "vort"):
        return have[1] == [0]
    if step == "load":
        return not have[1][1]
    if step == "read":
        return have[1][1] is None or not have[1][1]
    # The other input files are formatted; C12 checks how
    return step in ("format", "daily")


def prepare():
    jobs.preload(kinds=KINDS)
