"""C11: fetching the DMSP boundary archive.

The real zenodo_get and zipfile run against a simulated archive and disk.
Attempts under network faults, I/O faults, crashes, a full disk, damaged
archives or interrupts follow each other in one directory; a last one without
faults must succeed.  Whenever a fetch returns, the directory must hold exactly
the requested members.
"""
import datetime as dt
import re
import sys

from dst import core, faults, net, seams, simfs, world
from dst.core import check

RUNS = {"quick": 20000, "thorough": 400000}
BATCH = 50
LEVEL = "exploration"
RULE = ("seeded archives and requests, 0-3 attempts in trouble and a last one "
        "without; non-trivial if a fault struck or some members were not "
        "requested")
STATE_MEASURE = ("distinct (request form, members wanted, faults that struck, "
                 "ending) tuples")
REAL = ["ocbpy.boundaries.dmsp_ssj_files.fetch_ssj_boundary_files",
        "zenodo_get", "zipfile", "hashlib"]
STUB = ["requests.get, wget.download, time.sleep (simulated archive)",
        "file system (in memory, with faults)", "clock"]
ASSUMES = ["the record holds one zip archive, perhaps with other files",
           "the system clock is past the last date in the archive"]
SHRINK = ["tries", "members"]
KINDS = {"errno": 6, "crash": 5, "short_read": 1, "short_write": 1,
         "torn_then_enospc": 2}
ZIP = "dmsp_ssj_boundaries_v1.1.2.zip"
TEMP = re.compile(r"x[0-9]+\.tmp$| \([0-9]+\)(\.[a-z]+)?$")
NAME = "dmsp-f{:d}_ssj_precipitating-electrons-ions_{:s}_{:s}_boundaries.csv"


def gen_members(rng, most=8):
    day = rng.choice([dt.date(2010, 12, 30), dt.date(2012, 2, 27),
                      dt.date(2014, 12, 28), dt.date(2011, 6, 1)])
    names = []
    for _ in range(rng.choice([1, 2, 3, 5, most])):
        sat = rng.choice([16, 16, 17, 18])
        when = day + dt.timedelta(days=rng.randint(0, 4))
        name = NAME.format(sat, when.strftime("%Y%m%d"), "v1.1.2")
        if name not in names:
            names.append(name)
    return names


def gen_request(rng, names):
    days = [dt.datetime.strptime(n.split("_")[3], "%Y%m%d") for n in names]

    def when():
        if rng.random() < .3:
            return None
        out = rng.choice(days) + dt.timedelta(days=rng.choice([0, 0, 1, -1]))
        if rng.random() < .25:
            out += dt.timedelta(seconds=rng.choice([1, 43200, 86399]))
        return world.stamp(out)
    req = {"s": when(), "e": when(),
           "sats": rng.choice([None, None, None, [16], [17], [16, 18], [],
                               [18, 17, 16]])}
    if rng.random() < .25:
        req["s"] = req["e"] = None
    if rng.random() < .04:
        req["sats"] = rng.choice([[15], [16, 19]])
    return req


def gen(rng, tier, index):
    names = gen_members(rng)
    plan = {"members": [[n, "# {:s}\n".format(n) + "1,2,3\n" * rng.choice(
        [0, 1, 5, 40, 3000])] for n in names],
        "req": gen_request(rng, names), "deflate": rng.random() < .7,
        "others": [n for n in ["README.txt", "LICENSE"]
                   if rng.random() < .25],
        "first": rng.random() < .5, "rm": rng.random() < .75,
        "dir": rng.choice(["abs", "abs", "rel", "slash", "dot", "default"]),
        "clock": rng.choice([1.6e9, 1.7e9, 4e9]) + rng.random() * 1e6,
        "tick": rng.choice([0, 0.01, 100.0]), "before": gen_before(rng, names),
        "tries": [gen_try(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))],
        "block": rng.choice([0, 0, 512])}
    return plan


def gen_before(rng, names):
    """What is in the directory already."""
    out = []
    for what in ("old", "zip", "badzip", "md5", "dir", "mine"):
        if rng.random() < .12:
            out.append(what)
    return out


def gen_try(rng):
    how = core.pick(rng, {"net": 4, "io": 5, "full": 1, "damage": 1.2,
                          "line": 1.2, "both": 1, "nodir": .2})
    out = {"how": how, "at": rng.random()}
    if how in ("net", "both"):
        out["net"] = [net.gen(rng) for _ in range(rng.choice([1, 1, 2]))]
    if how in ("io", "both"):
        out["faults"] = faults.gen(rng, KINDS, 2)
    if how == "damage":
        out["damage"] = [rng.choice(["notzip", "short", "byte", "byte"]),
                         rng.random()]
    return out


def parse(req):
    return {k: None if req[k] is None else world.when(req[k]) for k in "se"}


def wanted(plan):
    """Names of the members a fetch returns, or None if it is refused."""
    req = plan["req"]
    if req["sats"] is not None and any(s not in (16, 17, 18)
                                       for s in req["sats"]):
        return None
    lim = parse(req)
    out = []
    for name, _ in plan["members"]:
        day = dt.datetime.strptime(name.split("_")[3], "%Y%m%d")
        sat = int(name[6:8])
        if (req["sats"] is None or sat in req["sats"]) and (
                lim["s"] is None or day >= lim["s"]) and (
                    lim["e"] is None or day < lim["e"]):
            out.append(name)
    return out


def world_of(plan, mounts=True):
    import ocbpy.boundaries
    import os
    real = os.path.dirname(os.path.realpath(ocbpy.boundaries.__file__))
    fs = simfs.SimFS(block=plan["block"], mounts=[(real, "/vsim/b")])
    home = {"default": "/vsim/b"}.get(plan["dir"], "/vsim/work/out")
    fs.mkdirs("/vsim/work/out")
    arg = {"abs": "/vsim/work/out", "rel": "out", "slash": "/vsim/work/out/",
           "dot": ".", "default": None}[plan["dir"]]
    cwd = "/vsim/work/out" if plan["dir"] == "dot" else "/vsim/work"
    return fs, home, arg, cwd, real


def bytes_of(plan, damage=None):
    files = [(ZIP, net.pack(plan["members"], plan["deflate"], damage))]
    for name in plan["others"]:
        files.append((name, name.encode() * 30))
    if plan["first"]:
        files = files[::-1]
    return files


def fill(plan, fs, home, files):
    before = plan["before"]
    if "old" in before:
        fs.put(home + "/" + plan["members"][0][0], "an older version\n")
    if "zip" in before:
        fs.put(home + "/" + ZIP, dict(files)[ZIP])
    elif "badzip" in before:
        fs.put(home + "/" + ZIP, dict(files)[ZIP][:40])
    if "md5" in before:
        fs.put(home + "/md5sums.txt", "0  old\n")
    if "mine" in before:
        fs.put(home + "/mine.txt", "my own file\n")
        fs.put("/vsim/work/mine.txt", "my other file\n")


def call(plan, arg):
    from ocbpy.boundaries import dmsp_ssj_files
    lim = parse(plan["req"])
    sats = plan["req"]["sats"]
    return dmsp_ssj_files.fetch_ssj_boundary_files(
        lim["s"], lim["e"], out_dir=arg, sat_nums=sats, rm_temp=plan["rm"])


def attempt(plan, fs, cwd, work, files, trouble, steps, fired):
    """One fetch; returns (result, exception name, whether it crashed)."""
    fs.cwd = cwd
    fs.events, fs.op_counts, fs.fired = 0, {}, {}
    streams = sys.stdout, sys.stderr
    out, error, crash = None, None, False
    wire = net.Net(fs, files, faults=(trouble or {}).get("net", ()))
    try:
        with wire, steps:
            out = work()
    except (core.Violation, seams.HarnessError):
        raise
    except (Exception, SystemExit, seams.SimInterrupt, seams.SimCrash) as err:
        if isinstance(err, SystemExit):
            check(False, "exit", "the interpreter would exit", err)
        error, crash = type(err).__name__, isinstance(err, seams.SimCrash)
    same = (sys.stdout, sys.stderr) == streams
    sys.stdout, sys.stderr = streams
    line = trouble is not None and trouble["how"] == "line"
    if not line:
        check(same, "streams-kept", trouble, error)
        check(crash or fs.cwd == cwd, "directory-kept", trouble, error)
    faults.tally(fs, fired)
    for key, num in wire.fired.items():
        fired[key] = fired.get(key, 0) + num
    if line:
        if steps.tripped:
            fired["interrupt"] = fired.get("interrupt", 0) + 1
        fs.handles.clear()
        del fs.leaks[:]
    elif not crash:
        faults.closed(fs, trouble)
    hit = sorted(set(fs.fired) | set(wire.fired))
    events = fs.events
    fs.faults, fs.capacity, fs.fired = [], None, {}
    if crash:
        fs.revive()
    return out, error, hit, events


def judge(plan, fs, home, arg, real, out, before, where):
    """A fetch returned: it must have done all of its work."""
    names = wanted(plan)
    check(names is not None, "not-refused", where)
    base = real if arg is None else arg
    paths = [(base if base.endswith("/") else base + "/") + n for n in names]
    check([_norm(p) for p in out] == [_norm(p) for p in paths], "result",
          where, out, "want", paths)
    text = dict(plan["members"])
    want = {p: d for p, d in before.items()}
    for name in names:
        got = fs.get(home + "/" + name)
        check(got == text[name].encode(), "member-contents", where, name, got,
              "want", text[name])
        want[home + "/" + name] = text[name].encode()
    for name in plan["others"]:
        want[home + "/" + name] = name.encode() * 30
    now = fs.snapshot()
    zpath, mpath = home + "/" + ZIP, home + "/md5sums.txt"
    if plan["rm"]:
        check(zpath not in now, "archive-left", where)
        check(mpath not in now, "checksums-left", where)
    else:
        check(zpath in now, "archive-removed", where)
    # Temporary names of the downloader are its own business
    for path in set(want) | set(now):
        if path in (zpath, mpath) or TEMP.search(path):
            want.pop(path, None)
            now.pop(path, None)
    check(now == want, "files", where, sorted(set(now) ^ set(want)) or
          [p for p in now if now[p] != want[p]])


def _norm(path):
    import posixpath
    return posixpath.normpath(path)


def run(plan):
    dig = core.Digest()
    fired, counts = {}, {"attempts": 0}
    good = bytes_of(plan)
    names = wanted(plan)
    fs, home, arg, cwd, real = world_of(plan)
    fill(plan, fs, home, good)
    hitany = False
    req = plan["req"]
    with fs, seams.LogTrap(), seams.Clock(plan["clock"], plan["tick"]):
        def work():
            return call(plan, arg)
        # How many events there are for faults to strike
        start = dict(fs.nodes)
        start = {p: (bytes(n.data), n.isdir) for p, n in start.items()}
        steps = seams.Steps(2000000)
        out, error, hit, events = attempt(plan, fs, cwd, work, good, None,
                                          steps, fired)
        lines = steps.used
        finish(plan, fs, home, arg, real, out, error, {
            p: d for p, (d, isdir) in start.items() if not isdir}, "plain")
        dig.add(error, sorted(fs.snapshot().items()))
        reset(fs, start)
        for num, trouble in enumerate(plan["tries"]):
            where = "attempt {:d} {:s}".format(num, str(trouble))
            files, bad = good, set()
            if trouble["how"] == "damage":
                files = bytes_of(plan, trouble["damage"])
                bad = net.damaged(plan["members"], plan["deflate"],
                                  trouble["damage"])
            fs.faults = faults.place(trouble.get("faults", []), events)
            if trouble["how"] == "full":
                fs.capacity = fs.used() + int(trouble["at"] * 1.2 * sum(
                    len(d) for _, d in files))
            steps = seams.Steps(2000000) if trouble["how"] != "line" else \
                seams.Steps(2000000, trip_at=1 + int(trouble["at"] * lines))
            before = fs.snapshot()
            todo = work
            if trouble["how"] == "nodir":
                def todo():
                    return call(plan, "/vsim/none")
            out, error, hit, _ = attempt(plan, fs, cwd, todo, files, trouble,
                                         steps, fired)
            counts["attempts"] += 1
            hitany |= bool(hit) or error is not None
            if trouble["how"] == "nodir":
                check(error is not None, "not-refused", where)
            if error is None:
                if trouble["how"] == "damage":
                    must = bad is None or any(n in bad for n in names)
                    check(not must, "damage-ignored", where, out)
                judge(plan, fs, home, arg, real, out, before, where)
            dig.add(error, sorted(fs.snapshot().items()))
            dig.state(trouble["how"], hit, error, req["sats"],
                      (req["s"] is None, req["e"] is None), plan["before"])
        before = fs.snapshot()
        out, error, _, _ = attempt(plan, fs, cwd, work, good, None,
                                   seams.Steps(2000000), fired)
        finish(plan, fs, home, arg, real, out, error, before, "retry")
        dig.add(sorted(fs.snapshot().items()))
        dig.state("last", len(names or []), len(plan["members"]), req["sats"],
                  (req["s"] is None, req["e"] is None), plan["dir"])
    return {"digest": dig.hex(), "nontrivial": hitany or (
        names is not None and 0 < len(names) < len(plan["members"])),
        "states": dig.states, "counts": counts, "fired": fired}


def reset(fs, start):
    fs.nodes.clear()
    for path, (data, isdir) in start.items():
        fs.nodes[path] = simfs.Node(data, isdir)


def finish(plan, fs, home, arg, real, out, error, before, where):
    """A fetch without any trouble."""
    if wanted(plan) is None:
        check(error == "ValueError", "not-refused", where, error)
        check(fs.snapshot() == before, "refused-but-stored", where)
        return
    check(error is None, "failed-without-fault", where, error)
    judge(plan, fs, home, arg, real, out, before, where)
