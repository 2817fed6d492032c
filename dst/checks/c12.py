"""C12: boundary files made from DMSP daily files.

Seeded daily files (comments, column orders, damage, missing names) are
formatted, alone or right after a simulated fetch, under I/O faults, crashes,
a full disk or interrupts; every output line is compared
with the passes of the plan, placed by an independent calculation.
"""
import datetime as dt
import math
import posixpath

from dst import core, faults, net, seams, simfs, world
from dst.checks import c11
from dst.core import check

RUNS = {"quick": 8000, "thorough": 150000}
BATCH = 40
LEVEL = "exploration"
RULE = ("seeded daily files and requests, 0-3 attempts in trouble and a last "
        "one without; non-trivial if a pass was written")
STATE_MEASURE = ("distinct (kinds of input, passes per output, faults that "
                 "struck, ending) tuples")
REAL = ["ocbpy.boundaries.dmsp_ssj_files", "ocbpy._boundary loading",
        "aacgmv2", "numpy.loadtxt", "zenodo_get", "zipfile"]
STUB = ["requests.get, wget.download, time.sleep (simulated archive)",
        "file system (in memory, with faults)", "clock",
        "aacgmv2's own coefficient files are read from the real disk"]
ASSUMES = ["AACGMV2 coordinates of a place and time are what aacgmv2 says",
           "no daily file is listed twice"]
SHRINK = ["tries", "inputs", "members"]
KINDS = {"errno": 6, "crash": 4, "short_read": 1, "short_write": 1,
         "torn_then_enospc": 2, "vanish": .7}
COLS = (["UTSecond Pass Start", "UTSecond Pass End", "hemisphere", "UTSec EQ1",
         "UTSec PO1", "UTSec PO2", "UTSec EQ2", "FOM"]
        + ["{:s} {:s}".format(kind, pt)
           for kind in ("SC_GEOCENTRIC_LAT", "SC_GEOCENTRIC_LON",
                        "SC_AACGM_LAT", "SC_AACGM_LTIME")
           for pt in ("EQ1", "PO1", "PO2", "EQ2")])
ENDS = {(1, "PO"): "north.ocb", (-1, "PO"): "south.ocb",
        (1, "EQ"): "north.eab", (-1, "EQ"): "south.eab"}


# ------------------------------------------------------------------ the files
def gen_pass(rng, ut0):
    hemi = rng.choice([1, -1])
    ut = [ut0]
    for _ in range(5):
        ut.append(ut[-1] + rng.choice([rng.uniform(20, 300), rng.uniform(.5, 9),
                                       60.0, 1.5]))
    if rng.random() < .03:
        ut = [u + 86400.0 - ut[2] for u in ut]
    digits = rng.choice([1, 3, 3, 17])
    row = {"UTSecond Pass Start": ut[0], "UTSec EQ1": ut[1],
           "UTSec PO1": ut[2], "UTSec PO2": ut[3], "UTSec EQ2": ut[4],
           "UTSecond Pass End": ut[5], "hemisphere": hemi,
           "FOM": rng.choice([rng.uniform(0, 6), 3.0, 0.0, 2.999])}
    for pt in ("EQ1", "PO1", "PO2", "EQ2"):
        row["SC_GEOCENTRIC_LAT " + pt] = hemi * rng.uniform(52, 89)
        row["SC_GEOCENTRIC_LON " + pt] = rng.uniform(
            *rng.choice([(-180, 180), (0, 360)]))
        row["SC_AACGM_LAT " + pt] = hemi * rng.uniform(50, 89)
        row["SC_AACGM_LTIME " + pt] = rng.uniform(0, 24)
    out = {}
    for key, val in row.items():
        if digits == 17:
            out[key] = repr(val)
        else:
            out[key] = "{:.{:d}f}".format(val, digits)
    if rng.random() < .5:
        out["hemisphere"] = str(hemi)
    if rng.random() < .03:
        out["SC_GEOCENTRIC_LAT " + rng.choice(["EQ1", "PO2"])] = "nan"
    return out


def gen_text(rng, kinds):
    """A daily file: its layout, rows and what is wrong with it."""
    kind = core.pick(rng, kinds)
    cols = list(COLS)
    if rng.random() < .3:
        rng.shuffle(cols)
    if rng.random() < .15:
        cols = [c for c in cols if "AACGM" not in c]
    ut0, rows = rng.uniform(0, 30000), []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        rows.append(gen_pass(rng, ut0))
        ut0 += rng.choice([3000, 800, 3050.5])
    if kind == "empty":
        rows = []
    return {"kind": kind, "cols": cols, "rows": rows,
            "at": rng.random(), "comments": rng.choice([0, 1, 2, 12]),
            "sep": rng.choice([",", ",", ",", ", "]),
            "end": rng.choice(["\n", "\n", "\n", "\r\n", ""])}


GOOD = ("good", "empty", "blank", "extra", "nofile", "isdir")
SKIPPED = ("empty", "blank", "extra", "nofile", "isdir")


def text_of(item):
    """Contents of the file, or None if there is none."""
    kind, cols = item["kind"], list(item["cols"])
    if kind in ("nofile", "isdir"):
        return None
    if kind == "blank":
        return ""
    nl = item["end"] or "\n"
    lines = ["# Generated, line {:d}, with commas".format(i)
             for i in range(item["comments"])]
    rows = [[row[c] for c in cols] for row in item["rows"]]
    spot = int(item["at"] * max(1, len(rows)))
    if kind == "extra":
        rows = [row + ["1.0"] for row in rows]
    elif kind == "ragged":
        rows[spot] = rows[spot][:-1] if len(rows) > 1 else ["x"] * len(cols)
    elif kind == "word":
        rows[spot][cols.index("UTSec PO1")] = "bad"
    elif kind == "name":
        cols[cols.index("UTSec PO1")] = "UTSec PO"
    elif kind == "hemi":
        rows[spot][cols.index("hemisphere")] = "0"
    elif kind == "time":
        rows[spot][cols.index("UTSec EQ2")] = "nan"
    lines.append(",".join(cols))
    lines.extend(item["sep"].join(row) for row in rows)
    return nl.join(lines) + (nl if item["end"] else "")


def gen_inputs(rng):
    """Files to be formatted: [[folder, name, item], ...]."""
    kinds = {"good": 20, "empty": 1, "blank": .4, "extra": .7, "nofile": .7,
             "isdir": .2}
    if rng.random() < .12:
        for key in ("ragged", "word", "name", "hemi", "time"):
            kinds[key] = 2
    folders = rng.choice([[""], [""], [""], ["a/"], ["a/", "ab/"],
                          ["", "a/"]])
    day = rng.choice([dt.date(2010, 12, 30), dt.date(2012, 2, 27),
                      dt.date(2014, 12, 28)])
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        name = c11.NAME.format(
            rng.choice([16, 17, 18, 6]), (day + dt.timedelta(
                days=rng.randint(0, 5))).strftime("%Y%m%d"),
            rng.choice(["v1.1.2", "v1.1.2", "v2"]))
        if any(name == o[1] for o in out):
            continue
        out.append([rng.choice(folders), name, gen_text(rng, kinds)])
    if rng.random() < .02:
        out[-1][1] = rng.choice(["dmsp.csv", "dmsp-f16_ssj_b_20101302_v_b.csv",
                                 "dmsp-fx_ssj_b_20101230_v_b.csv"])
    return out


def gen_try(rng):
    how = core.pick(rng, {"io": 6, "full": 1, "line": 1})
    out = {"how": how, "at": rng.random()}
    if how == "io":
        out["faults"] = faults.gen(rng, KINDS, 2)
        for fault in out["faults"]:
            if fault["kind"] == "vanish":
                fault["only"] = ".csv"
    return out


def gen(rng, tier, index):
    plan = {"clock": rng.choice([1.6e9, 1.7e9]) + rng.random() * 1e6,
            "tick": rng.choice([0, .01, 100.0]),
            "block": rng.choice([0, 0, 512]),
            "tries": [gen_try(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
            "alt": rng.choice([830.0, 830.0, 830.0, 110.0, 600]),
            "method": rng.choice([None, None, None, "ALLOWTRACE",
                                  "GEOCENTRIC|ALLOWTRACE", "GEOCENTRIC"]),
            "mem": rng.randrange(1, 1 << 30), "old": rng.random() < .2}
    if rng.random() < .6:
        plan.update(do="format", inputs=gen_inputs(rng), form=rng.choice(
            ["list", "list", "array", "tuple", "str"]),
            dir=rng.choice(["abs", "abs", "rel", "dot"]))
        return plan
    kinds = {"good": 12, "empty": 1, "extra": .5}
    if rng.random() < .15:
        kinds = {"good": 6, "name": 1, "ragged": 1, "time": 1}
    names = c11.gen_members(rng, 6)
    req = c11.gen_request(rng, names)
    req["sats"] = None
    plan.update(do="fetch", names=[[n, gen_text(rng, kinds)] for n in names],
                req=req, deflate=rng.random() < .5, rm=rng.random() < .8,
                others=["README.txt"] if rng.random() < .2 else [],
                first=rng.random() < .5, before=c11.gen_before(rng, names),
                dir=rng.choice(["abs", "abs", "rel", "slash", "dot",
                                "default"]))
    for one in plan["tries"]:
        if rng.random() < .25:
            one.update(how="net", net=[net.gen(rng)])
    return plan


# ----------------------------------------------------------------- the oracle
class Want:
    """What formatting `files` [(path, item)] has to give."""

    def __init__(self, files, alt, method):
        self.files, self.alt = files, alt
        self.method = method or "GEOCENTRIC|ALLOWTRACE"
        self.rows = {}

    def base(self, path):
        return posixpath.basename(path).split("dmsp-f")[-1].split("_")

    def outputs(self, skip=()):
        """Output paths by hemisphere and boundary."""
        paths = [p for p, item in self.files
                 if item["kind"] not in ("nofile", "isdir") and p not in skip]
        folder = paths[0]
        for path in paths[1:]:
            num = 0
            while num < min(len(folder), len(path)) and \
                    folder[num] == path[num]:
                num += 1
            folder = folder[:num]
        folder = folder[:folder.rfind("/") + 1]
        days = [self.base(p)[3] for p in paths]
        last = self.base(paths[-1])
        return {key: "{:s}dmsp-{:s}_{:s}_{:s}_{:s}_{:s}.{:s}".format(
            folder, last[1], end.split(".")[0], min(days), max(days), last[4],
            end.split(".")[1]) for key, end in ENDS.items()}

    def passes(self, path, item):
        """[(hemi, bound, sc, time, numbers)] of one input."""
        if path in self.rows:
            return self.rows[path]
        import aacgmv2
        import numpy as np
        out = []
        base = self.base(path)
        if item["kind"] == "good":
            day = dt.datetime.strptime(base[3], "%Y%m%d")
            for row in item["rows"]:
                val = {k: float(v) for k, v in row.items()}
                for bound in ("PO", "EQ"):
                    time = day + dt.timedelta(seconds=.5 * (
                        val["UTSec {:s}1".format(bound)]
                        + val["UTSec {:s}2".format(bound)]))
                    mlat, _, mlt = aacgmv2.get_aacgm_coord_arr(
                        np.array([val["SC_GEOCENTRIC_LAT {:s}{:d}".format(
                            bound, i)] for i in (1, 2)]),
                        np.array([val["SC_GEOCENTRIC_LON {:s}{:d}".format(
                            bound, i)] for i in (1, 2)]),
                        self.alt, time, method=self.method)
                    pts = []
                    for lat, hour in zip(mlat, mlt):
                        ang = math.radians((float(hour) - 6.0) * 15.0)
                        pts.append(((90.0 - abs(float(lat))) * math.cos(ang),
                                    (90.0 - abs(float(lat))) * math.sin(ang)))
                    (x1, y1), (x2, y2) = pts
                    out.append((int(val["hemisphere"]), bound, int(base[0]),
                                time, [math.hypot(x1 - x2, y1 - y2) / 2,
                                       (x1 + x2) / 2, (y1 + y2) / 2,
                                       val["FOM"], x1, y1, x2, y2]))
        self.rows[path] = out
        return out

    def expected(self, skip=()):
        out = {key: [] for key in ENDS}
        for path, item in self.files:
            if path not in skip:
                for row in self.passes(path, item):
                    out[row[:2]].append(row[2:])
        return out

    def fails(self):
        """Whether formatting has to raise."""
        if all(i["kind"] in ("nofile", "isdir") for _, i in self.files):
            return True
        for path, item in self.files:
            if item["kind"] not in GOOD:
                return True
            base = self.base(path)
            if item["kind"] in ("nofile", "isdir"):
                continue
            try:
                int(base[0])
                dt.datetime.strptime(base[3], "%Y%m%d")
                base[4]
            except (IndexError, ValueError):
                return True
        return False


def parse_output(data):
    """Rows of an output file, or a string saying what is wrong."""
    if data is None:
        return "missing"
    lines = data.decode().split("\n")
    if lines[0] != "#sc date time r x y fom x_1 y_1 x_2 y_2":
        return "header " + lines[0]
    if lines[-1] != "":
        return "last line unfinished"
    out = []
    for line in lines[1:-1]:
        tok = line.split()
        if len(tok) != 11:
            return "line " + line
        try:
            out.append((int(tok[0]), dt.datetime.strptime(
                tok[1] + " " + tok[2], "%Y-%m-%d %H:%M:%S"),
                [float(t) for t in tok[3:]]))
        except ValueError:
            return "line " + line
    return out


def near(got, want):
    if math.isnan(want):
        return math.isnan(got)
    return abs(got - want) <= .0011


def wrong(got, want):
    """What is wrong with the rows `got`, or None."""
    if isinstance(got, str):
        return got
    if len(got) != len(want):
        return "{:d} passes, want {:d}".format(len(got), len(want))
    for one, two in zip(got, want):
        if one[0] != two[0] or abs((one[1] - two[1]).total_seconds()) >= 1.0:
            return "spacecraft or time {:} want {:}".format(one[:2], two[:2])
        if not all(near(a, b) for a, b in zip(one[2], two[2])):
            return "numbers {:} want {:}".format(one, two)
    return None


class Judge:
    def __init__(self, plan, fs, want, real_of):
        self.plan, self.fs, self.want, self.real_of = plan, fs, want, real_of
        self.log = None

    def skipped(self):
        text = "\n".join(self.log.warnings())
        return [p for p, _ in self.want.files if p in text]

    def problem(self):
        """What is wrong with the outputs right now, or None."""
        skip = [p for p in self.skipped()]
        usable = [p for p, i in self.want.files if p not in skip
                  and i["kind"] not in ("nofile", "isdir")]
        late = [p for p, i in self.want.files if i["kind"] in SKIPPED
                and i["kind"] not in ("nofile", "isdir") and p in skip]
        if not usable and not late:
            return "nothing usable"
        rows = self.want.expected(skip)
        names = self.want.outputs(self.gone(skip))
        for key, path in names.items():
            bad = wrong(parse_output(self.fs.get(self.real_of(path))),
                        rows[key])
            if bad:
                return "{:s} {:}".format(path, bad)
        return None

    def gone(self, skip):
        """Inputs that were logged because they could not be found."""
        text = [m for m in self.log.warnings() if m.startswith("bad input")]
        return [p for p in skip if any(p in m for m in text)]


# -------------------------------------------------------------------- running
def run(plan):
    return {"format": run_format, "fetch": run_fetch}[plan["do"]](plan)


def attempts(plan, fs, cwd, work, files, judge, ok, rest, stats):
    """A quiet first call, the troubled ones, and a last quiet one."""
    dig, fired, counts = stats
    start = {p: (bytes(n.data), n.isdir) for p, n in fs.nodes.items()}
    steps = seams.Steps(5000000)
    lines = events = 0
    wrote = False
    for num, trouble in enumerate([None] + plan["tries"] + [None]):
        where = "attempt {:d} {:}".format(num, trouble)
        how = trouble["how"] if trouble else None
        if how == "io":
            fs.faults = faults.place(trouble["faults"], events)
        if how == "full":
            fs.capacity = fs.used() + int(trouble["at"] * rest["size"])
        steps = seams.Steps(5000000) if how != "line" else seams.Steps(
            5000000, trip_at=1 + int(trouble["at"] * lines))
        mem = seams.Memory(plan["mem"], 1)
        before = fs.snapshot()
        judge.log = seams.LogTrap()
        with judge.log, mem:
            out, error, hit, seen = c11.attempt(
                plan, fs, cwd, work, files, trouble, steps, fired)
        if num == 0:
            lines, events = steps.used, seen
        counts["attempts"] += 1
        clean = not hit and how in (None, "io", "net")
        if error is None:
            ok(out, before, where)
            wrote = True
        else:
            rest["failed"](before, where)
        if clean:
            check((error is not None) == rest["fails"],
                  "refused" if error else "not-refused", where, error)
            if error is None:
                rest["plain"](where)
        dig.add(error, sorted(fs.snapshot().items()))
        dig.state(plan["do"], how, hit, error, rest["kinds"],
                  sorted(len(judge.want.expected()[k]) for k in ENDS)
                  if not rest["fails"] else None)
        if num == 0 and plan["tries"]:
            c11.reset(fs, start)
    return wrote


def run_format(plan):
    from ocbpy.boundaries import dmsp_ssj_files
    import numpy as np
    dig, fired, counts = core.Digest(), {}, {"attempts": 0}
    fs = simfs.SimFS(block=plan["block"])
    home = "/vsim/work/out"
    pre = {"abs": home + "/", "rel": "out/", "dot": ""}[plan["dir"]]
    cwd = home if plan["dir"] == "dot" else "/vsim/work"
    fs.mkdirs(home)

    def real_of(path):
        return posixpath.normpath(posixpath.join(cwd, path))

    files = []
    for folder, name, item in plan["inputs"]:
        path = pre + folder + name
        fs.mkdirs(home + "/" + folder.rstrip("/"))
        files.append((path, item))
        text = text_of(item)
        if item["kind"] == "isdir":
            fs.mkdirs(real_of(path))
        elif text is not None:
            fs.put(real_of(path), text)
    form = plan["form"]
    if form == "str" and len(files) > 1:
        form = "list"
    want = Want(files, plan["alt"], plan["method"])
    if plan["old"] and not want.fails():
        fs.put(real_of(want.outputs()[(1, "PO")]), "old\n" * 200)
    judge = Judge(plan, fs, want, real_of)
    todo = [p for p, _ in files]
    arg = {"list": list, "tuple": tuple, "array": np.array,
           "str": lambda t: t[0]}[form](todo)
    kwargs = {} if plan["method"] is None else {"method": plan["method"]}
    if plan["alt"] != 830.0:
        kwargs["ref_alt"] = plan["alt"]
    inputs = set(real_of(p) for p in todo)

    def work():
        return dmsp_ssj_files.format_ssj_boundary_files(arg, **kwargs)

    def ok(out, before, where):
        bad = judge.problem()
        check(bad is None, "outputs", where, bad)
        skip = judge.gone(judge.skipped())
        names = want.outputs(skip)
        check(sorted(out) == sorted(names.values()), "returned", where, out,
              "want", sorted(names.values()))
        after = fs.snapshot()
        for path in set(before) | set(after):
            if path not in [real_of(n) for n in names.values()] and not any(
                    "vanish" in k for k in fired):
                check(before.get(path) == after.get(path), "other-file", where,
                      path)

    def failed(before, where):
        after = fs.snapshot()
        for path in before:
            if path in inputs and not any("vanish" in k for k in fired):
                check(before[path] == after.get(path), "input-changed", where,
                      path)

    def plain(where):
        skip = judge.skipped()
        check(skip == [p for p, i in files if i["kind"] in SKIPPED], "logged",
              where, skip)
        load_back(fs, judge, where, counts)

    def put_back():
        for path, item in files:
            text = text_of(item)
            if text is not None:
                fs.put(real_of(path), text)

    def again():
        put_back()
        return work()
    rest = {"fails": want.fails(), "plain": plain, "failed": failed,
            "kinds": sorted(set(i["kind"] for _, i in files)),
            "size": 100 * sum(len(i["rows"]) for _, i in files) * 3}
    with fs, seams.Clock(plan["clock"], plan["tick"]):
        if any(f["kind"] == "vanish" for t in plan["tries"]
               for f in t.get("faults", [])):
            work_now = again
        else:
            work_now = work
        wrote = attempts(plan, fs, cwd, work_now, [], judge, ok, rest,
                         (dig, fired, counts))
    return {"digest": dig.hex(), "nontrivial": wrote, "states": dig.states,
            "counts": counts, "fired": fired}


def load_back(fs, judge, where, counts):
    """The outputs hold the same boundaries for those who load them."""
    import ocbpy
    rows = judge.want.expected(judge.skipped())
    names = judge.want.outputs(judge.gone(judge.skipped()))
    quiet, fs.quiet = fs.quiet, True
    try:
        for (hemi, bound), path in sorted(names.items()):
            want = rows[(hemi, bound)]
            cls = ocbpy.OCBoundary if bound == "PO" else ocbpy.EABoundary
            obj = cls(filename=judge.real_of(path), instrument="dmsp-ssj",
                      hemisphere=hemi)
            here = "{:s} loading {:s}".format(where, path)
            check(obj.records == len(want), "loaded-records", here,
                  obj.records, "want", len(want))
            counts["loaded"] = counts.get("loaded", 0) + obj.records
            for i, (_, time, num) in enumerate(want):
                got = obj.dtime[i]
                check(abs((got - time).total_seconds()) < 1.0, "loaded-time",
                      here, i, got, "want", time)
                check(near(obj.r[i], num[0]) and near(obj.fom[i], num[3]),
                      "loaded-values", here, i, obj.r[i], obj.fom[i], "want",
                      num)
                rad = math.hypot(num[1], num[2])
                check(near(obj.r_cent[i], rad), "loaded-centre", here, i,
                      obj.r_cent[i], "want", rad)
                if rad > 1.0 and not math.isnan(rad):
                    # Angle from midnight towards dawn
                    ang = math.degrees(math.atan2(num[2], num[1])) + 90.0
                    off = (obj.phi_cent[i] - ang + 180.0) % 360.0 - 180.0
                    check(abs(off) < .2, "loaded-centre", here, i,
                          obj.phi_cent[i], "want", ang)
    finally:
        fs.quiet = quiet


def run_fetch(plan):
    from ocbpy.boundaries import dmsp_ssj_files
    dig, fired, counts = core.Digest(), {}, {"attempts": 0}
    items = {n: i for n, i in plan["names"]}
    plan = dict(plan, members=[[n, text_of(i)] for n, i in plan["names"]])
    fs, home, arg, cwd, real = c11.world_of(plan)
    archive = c11.bytes_of(plan)
    c11.fill(plan, fs, home, archive)
    names = c11.wanted(plan)
    base = real if arg is None else arg
    if arg is None or plan["dir"] == "abs":
        pre = base + "/"
    else:
        pre = base if base.endswith("/") else base + "/"

    def real_of(path):
        return fs.resolve(posixpath.normpath(posixpath.join(cwd, path)))

    # zipfile may normalise the folder of a member
    whole = plan["req"]["s"] is None and plan["req"]["e"] is None
    if not whole:
        pre = posixpath.normpath(pre)
        pre = "" if pre == "." else pre + "/"
    files = [(pre + n, items[n]) for n in names]
    want = Want(files, plan["alt"], plan["method"])
    judge = Judge(plan, fs, want, real_of)
    fails = not names or want.fails()
    mine = set(real_of(p) for p, _ in files)
    outs = [] if fails else [real_of(p) for p in want.outputs().values()]
    kwargs = {} if plan["method"] is None else {"method": plan["method"]}
    if plan["alt"] != 830.0:
        kwargs["ref_alt"] = plan["alt"]
    lim = c11.parse(plan["req"])
    if plan["old"] and outs:
        fs.put(outs[0], "old\n" * 200)

    def removing(path):
        if path in mine:
            bad = "nothing to write" if fails else judge.problem()
            check(bad is None, "unprocessed-removed", path, bad)

    def work():
        fs.on_remove = removing
        try:
            return dmsp_ssj_files.fetch_format_ssj_boundary_files(
                lim["s"], lim["e"], out_dir=arg, rm_temp=plan["rm"], **kwargs)
        finally:
            fs.on_remove = None

    def ok(out, before, where):
        bad = judge.problem()
        check(bad is None, "outputs", where, bad)
        for path in out:
            check(fs.get(real_of(path)) is not None, "returned", where, path)
        after = fs.snapshot()
        odd = set()
        vanished = any("vanish" in k for k in fired)
        for path in list(after) + list(before):
            if path in mine:
                if vanished:
                    continue
                if plan["rm"]:
                    check(path not in after, "daily-file-left", where, path)
                else:
                    check(path in after, "daily-file-removed", where, path)
            elif path in (home + "/" + c11.ZIP, home + "/md5sums.txt"):
                if plan["rm"]:
                    check(path not in after, "download-left", where, path)
            elif c11.TEMP.search(path) or path in [real_of(p) for p in out]:
                continue
            elif posixpath.basename(path) in plan["others"]:
                continue
            elif before.get(path) != after.get(path):
                odd.add(path)
        check(not odd or vanished, "other-file", where, sorted(odd))
        check(plan["rm"] or vanished or home + "/" + c11.ZIP in after,
              "archive-removed", where)
        check(len(out) == 4, "returned", where, out)

    def failed(before, where):
        pass

    def plain(where):
        skip = judge.skipped()
        check(skip == [p for p, i in files if i["kind"] in SKIPPED], "logged",
              where, skip)
        check(all(fs.get(p) is not None for p in outs), "outputs", where, outs)
        load_back(fs, judge, where, counts)

    rest = {"fails": fails, "plain": plain, "failed": failed,
            "kinds": sorted(set(i["kind"] for _, i in files)),
            "size": sum(len(t) for _, t in plan["members"]) * 2}
    with fs, seams.Clock(plan["clock"], plan["tick"]):
        wrote = attempts(plan, fs, cwd, work, archive, judge, ok, rest,
                         (dig, fired, counts))
    return {"digest": dig.hex(), "nontrivial": wrote, "states": dig.states,
            "counts": counts, "fired": fired}
