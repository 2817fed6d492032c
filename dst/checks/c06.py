"""C06: loading boundary files.

A boundary file in one of the three layouts or a custom column list, with
seeded contents, spelling, window and file state, is loaded several times in a
row: without faults, under I/O faults at seeded events, and again afterwards.
Loaded objects load again, other periods and other files, at times under faults.
A load gives exactly the model's records, or raises, or (only where the file
could not even be examined) gives a boundary without file and records.
"""
import datetime as dt
import math

import numpy as np

from dst import core, faults, seams, simfs, world
from dst.core import check

RUNS = {"quick": 16000, "thorough": 200000}
BATCH = 120
LEVEL = "exploration"
RULE = ("seeded files (1-60 records) with windows, spellings, states and 0-3 "
        "faults; non-trivial if records were loaded and some line was outside "
        "the window or a fault fired")
STATE_MEASURE = ("distinct (layout, window kind, file state, fault kind and "
                 "operation, outcome) tuples")
REAL = ["ocbpy.OCBoundary/EABoundary/DualBoundary constructors and load",
        "ocbpy.instruments.general.test_file", "numpy.genfromtxt"]
STUB = ["file system (in memory, with faults)", "ocbpy log handler"]
ASSUMES = ["data lines hold as many numbers as the layout has columns"]
SHRINK = ["reload", "series.rows", "faults", "dual.ocb.rows", "dual.eab.rows"]
KINDS = {"errno": 6, "truncate": 2, "vanish": 1, "short_read": 2}
CUSTOM = {"year soy": ["year", "soy"], "date time": ["date", "time"]}
FMTS = ["%Y-%m-%d %H:%M:%S", "%Y%m%d %H:%M", "%d/%m/%Y %H:%M:%S",
        "%Y-%j %H:%M:%S"]


def gen(rng, tier, index):
    n = rng.choice([1, 1, 1, 2, 2, 3, 5, 12, 60])
    bound = rng.choice(["ocb", "ocb", "eab"])
    plan = {"series": world.gen_series(rng, n, bound=bound, wild=.2)}
    ser = plan["series"]
    if ser["inst"] == "image" and rng.random() < .3:
        for row in ser["rows"]:
            row[1] = repr(float(row[1]) + rng.choice([.3, -.3, .49, -.49, .01])
                          ) if float(row[1]) > 1 else row[1]
    if rng.random() < .15:
        # Values files may hold for missing or unusual numbers
        for row in ser["rows"]:
            for j in range(len(row)):
                if j > 3 and rng.random() < .1:
                    row[j] = rng.choice(["nan", "inf", "-inf", "1e30", "-9999",
                                         "0", "-0.0", "+3.5"])
    times = [r["t"] for r in world.parse(ser)]
    win = rng.choice(["none", "none", "exact", "inside", "half", "half",
                      "outside", "swap"])
    plan["win"] = win
    if win != "none":
        a, b = sorted(rng.choice(times) for _ in range(2))
        if win == "inside":
            a, b = a + dt.timedelta(seconds=.5), b - dt.timedelta(seconds=.5)
        elif win == "outside":
            a, b = [t + dt.timedelta(days=rng.choice([-900, 900]))
                    for t in (a, b)]
        elif win == "swap":
            a, b = b, a
        ser["win"] = [world.stamp(a), world.stamp(b)]
        if win == "half":
            ser["win"][rng.randrange(2)] = None
    if rng.random() < .25:
        # Nothing says that records have to be in order of time
        how = rng.choice(["shuffle", "swap", "repeat"])
        rows = ser["rows"]
        if how == "shuffle":
            rng.shuffle(rows)
        elif rows:
            i, j = rng.randrange(len(rows)), rng.randrange(len(rows))
            rows[i], rows[j] = (rows[j], rows[i]) if how == "swap" \
                else (rows[j], rows[j])
    plan["spell"] = {"sep": rng.choice([" ", "  ", "\t", " \t "]),
                     "tail": rng.choice(["", " ", "\n\n", "# end\n"]),
                     "last": rng.random() < .15, "blank": rng.random() < .1}
    plan["state"] = core.pick(rng, {"good": 12, "missing": .6, "dir": .4,
                                    "empty": .4, "huge": .4, "name": .3})
    if rng.random() < .25 and plan["state"] == "good":
        plan["custom"] = gen_custom(rng, ser)
    if rng.random() < .1 and bound == "ocb":
        plan["lat_none"] = True
        ser["blat"] = 74.0
    plan["upper"] = rng.random() < .2 and bound == "ocb"
    plan["max_read"] = rng.choice([0, 0, 0, 1, 17, 4096])
    plan["faults"] = faults.gen(rng, KINDS, 3) if rng.random() < .6 \
        and plan["state"] == "good" else []
    plan["retry"] = rng.random() < .7
    if rng.random() < .4 and plan["state"] == "good":
        plan["reload"] = [gen_reload(rng, times) for _ in range(
            rng.randint(1, 3))]
    return plan


def gen_reload(rng, times):
    """What an object that is loaded already loads next."""
    win = [rng.choice([None, world.stamp(rng.choice(times))]) for _ in "ab"]
    pick = None
    if rng.random() < .3:
        pick = sorted(rng.sample(range(len(times)), rng.randint(
            1, len(times))))
    return {"win": win, "pick": pick, "poke": rng.random() < .5,
            "moved": rng.randint(-1, len(times)),
            "fault": faults.gen(rng, {"errno": 1}, 1)
            if rng.random() < .3 else []}


def gen_custom(rng, ser):
    """Another column order with extra columns and header lines."""
    kind = rng.choice(sorted(CUSTOM))
    extra = rng.sample(["quality", "a", "n_pts", "num_sectors", "x_9"],
                       rng.randint(0, 3))
    polar = rng.random() < .6
    cols = ["phi_cent", "r_cent"] if polar else ["x", "y"]
    cols = cols + ["r", "fom"] + extra
    rng.shuffle(cols)
    at = rng.randint(0, len(cols))
    cols = cols[:at] + CUSTOM[kind] + cols[at:]
    return {"cols": cols, "fmt": rng.choice(FMTS), "heads": rng.randint(0, 3),
            "vals": [[world.fnum(rng, -9, 400) if c != "num_sectors"
                      else str(rng.randint(0, 40)) for c in extra]
                     for _ in ser["rows"]], "extra": extra, "polar": polar}


# ------------------------------------------------------------- file and model
def lines(plan):
    """[(tokens of a line, model record)] and the header text."""
    ser = plan["series"]
    recs = world.parse(ser)
    if "custom" not in plan:
        head = world.DMSP_HEAD if ser["inst"] == "dmsp-ssj" else ""
        return list(zip(ser["rows"], recs)), head, world.COLS[ser["inst"]]
    cus = plan["custom"]
    out = []
    for rec, vals in zip(recs, cus["vals"]):
        when = rec["t"]
        soy = world.model.year_soy(when)
        tok = {"year": str(when.year), "soy": "{:.0f}".format(soy[1]),
               "date": when.strftime(cus["fmt"].split()[0]),
               "time": when.strftime(cus["fmt"].split()[1]),
               "r": repr(rec["r"]), "fom": repr(rec["fom"]),
               "phi_cent": repr(rec["phi"]), "r_cent": repr(rec["rc"])}
        ang = math.radians(rec["phi"] - 90.0)
        tok["x"] = "{:.5f}".format(rec["rc"] * math.cos(ang))
        tok["y"] = "{:.5f}".format(rec["rc"] * math.sin(ang))
        tok.update(zip(cus["extra"], vals))
        new = {}
        for name in cus["cols"]:
            if name in ("date", "time"):
                new[name] = tok[name]
            elif name in ("year", "num_sectors"):
                new[name] = int(tok[name])
            else:
                new[name] = float(tok[name])
        new["t"] = when
        if "date" in cus["cols"] and not cus["fmt"].endswith("%S"):
            new["t"] = when.replace(second=0)
        if not cus["polar"]:
            new["rc"] = math.sqrt(new["x"] ** 2 + new["y"] ** 2)
            phi = math.degrees(math.atan2(new["y"], new["x"])) + 90.0
            new["phi"] = phi + 360.0 if phi < 0.0 else phi
            new["r_cent"], new["phi_cent"] = new["rc"], new["phi"]
        out.append(([tok[c] for c in cus["cols"]], new))
    return out, "# custom header\n" * cus["heads"], cus["cols"]


def text(plan):
    rows, head, _ = lines(plan)
    spell = plan["spell"]
    body = ""
    for tokens, _ in rows:
        body += spell["sep"].join(tokens) + "\n"
        if spell["blank"]:
            body += "\n"
    body += spell["tail"]
    if spell["last"]:
        body = body.rstrip("\n")
    return head + body


def survivors(plan, data):
    """Tokens of the data lines left in a damaged file, None if uneven."""
    rows, head, cols = lines(plan)
    left = data[len(head):].split("\n") if len(data) > len(head) else []
    out = []
    for line in left:
        tokens = line.split("#")[0].split()
        if tokens:
            out.append(tokens)
    return out


def load(plan, path):
    import ocbpy
    from ocbpy import ocb_correction as cor
    ser = plan["series"]
    cls = ocbpy.EABoundary if ser["bound"] == "eab" else ocbpy.OCBoundary
    if "custom" not in plan:
        part = dict(ser, inst=ser["inst"])
        n = sum(1 for r in world.parse(ser) if world.in_window(r, ser["win"]))
        rfunc, kws = world.rf_args(part, n)
        name = ser["inst"].upper() if plan["upper"] else ser["inst"]
        return cls(filename=path, instrument=name, hemisphere=ser["hemi"],
                   boundary_lat=None if plan.get("lat_none") else ser["blat"],
                   stime=world.when(ser["win"][0]),
                   etime=world.when(ser["win"][1]), rfunc=rfunc,
                   rfunc_kwargs=kws)
    obj = cls(filename=None, instrument=ser["inst"], hemisphere=ser["hemi"],
              boundary_lat=ser["blat"], rfunc=cor.circular,
              rfunc_kwargs={"r_add": 1.0})
    load.last = obj
    return custom_load(plan, obj, path)


def custom_load(plan, obj, path):
    ser = plan["series"]
    obj.filename = path
    obj.load(hlines=plan["custom"]["heads"],
             ocb_cols=" ".join(plan["custom"]["cols"]),
             datetime_fmt=plan["custom"]["fmt"],
             stime=world.when(ser["win"][0]), etime=world.when(ser["win"][1]))
    return obj


def judge(plan, obj, where, path, recs=None):
    """All attributes of a loaded boundary."""
    ser = plan["series"]
    rows, _, cols = lines(plan)
    every = [r for _, r in rows] if recs is None else recs
    want = [r for r in every if world.in_window(r, ser["win"])]
    check(obj.filename == path, "filename", where, obj.filename)
    check(obj.instrument == ser["inst"], "instrument", where, obj.instrument)
    check(obj.hemisphere == ser["hemi"], "hemisphere", where)
    check(obj.boundary_lat == abs(ser["blat"]) * ser["hemi"], "reference-lat",
          where, obj.boundary_lat)
    lim = world.model.LIMITS[ser["inst"]]
    check((obj.min_fom, obj.max_fom) == lim, "merit-limits", where,
          obj.min_fom, obj.max_fom)
    check(obj.records == len(want), "records", where, obj.records, "want",
          len(want))
    check(obj.rec_ind == -1, "cursor", where, obj.rec_ind)
    check([t for t in obj.dtime] == [r["t"] for r in want], "times", where,
          list(obj.dtime)[:4], [r["t"] for r in want][:4])
    names = [c for c in cols]
    for name in names:
        got = getattr(obj, name)
        check(len(got) == len(want), "column-length", where, name, len(got))
        for i, rec in enumerate(want):
            same = core.exact(rec[name], got[i].item() if hasattr(
                got[i], "item") else got[i]) or (
                    rec[name] == got[i] and type(rec[name]) is not str)
            check(same, "column", where, name, i, got[i], "want", rec[name])
    for name, key in (("r_cent", "rc"), ("phi_cent", "phi")):
        got = getattr(obj, name)
        for i, rec in enumerate(want):
            val = rec[name]
            check(core.same_float(float(got[i]), val, 1e-12, 1e-9)
                  or not (math.isfinite(val) or math.isfinite(got[i]))
                  or name == "phi_cent" and abs(
                      math.cos(math.radians(got[i] - val)) - 1) < 1e-12
                  and 0 <= got[i] <= 360.0, "pole",
                  where, name, i, got[i], "want", val)
    if "custom" in plan:
        fns = [("circular", {"r_add": 1.0})] * len(want)
    elif recs is None:
        fns = world.rf_list(ser, len(want))
    else:
        fns = None
    if fns is not None:
        check(len(obj.rfunc) == len(obj.rfunc_kwargs) == len(want),
              "corrections", where, len(obj.rfunc), len(obj.rfunc_kwargs))
        for i, (name, kws) in enumerate(fns):
            check(obj.rfunc[i].__name__ == name and obj.rfunc_kwargs[i] == kws,
                  "correction", where, i, obj.rfunc[i].__name__,
                  obj.rfunc_kwargs[i], "want", name, kws)


def attributes(obj):
    """All of an object, to be compared later."""
    out = {"printed": repr(obj)}
    for name, val in core.public(obj).items():
        if isinstance(val, np.ndarray):
            val = ("array", val.shape, [repr(v) for v in val.ravel()])
        elif isinstance(val, list):
            val = [repr(v) for v in val]
        out[name] = val if isinstance(val, tuple) else repr(val)
    return out


def load_again(plan, fs, fired, counts):
    """One object loads other periods and files."""
    path = "/vsim/dir/bound.dat"
    obj = load(plan, path)
    ser = plan["series"]
    arrays = ser["rf"] is not None and ser["rf"]["mode"] != "one" \
        and "custom" not in plan
    held = obj.records
    states = []
    for num, step in enumerate(plan["reload"]):
        where = "load {:d} of an object: {}".format(num + 2, step)
        pick = step["pick"]
        sub = dict(plan, series=dict(ser, win=step["win"]))
        name = path
        if pick is not None:
            pick = [i for i in pick if i < len(ser["rows"])]
            if not pick:
                continue
            name = "/vsim/dir/next{:d}.dat".format(num)
            sub["series"]["rows"] = [ser["rows"][i] for i in pick]
            if "custom" in plan:
                sub["custom"] = dict(plan["custom"], vals=[
                    plan["custom"]["vals"][i] for i in pick])
            fs.put(name, text(sub))
        count = sum(1 for _, r in lines(sub)[0]
                    if world.in_window(r, step["win"]))
        if step["poke"] and obj.records > 0:
            obj.get_aacgm_boundary_lat(6.0)
        obj.rec_ind = step["moved"]
        obj.filename = name
        keep = attributes(obj)
        fs.fired = {}
        fs.faults = faults.place(step["fault"], 4)
        for fault in fs.faults:
            fault["at"] += fs.events
        error = None
        try:
            if "custom" in plan:
                custom_load(sub, obj, name)
            else:
                heads, cols, fmt = obj.inst_defaults()
                extra = {} if not cols else {
                    "hlines": heads, "ocb_cols": cols, "datetime_fmt": fmt}
                obj.load(stime=world.when(step["win"][0]),
                         etime=world.when(step["win"][1]), **extra)
        except seams.HarnessError:
            raise
        except Exception as err:
            error = err
        struck = dict(fs.fired)
        fs.faults = []
        faults.closed(fs, where)
        faults.tally(fs, fired)
        fs.fired = {}
        misfit = arrays and count != held
        states.append((bool(struck), misfit, count > held, count < held))
        counts["load_again"] = counts.get("load_again", 0) + 1
        if error is not None:
            check(struck or misfit, "failed-without-fault", where, repr(error))
            now = attributes(obj)
            check(now == keep, "half-loaded", where, sorted(
                k for k in set(now) | set(keep) if now.get(k) != keep.get(k)))
            continue
        check(not any(k.startswith("errno:") and not k.endswith(":stat")
                      for k in struck), "fault-ignored", where, struck)
        check(not misfit, "misfit-ignored", where)
        judge(sub, obj, where, name)
        if count:
            # Nothing is left of what was loaded before
            new = load(sub, name)
            for one in (obj, new):
                one.get_aacgm_boundary_lat([0.0, 13.5])
            check(repr(obj.aacgm_boundary_lat) == repr(new.aacgm_boundary_lat)
                  and repr(obj.aacgm_boundary_mlt) == repr(
                      new.aacgm_boundary_mlt), "stale-locations", where)
        held = count
    return states


def judge_none(plan, obj, where):
    check(obj.filename is None and obj.records == 0 and obj.dtime is None,
          "claims-data", where, obj.filename, obj.records)
    for name in ("phi_cent", "r_cent", "r", "fom"):
        check(getattr(obj, name) is None, "claims-data", where, name)


def run(plan):
    dig = core.Digest()
    counts, fired = {}, {}
    rows, head, cols = lines(plan)
    path = "/vsim/dir/bound.dat"
    state = plan["state"]
    nontrivial = False
    files = {path: text(plan)}
    with simfs.SimFS(files, max_read=plan["max_read"]) as fs, \
            seams.LogTrap() as logs, seams.Steps(3000000):
        name = path
        if state == "missing":
            name = "/vsim/dir/other.dat"
        elif state == "dir":
            name = "/vsim/dir"
        elif state == "empty":
            fs.put(path, "")
        elif state == "huge":
            fs.nodes[path].fake_size = 2 * 10 ** 9 + 1
        elif state == "name":
            name = 7
        keep = fs.snapshot()
        if state != "good":
            obj = load(plan, name)
            judge_none(plan, obj, state)
            check(len(logs.warnings()) > 0, "unreported", state)
            faults.closed(fs, state)
            return {"digest": state, "nontrivial": False, "states": [state],
                    "counts": {"load": 1}}
        obj = load(plan, name)
        judge(plan, obj, "first load", path)
        faults.closed(fs, "first load")
        counts["load"] = 1
        want = [r for _, r in rows if world.in_window(r, plan["series"]["win"])]
        nontrivial = 0 < len(want) < len(rows)
        dig.add(len(want), obj.dtime)
        dig.state(plan["series"]["inst"], plan["win"], "custom" in plan, "ok")
        if plan["faults"]:
            fs.faults = faults.place(plan["faults"], fs.events)
            fs.events = 0
            fs.op_counts = {}
            where = "load under {:}".format(fs.faults)
            outcome = "ok"
            bad = None
            try:
                bad = load(plan, name)
            except seams.HarnessError:
                raise
            except Exception as err:
                outcome = type(err).__name__
                check(fs.fired, "failed-without-fault", where, err)
            hard = any(k.startswith("errno:") and not k.endswith(":stat")
                       for k in fs.fired)
            if bad is None and "custom" in plan and "vanish" not in str(
                    fs.fired) and load.last.dtime is None:
                # The same object, once the storage works again
                half = load.last
                half.filename = None
                judge_none(plan, half, where)
                fs.put(path, keep[path])
                fs.quiet += 1
                custom_load(plan, half, path)
                fs.quiet -= 1
                judge(plan, half, "second try", path)
            elif bad is None and "custom" in plan:
                check(load.last.dtime is None, "claims-data", where)
            if bad is not None:
                check(not hard, "fault-ignored", where, dict(fs.fired))
                data = fs.get(path)
                stat_hit = any(k.endswith(":stat") and not k.startswith(
                    "short") for k in fs.fired)
                if bad.filename is None:
                    check(stat_hit or any(
                        k.startswith(("truncate", "vanish"))
                        for k in fs.fired), "file-refused", where)
                    judge_none(plan, bad, where)
                elif data == keep[path]:
                    judge(plan, bad, where, path)
                elif data is not None:
                    # Every line left is loaded, and only those
                    left = survivors(plan, data.decode())
                    full = [r for t, r in rows][:len(left)]
                    whole = [t for t, _ in rows][:len(left)] == left
                    check(all(len(t) == len(cols) for t in left)
                          or read_before(fs), "partial-line-loaded", where,
                          left[-1:])
                    if whole and not read_before(fs) and not any(
                            f[0] != "circular" for f in
                            world.rf_list(plan["series"], 1)) \
                            and "custom" not in plan:
                        judge(plan, bad, where, path, full)
            faults.closed(fs, where)
            faults.tally(fs, fired)
            nontrivial |= bool(fs.fired)
            for key in fs.fired:
                dig.state(plan["series"]["inst"], key, outcome,
                          bad is not None and bad.records)
            dig.add(outcome, None if bad is None else bad.records)
            counts["load_under_faults"] = 1
            fs.faults = []
            fs.fired = {}
        if plan.get("reload"):
            fs.put(path, keep[path])
            for new in load_again(plan, fs, fired, counts):
                dig.state(plan["series"]["inst"], "again", *new)
                dig.add(*new)
            for key in fs.snapshot():
                if key not in keep:
                    keep[key] = fs.snapshot()[key]
        if plan["retry"]:
            fs.put(path, keep[path])
            obj = load(plan, name)
            judge(plan, obj, "retry", path)
            faults.closed(fs, "retry")
            counts["load"] += 1
        check(fs.snapshot() == keep or not plan["retry"], "file-changed")
    span = 0.0
    if len(rows) > 1:
        span = abs((rows[-1][1]["t"] - rows[0][1]["t"]).total_seconds())
    return {"digest": dig.hex(), "nontrivial": nontrivial,
            "states": dig.states, "counts": counts, "fired": fired,
            "sim_s": span}


def read_before(fs):
    """Whether the damage may have come after the data were read."""
    return any(k.endswith((":read", ":close")) for k in fs.fired)


__all__ = ["np"]
