"""C10: boundary columns of pysat datasets.

A tabular or multi-dimensional dataset gets the columns of one or several
boundaries, in a seeded order, under seeded trouble.  Every value of every
column is compared with the model for its own sample.
"""
import numpy as np

from dst import core, faults, model, ops, pyds, seams, simfs, world
from dst.core import check

RUNS = {"quick": 2500, "thorough": 30000}
BATCH = 25
LEVEL = "exploration"
RULE = ("seeded datasets (tabular or up to four dimensions), boundaries and "
        "1-3 calls, some under trouble; non-trivial if some sample had a "
        "boundary and some had none")
STATE_MEASURE = ("distinct (form, dimensions of locations and data, boundary "
                 "kind, coordinates, trouble, ending) tuples")
REAL = ["ocbpy.instruments.pysat_instruments", "ocbpy boundaries, matching and "
        "scaling", "pysat.Instrument", "pandas", "xarray", "numpy"]
STUB = ["file system (in memory, with faults)", "ocbpy log handler",
        "numpy allocator"]
ASSUMES = ["sample times rise; boundary objects passed in are freshly loaded",
           "infinite inputs are outside the statement"]
SHRINK = ["calls", "series.rows", "dual.ocb.rows", "dual.eab.rows"]
KINDS = {"errno": 6, "truncate": 1, "vanish": 1, "short_read": 1}
NAMES = {"o": "/vsim/first.dat", "e": "/vsim/second.dat"}


def gen(rng, tier, index):
    n = rng.choice([0, 1, 2, 3, 5, 8])
    plan = {}
    if rng.random() < .35:
        plan["dual"] = world.gen_dual(rng, max(1, n))
        ser = plan["dual"]["ocb"]
        times = [r["t"] for r in world.parse(ser)]
    else:
        ser = plan["series"] = world.gen_series(
            rng, n, bound=rng.choice(["ocb", "ocb", "eab"]))
        times = [r["t"] for r in world.parse(ser)]
    hemi = ser["hemi"]
    data = []
    for t in world.gen_data_times(rng, times, rng.choice([1, 2, 3, 3, 5, 8]),
                                  ties=False):
        if t not in data:
            data.append(t)
    geo = hemi == 1 and rng.random() < .15
    plan["data"] = pyds.gen_data(rng, data, hemi, rng.random() < .6, geo)
    plan["name"] = rng.choice(["north.{:s}", "{:s}_north.txt", "X{:s}"])
    plan["calls"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        call = pyds.gen_call(rng, plan["data"], geo)
        call["mode"] = rng.choice(["obj", "obj", "file"])
        call["hemi"] = rng.choice([0, hemi])
        if geo:
            call["hemi"] = 1
        call["sel"] = world.gen_select(rng, ser) if rng.random() < .25 \
            else [None, None, []]
        how = core.pick(rng, {"none": 5, "line": 2, "memory": 1, "io": 2})
        if how == "io" and call["mode"] == "obj":
            how = "none"
        call["trouble"] = {"how": how, "at": rng.random()}
        if how == "io":
            call["trouble"]["faults"] = faults.gen(rng, KINDS, 2)
        plan["calls"].append(call)
    plan["memseed"] = rng.getrandbits(30)
    return plan


def name_of(plan):
    """File name that tells the boundary type."""
    kind = plan["series"]["bound"]
    return "/vsim/" + plan["name"].format(kind)


def file_hemi(plan, call):
    """Hemisphere a call without boundary object settles on (None: refused)."""
    if call["hemi"]:
        return call["hemi"]
    lats = [v for v in plan["data"]["vars"]["lat"]["v"] if v == v]
    if not lats:
        return None
    hemi = model.sgn(max(lats))
    return hemi if hemi == model.sgn(min(lats)) else None


def settle_world(plan, call):
    """Plan of the boundary a call ends up with, or None if refused."""
    if call["mode"] == "obj":
        return {k: plan[k] for k in ("series", "dual", "name") if k in plan}
    hemi = file_hemi(plan, call)
    if hemi is None:
        return None
    if "series" in plan:
        ser = dict(plan["series"], hemi=hemi, rf=None,
                   blat=74.0 if plan["series"]["bound"] == "ocb" else 64.0)
        return {"series": ser, "name": plan["name"]}
    dual = dict(plan["dual"])
    dual["ocb"] = dict(dual["ocb"], hemi=hemi, rf=None, blat=74.0)
    dual["eab"] = dict(dual["eab"], hemi=hemi, rf=None, blat=64.0)
    return {"dual": dual}


def invoke(plan, call, where, inst, args, made):
    from ocbpy.instruments import pysat_instruments
    kws = pyds.call_args(plan["data"], call, args)
    lo, hi, crit = call["sel"]
    kws.update(hemisphere=call["hemi"], min_merit=lo, max_merit=hi)
    kws.update(world.crit_kwargs(crit))
    if call["mode"] == "obj":
        kws["ocb"] = made
    elif "series" in where:
        kws.update(ocbfile=name_of(where),
                   instrument=where["series"]["inst"])
    else:
        kws.update(ocbfile="dual", ocb_filename=NAMES["o"],
                   eab_filename=NAMES["e"],
                   ocb_instrument=where["dual"]["ocb"]["inst"],
                   eab_instrument=where["dual"]["eab"]["inst"],
                   max_delta=where["dual"]["delta"])
        # One instrument name stands for those that are left out
        for num, key in ((1, "ocb_instrument"), (2, "eab_instrument")):
            if (len(call["evar"]) + 2 * len(call["vecs"])) % 3 == num:
                kws["instrument"] = kws.pop(key)
    return pysat_instruments.add_ocb_to_data(inst, **kws)


def run(plan):
    dig = core.Digest()
    counts, fired = {}, {}
    hits = misses = 0
    data = plan["data"]
    with simfs.SimFS() as fs, seams.LogTrap() as logs:
        inst = pyds.build(data)
        before = pyds.snapshot(inst)
        others = set()
        for num, call in enumerate(plan["calls"]):
            home = settle_world(plan, call)
            tag = "call {:d} {:s}".format(num, str(
                {k: call[k] for k in sorted(call) if k != "trouble"})[:300])
            if "series" in plan:
                fs.put(name_of(plan), world.text(
                    plan["series"]))
            else:
                fs.put(NAMES["o"], world.text(plan["dual"]["ocb"]))
                fs.put(NAMES["e"], world.text(plan["dual"]["eab"]))
            sess = ops.Session(home, fs, "/vsim/obj") if home else None
            names = pyds.snapshot(inst)
            counts["calls"] = counts.get("calls", 0) + 1
            # Same columns as an earlier call replace them
            exp = None
            if home is not None:
                ref = sess.ref
                isdual = sess.isdual
                bname = "dualb" if isdual else home["series"]["bound"]
                inside = (lambda when: True) if call["mode"] == "obj" else (
                    lambda when: window(data, call, when))
                exp = pyds.Expect(data, call, ref, isdual, bname, sess.hemi,
                                  call["sel"], inside)
                exp.others = others
                nrec = len(exp.pairs) if isdual else sum(
                    inside(r["t"]) for r in ref.recs)
            how = call["trouble"]["how"]
            # ------------------------------------------------- with trouble
            if how != "none" and home is not None:
                lines, events = 0, 0
                if how in ("io", "line"):
                    twin = pyds.build(data)
                    steps = seams.Steps(4000000)
                    fs.events = 0
                    try:
                        with steps:
                            invoke(plan, call, home, twin, ops.Args(),
                                   sess.fresh())
                    except Exception:
                        pass
                    lines, events = steps.used, fs.events
                    del logs.lines[:]
                made = sess.fresh()
                args = ops.Args()
                error, short = trouble(plan, call, home, inst, args, made, fs,
                                       lines, events, fired)
                args.verify(tag)
                now = pyds.snapshot(inst)
                check(all(now.get(k) == v for k, v in before.items()),
                      "data-changed", tag, error)
                # Columns of earlier calls may not have been replaced yet
                # Nobody can tell that a boundary file ended early
                done = -1 if short else pyds.judge(
                    exp, inst, tag + " after " + str(error), True,
                    {k for k, v in now.items() if names.get(k) == v})
                dig.add(error, done)
                dig.state("trouble", how, error, done > 0)
                if "series" in plan:
                    fs.put(name_of(plan), world.text(
                        plan["series"]))
                else:
                    fs.put(NAMES["o"], world.text(plan["dual"]["ocb"]))
                    fs.put(NAMES["e"], world.text(plan["dual"]["eab"]))
                counts["troubled"] = counts.get("troubled", 0) + 1
                names = now
            # ---------------------------------------------------- without
            del logs.lines[:]
            args = ops.Args()
            made = sess.fresh() if sess else None
            error = None
            try:
                with seams.Steps(4000000):
                    res = invoke(plan, call, home or plan, inst, args, made)
                check(res is None, "result", tag, res)
            except ValueError as err:
                error = err
            args.verify(tag)
            now = pyds.snapshot(inst)
            check(all(now.get(k) == v for k, v in before.items()),
                  "data-changed", tag, error)
            ends = "columns"
            if home is None:
                check(error is not None, "not-refused", tag)
                check(now == names, "stored-on-error", tag)
                ends = "refused"
            elif bad_vector(data, call):
                if error is not None:
                    check(now == names, "stored-on-error", tag)
                ends = "dimensions"
            elif error is not None:
                check(False, "failed", tag, error)
            elif nrec == 0:
                check(len(logs.warnings()) > 0 and now == names,
                      "no-records-unreported", tag, set(now) - set(names))
                ends = "empty"
            else:
                pyds.judge(exp, inst, tag)
                # An interrupted call may leave pysat's metadata half written
                if not counts.get("troubled"):
                    judge_meta(exp, inst, made, tag)
                others |= set(exp.columns())
                hits += exp.hits
                misses += len(exp.cache) - exp.hits
            faults.closed(fs, tag)
            dig.add(sorted(now.items()))
            dig.state(data["form"], data["vars"]["lat"]["d"],
                      data["vars"]["mlt"]["d"], sorted(
                          {v["d"] for v in data["vars"].values()}), ends,
                      call["mode"], call["coord"], "dual" in plan, how)
    return {"digest": dig.hex(), "nontrivial": hits > 0 and misses > 0,
            "states": dig.states, "counts": counts, "fired": fired}


def bad_vector(data, call):
    """Components whose dimensions no component covers are refused."""
    for name, spec in call["vecs"].items():
        dims = [set(data["vars"][name + "_" + p]["d"]) for p in spec["parts"]]
        if dims and set().union(*dims) not in dims:
            return True
    return False


def window(data, call, when):
    a, b = world.when(data["times"][0]), world.when(data["times"][-1])
    tol = int(call["tol"]) + 1
    return a.timestamp() - tol <= when.timestamp() <= b.timestamp() + tol


def judge_meta(exp, inst, made, tag):
    for col, (kind, name, part) in exp.columns().items():
        check(col in inst.meta.data.index, "no-metadata", tag, col)
        notes = str(inst.meta[col][inst.meta.labels.notes])
        check("oundary" in notes, "metadata-notes", tag, col, notes)
        fill = inst.meta[col][inst.meta.labels.fill_val]
        check(fill != fill, "metadata-fill", tag, col, fill)
        if pyds.has_meta(exp.data) and name is not None \
                and part not in ("unscaled_r", "scaled_r"):
            # Scaled values have the units of what was scaled
            got = inst.meta[col][inst.meta.labels.units]
            check(got == pyds.unit(exp.data, name), "metadata-units", tag, col, got)
            check("Described" in inst.meta[col][inst.meta.labels.desc],
                  "metadata-description", tag, col)


def trouble(plan, call, home, inst, args, made, fs, lines, events, fired):
    how = call["trouble"]["how"]
    at = call["trouble"]["at"]
    steps, memory = seams.Steps(4000000), None
    fs.events, fs.fired = 0, {}
    if how == "io":
        fs.faults = faults.place(call["trouble"]["faults"], events)
    elif how == "line":
        steps = seams.Steps(4000000, trip_at=1 + int(at * lines))
    error = None
    try:
        if how == "memory":
            with seams.Memory(7, 1, int(at * 400)) as memory, steps:
                invoke(plan, call, home, inst, args, made)
        else:
            with steps:
                invoke(plan, call, home, inst, args, made)
    except seams.HarnessError:
        raise
    except (Exception, seams.SimInterrupt) as err:
        error = type(err).__name__
    fs.faults = []
    if how == "line":
        fs.handles.clear()
        del fs.leaks[:]
    else:
        faults.closed(fs, "trouble")
    faults.tally(fs, fired)
    short = any("truncate" in k for k in fs.fired)
    fs.fired = {}
    if memory is not None and memory.hits:
        fired["allocation"] = fired.get("allocation", 0) + 1
    if how == "line" and steps.tripped:
        fired["interrupt"] = fired.get("interrupt", 0) + 1
    return error, short


__all__ = ["gen", "run", "np"]
