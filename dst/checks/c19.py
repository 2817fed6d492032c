"""C19: the printed form of a boundary rebuilds the same boundary.

A boundary is loaded, lives through a seeded history of calls, some of them
disturbed, and is printed along the way.  What was printed is evaluated later,
in this process, in one that never saw the object, or in one with another hash
seed and time zone, with the files as they are on the disk, at times under I/O
faults.  The result must be the boundary that was printed.
"""
import datetime as dt

import numpy as np

from dst import core, faults, ops, seams, server, simfs, world
from dst.checks import c05
from dst.core import check

RUNS = {"quick": 5000, "thorough": 150000}
BATCH = 80
LEVEL = "exploration"
RULE = ("seeded boundaries under seeded histories, printed and rebuilt; "
        "non-trivial if records were rebuilt after a call that was disturbed "
        "or moved the cursor")
STATE_MEASURE = ("distinct (boundary, window, correction, place of the "
                 "rebuilding, faults and how they ended) tuples")
REAL = ["ocbpy.OCBoundary/EABoundary/DualBoundary", "numpy", "aacgmv2",
        "separate processes with other hash seeds and time zones"]
STUB = ["file system (in memory, with faults)", "ocbpy log handler",
        "numpy allocator"]
ASSUMES = ["the evaluating program has imported ocbpy, numpy (also as np) and "
           "datetime",
           "pairs are those of the default selection: criteria of a later "
           "selection are not part of a constructor"]
SHRINK = ["ops", "series.rows", "dual.ocb.rows", "dual.eab.rows", "faults",
          "ops.*.sel.2", "ops.*.sel_e.2"]
ENVS = [{"PYTHONHASHSEED": "7", "TZ": "AAA-5:30"},
        {"PYTHONHASHSEED": "99", "TZ": "BBB8CCC"}]
PLACES = ["/vsim/s", "/vsim/it's here", '/vsim/a "b" \'c\'', "/vsim/back\\n",
          "/vsim/\u00e9t\u00e9 {x} %s", "/vsim/array(1)"]
KINDS = {"errno": 4, "truncate": 0, "short_read": 3}


def gen(rng, tier, index):
    n = rng.choice([0, 1, 1, 2, 3, 5, 20]) if rng.random() < .9 else 120
    plan = {}
    if rng.random() < .45:
        plan["dual"] = world.gen_dual(rng, n or 1)
        parts = [plan["dual"]["ocb"], plan["dual"]["eab"]]
    else:
        plan["series"] = world.gen_series(
            rng, n or 1, bound=rng.choice(["ocb", "ocb", "eab"]))
        parts = [plan["series"]]
    for ser in parts:
        gen_window(rng, ser)
        if rng.random() < .2:
            ser["blat"] = (1 if ser["blat"] > 0 else -1) * (
                rng.uniform(58, 66) if ser["bound"] == "eab"
                else rng.uniform(68, 80))
        if rng.random() < .15:
            # Pairs need sorted times
            if len(parts) == 1:
                rng.shuffle(ser["rows"])
    if len(parts) == 1 and rng.random() < .12:
        plan["none"] = rng.choice(["None", "missing", "kind"])
    if len(parts) == 1 and not plan.get("none") and rng.random() < .2 and (
            parts[0]["rf"] is None or parts[0]["rf"]["mode"] == "one"):
        # An object that held another period before
        other = {"rows": parts[0]["rows"], "win": [None, None],
                 "inst": parts[0]["inst"]}
        gen_window(rng, other)
        plan["before"] = other["win"]
    plan["place"] = rng.choice(PLACES) if rng.random() < .5 else PLACES[0]
    kinds = {"set": 3, "edge": 2, "normal": 3, "round": 1, "revert": 2,
             "radii": 1 if "dual" in plan else 0, "match": 1, "next": 2,
             "list": 1, "select": .7 if "dual" in plan else 0, "show": 5,
             "bad": 1}
    plan["ops"] = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        op = ops.gen_op(rng, plan, kinds)
        op["hurt"] = c05.gen_hurt(rng, .25)
        plan["ops"].append(op)
    plan["where"] = core.pick(rng, {"here": 8, "fork": 1, "0": .4, "1": .4})
    plan["faults"] = faults.gen(rng, KINDS, 2) if rng.random() < .3 else []
    plan["max_read"] = rng.choice([0, 0, 0, 1, 17])
    return plan


def gen_window(rng, ser):
    times = sorted(r["t"] for r in world.parse(ser))
    if not times or rng.random() < .45:
        return
    how = rng.choice(["exact", "inside", "half", "half", "outside", "swap"])
    a, b = sorted(rng.choice(times) for _ in range(2))
    if how == "inside":
        a, b = a + dt.timedelta(seconds=.5), b - dt.timedelta(seconds=.5)
    elif how == "outside":
        a, b = [t + dt.timedelta(days=rng.choice([-900, 900]))
                for t in (a, b)]
    elif how == "swap":
        a, b = b, a
    ser["win"] = [world.stamp(a), world.stamp(b)]
    if how == "half":
        ser["win"][rng.randrange(2)] = None


# ----------------------------------------------------------------- comparison
def describe(obj):
    """What a boundary is, without where its cursor is and what it stored."""
    if hasattr(obj, "ocb"):
        return {"class": type(obj).__name__, "ocb": describe(obj.ocb),
                "eab": describe(obj.eab), "delta": float(obj.max_delta),
                "hemi": int(obj.hemisphere), "records": int(obj.records),
                "dtime": _list(obj.dtime), "eab_ind": _list(obj.eab_ind),
                "ocb_ind": _list(obj.ocb_ind)}
    out = {"class": type(obj).__name__, "filename": obj.filename,
           "instrument": obj.instrument, "hemi": int(obj.hemisphere),
           "lat": float(obj.boundary_lat), "records": int(obj.records),
           "min_fom": float(obj.min_fom), "max_fom": float(obj.max_fom)}
    out["functions"] = [] if obj.records == 0 else [
        [fun.__module__, fun.__name__] for fun in obj.rfunc]
    out["keywords"] = [] if obj.records == 0 else [
        sorted(kws.items()) for kws in obj.rfunc_kwargs]
    for key, val in core.public(obj).items():
        if not (key.startswith("aacgm_") or key in (
                "rfunc", "rfunc_kwargs", "rec_ind", "filename", "instrument",
                "hemisphere", "boundary_lat", "records", "min_fom",
                "max_fom")):
            out["column " + key] = _list(val)
    return out


def _list(val):
    if val is None:
        return None
    return [v.item() if hasattr(v, "item") else v for v in val]


def probe(obj):
    """Locations relative to every record, as the boundary now is."""
    if hasattr(obj, "ocb"):
        return [probe(obj.ocb), probe(obj.eab)]
    out = []
    old = obj.rec_ind
    for num in range(min(int(obj.records), 6)):
        obj.rec_ind = num
        out.append([float(x) for x in obj.normal_coord(
            78.0 * obj.hemisphere, 3.3)])
    obj.rec_ind = old
    return out


def differs(want, have, where):
    for key in sorted(set(want) | set(have)):
        if key in ("ocb", "eab") and key in want and key in have:
            differs(want[key], have[key], where + " " + key)
            continue
        check(key in want and key in have
              and core.canon(want[key]) == core.canon(have[key]),
              "rebuilt-other", where, key, "is", have.get(key), "was",
              want.get(key))


def reloaded(plan, sess):
    """The boundary, in an object that was loaded with another period."""
    ser = plan["series"]
    obj = world.load(dict(ser, win=plan["before"]), sess.names[0])
    heads, cols, fmt = obj.inst_defaults()
    kws = {} if not cols else {"hlines": heads, "ocb_cols": cols,
                               "datetime_fmt": fmt}
    obj.load(stime=world.when(ser["win"][0]), etime=world.when(
        ser["win"][1]), **kws)
    return obj


def rebuild(text):
    """Evaluate a printed boundary as a program of its own would."""
    import datetime
    import ocbpy
    return eval(text, {"ocbpy": ocbpy, "numpy": np, "np": np,
                       "datetime": datetime})


def seen(text):
    """What the text describes and where it puts things."""
    obj = rebuild(text)
    return [describe(obj), probe(obj), repr(obj), str(obj)]


def answer(req):
    with simfs.SimFS(req["files"]) as fs, seams.LogTrap():
        out = seen(req["text"])
        faults.closed(fs, "another process")
        return out


# ------------------------------------------------------------------------ run
def run(plan):
    dig, fired, counts = core.Digest(), {}, {"printed": 0, "calls": 0}
    hit = moved = chosen = False
    where = plan["place"]
    with simfs.SimFS(max_read=plan["max_read"]) as fs, \
            seams.LogTrap():
        if plan.get("none"):
            obj = empty(plan, where)
            sess = None
        else:
            sess = ops.Session(plan, fs, where)
            if "before" in plan:
                sess.obj = reloaded(plan, sess)
            obj = sess.obj
        text = repr(obj)
        readable = str(obj)
        want = describe(obj)
        kinds = [want["class"], plan.get("none"), sorted(
            set(str(f) for p in (want, want.get("ocb", {}), want.get(
                "eab", {})) for f in p.get("functions", [])))]
        if sess is not None:
            counted(plan, want)
        for op in plan["ops"] if sess is not None else []:
            counts["calls"] += 1
            twin = sess.fresh()
            err, hurt = c05.attempt(lambda: sess.do(op), op["hurt"],
                                    lambda: sess.do(op, obj=twin), fired)
            hit |= hurt
            moved |= op["op"] in ("set", "next", "match")
            chosen |= op["op"] in ("select", "match")
            if op["op"] == "show" and not hurt:
                check(err is None, "not-printed", err)
                counts["printed"] += 1
            dig.add(op["op"], err)
        # Printed at any time, the text is the one of the loaded object
        check(repr(obj) == text, "printed-other", "after the history", text,
              "became", repr(obj))
        if not chosen:
            check(str(obj) == readable, "printed-other", "readable form",
                  readable, "became", str(obj))
        here = [want, probe(obj)]
        place = plan["where"]
        if plan["faults"]:
            # A rebuilding in trouble raises or gives the same boundary
            events = fs.events
            rebuild(text)
            events = fs.events - events
            fs.faults = faults.place(plan["faults"], events)
            fs.events, fs.op_counts = 0, {}
            try:
                bad = rebuild(text)
                ended = "ok"
            except seams.HarnessError:
                raise
            except Exception as err:
                bad, ended = None, type(err).__name__
                check(fs.fired, "not-rebuilt", err, text)
            faults.tally(fs, fired)
            unseen = any(k.startswith("errno:") and k.endswith(":stat")
                         for k in fs.fired)
            if bad is not None and not unseen:
                differs(want, describe(bad), "under faults")
            fs.faults = []
            dig.state(kinds, "faults", sorted(fs.fired), ended)
        if place == "here":
            got = seen(text)
        elif place == "fork":
            got = core.forked(lambda: seen(text))
        else:
            got = server.ask(int(place), {
                "text": text, "files": {p: d.decode() for p, d in
                                        fs.snapshot().items()}})
        differs(here[0], got[0], "rebuilt")
        check(core.canon(here[1]) == core.canon(got[1]), "places-differ",
              here[1], got[1])
        check(got[2] == text, "prints-other", got[2], "from", text)
        check(got[3] == readable, "prints-other", got[3], "from", readable)
        faults.closed(fs, "rebuilt")
        wins = [p["win"] != [None, None] for p in (
            [plan["series"]] if "series" in plan else
            [plan["dual"]["ocb"], plan["dual"]["eab"]])]
        dig.add(text, got)
        dig.state(kinds, place, wins, min(want["records"], 3),
                  sorted(set(op["op"] for op in plan["ops"])))
    return {"digest": dig.hex(), "states": dig.states, "fired": fired,
            "counts": counts,
            "nontrivial": want["records"] > 0 and (hit or moved)}


def empty(plan, where):
    """A boundary without data."""
    import ocbpy
    ser = plan["series"]
    cls = ocbpy.EABoundary if ser["bound"] == "eab" else ocbpy.OCBoundary
    rfunc, kws = world.rf_args(dict(ser, win=[None, None]), 1) \
        if ser["rf"] and ser["rf"]["mode"] == "one" else (None, None)
    name = {"None": None, "missing": where + ".not", "kind": 7}[plan["none"]]
    return cls(filename=name, instrument=ser["inst"], hemisphere=ser["hemi"],
               boundary_lat=ser["blat"], stime=world.when(ser["win"][0]),
               etime=world.when(ser["win"][1]), rfunc=rfunc, rfunc_kwargs=kws)


def counted(plan, want):
    """The printed object holds what the files hold."""
    if "series" in plan:
        ref = world.build_model(plan["series"])
        check(want["records"] == len(ref.recs), "records", want["records"])
        return
    ref = world.build_dual_model(plan["dual"])
    check(want["records"] == len(ref.pairs), "records", want["records"],
          len(ref.pairs))


def prepare():
    server.start("C19", ENVS)


def prepare_server():
    pass
