"""C05: nothing of the caller's or of the loaded boundary is altered.

Every call - also one that fails, runs out of memory or is interrupted at an
arbitrary line - leaves its arguments and all loaded record values as they
were; stored boundary locations change only where the request says.
"""
import copy

import numpy as np

from dst import conv, core, faults, ops, pyds, seams, simfs, vecs, world
from dst.core import check

RUNS = {"quick": 20000, "thorough": 150000}
BATCH = 60
LEVEL = "exploration"
RULE = ("seeded sessions, vectors, file conversions, datasets, column files or "
        "function calls, parts of them disturbed; non-trivial if a call was "
        "disturbed or an array argument was given")
STATE_MEASURE = ("distinct (kind of call, argument kinds, disturbance, ending,"
                 " stored locations changed) tuples")
REAL = ["all of ocbpy except downloads", "numpy", "pandas", "xarray", "pysat",
        "aacgmv2"]
STUB = ["file system (in memory, with faults)", "ocbpy log handler",
        "numpy allocator"]
ASSUMES = ["attributes for stored boundary locations may come to exist empty"]
SHRINK = ["ops", "series.rows", "dual.ocb.rows", "dual.eab.rows",
          "obs.blocks", "trouble.faults", "calls", "ops.*.sel.2",
          "ops.*.sel_e.2"]
KINDS = {"session": 6, "vectors": 2, "conv": 1.2, "pysat": .8, "ascii": .8,
         "funcs": 1.5}


# ------------------------------------------------------------------ generation
def gen(rng, tier, index):
    kind = core.pick(rng, KINDS)
    plan = {"what": kind, "memseed": rng.getrandbits(30)}
    if kind in ("session", "vectors"):
        n = rng.choice([1, 1, 2, 3, 6])
        if rng.random() < .55:
            plan["dual"] = world.gen_dual(rng, n)
            hemi = plan["dual"]["ocb"]["hemi"]
            nrec = max(1, len(world.build_dual_model(plan["dual"]).pairs))
        else:
            plan["series"] = world.gen_series(
                rng, n, bound=rng.choice(["ocb", "ocb", "eab"]))
            hemi, nrec = plan["series"]["hemi"], n
    if kind == "session":
        plan["ops"] = []
        for _ in range(rng.randint(3, 10)):
            op = ops.gen_op(rng, plan, {
                "set": 3, "edge": 4, "normal": 4, "round": 1, "revert": 3,
                "radii": 2 if "dual" in plan else 0, "match": 1, "next": 1,
                "list": 1, "select": .5 if "dual" in plan else 0, "show": .3,
                "bad": 1})
            op["hurt"] = gen_hurt(rng)
            plan["ops"].append(op)
    elif kind == "vectors":
        plan["vec"] = vecs.gen_vec(rng, hemi, nrec)
        plan["ops"] = [{"op": rng.choice(["convert", "convert", "show",
                                          "clear"]),
                        "hurt": gen_hurt(rng)}
                       for _ in range(rng.randint(1, 3))]
        plan["rec"] = rng.randint(-1, nrec)
    elif kind == "conv":
        sub = conv.gen(rng, rng.choice(["smag", "vort"]))
        plan.update(sub)
        plan["hurt"] = gen_hurt(rng, .5)
    elif kind == "pysat":
        n = rng.choice([1, 2, 4])
        if rng.random() < .4:
            plan["dual"] = world.gen_dual(rng, n)
            ser = plan["dual"]["ocb"]
        else:
            ser = plan["series"] = world.gen_series(rng, n)
        times = sorted(set(world.gen_data_times(
            rng, [r["t"] for r in world.parse(ser)], rng.choice([1, 2, 4]))))
        geo = ser["hemi"] == 1 and rng.random() < .3
        plan["data"] = pyds.gen_data(rng, times, ser["hemi"], True, geo)
        plan["calls"] = []
        for _ in range(rng.randint(1, 2)):
            call = pyds.gen_call(rng, plan["data"], geo)
            call["sel"] = world.gen_select(rng, ser) if rng.random() < .3 \
                else [None, None, []]
            call["hurt"] = gen_hurt(rng)
            plan["calls"].append(call)
    elif kind == "ascii":
        plan["cols"] = rng.sample(["a", "b", "c", "d"], rng.randint(1, 4))
        plan["ints"] = [c for c in plan["cols"] if rng.random() < .3]
        plan["strs"] = [c for c in plan["cols"] if c not in plan["ints"]
                        and rng.random() < .3]
        plan["time"] = rng.choice([None, ["date", "time"], ["year", "soy"],
                                   ["date", "sod"]])
        plan["rows"] = rng.randint(0, 4)
        plan["kws"] = rng.choice([{}, {"comments": "#"}, {"dtype": "U50"},
                                  {"usecols": [0, 1]}, {"names": None}])
        plan["head"] = rng.random() < .5
        plan["hurt"] = gen_hurt(rng)
    else:
        plan["ops"] = [gen_fun(rng) for _ in range(rng.randint(2, 8))]
    return plan


def gen_hurt(rng, chance=.45):
    if rng.random() > chance:
        return None
    return {"how": rng.choice(["line", "line", "memory"]), "at": rng.random()}


def gen_fun(rng):
    name = rng.choice(sorted(FUNS))
    n = rng.choice([1, 2, 3, 5])
    vals = {}
    for arg in FUNS[name]:
        fun = ARGS[arg.split(":")[0]]
        vals[arg] = {"v": [fun(rng) for _ in range(n)],
                     "k": rng.choice(["f", "f", "ro", "l"])}
        if rng.random() < .1:
            vals[arg] = {"v": vals[arg]["v"][0], "k": "s"}
    return {"op": name, "args": vals, "hurt": gen_hurt(rng, .2),
            "opt": rng.randint(0, 5), "time": rng.choice(world.BASES)}


def _nan(fun, chance=.1):
    return lambda rng: float("nan") if rng.random() < chance else fun(rng)


ARGS = {
    "hour": _nan(lambda r: round(r.uniform(-3, 27), r.choice([0, 2, 15]))),
    "deg": _nan(lambda r: round(r.uniform(-200, 400), r.choice([0, 2, 15]))),
    "lat": _nan(lambda r: round(r.uniform(40, 90), r.choice([0, 2, 15]))),
    "colat": _nan(lambda r: round(r.uniform(0, 20), r.choice([0, 2, 15]))),
    "ang": _nan(lambda r: r.choice([0.0, 180.0, round(r.uniform(0, 180), 3)])),
    "comp": _nan(vecs.gen_comp),
    "quad": lambda r: float(r.choice([1, 2, 3, 4, 1, 2, 3, 4, 0])),
    "rad": _nan(lambda r: round(r.uniform(.5, 30), 3)),
    "km": _nan(lambda r: round(r.uniform(-30, 30), 3)),
}
FUNS = {
    "get_pole_loc": ["deg", "colat"],
    "calc_vec_pole_angle": ["hour", "lat", "hour:2", "lat:2"],
    "define_pole_quadrants": ["hour", "hour:2", "ang"],
    "define_vect_quadrants": ["comp", "comp:2"],
    "calc_dest_polar_angle": ["quad", "quad:2", "ang", "ang:2"],
    "calc_dest_vec_sign": ["quad", "quad:2", "ang", "ang:2"],
    "adjust_vector": ["hour", "lat", "comp", "comp:2", "comp:3", "quad",
                      "hour:2", "lat:2", "ang", "quad:2"],
    "circular": ["hour"], "elliptical": ["hour"], "harmonic": ["hour"],
    "deg2hr": ["deg"], "hr2deg": ["hour"], "hr2rad": ["hour"],
    "rad2hr": ["ang"], "slt2glon": ["hour"], "glon2slt": ["deg"],
    "fix_range": ["deg"], "normal_evar": ["comp", "rad", "rad:2"],
    "normal_curl_evar": ["comp", "rad", "rad:2"],
    "satellite_track": ["lat", "hour", "km", "km:2", "km:3", "km:4"],
}


# ------------------------------------------------------------------- disturbed
def attempt(work, hurt, rehearse, fired):
    """Run `work()`, disturbed as asked; returns the exception's name.

    `rehearse()` does the same to copies, to learn how long it takes.
    """
    memory, steps = None, seams.Steps(6000000)
    if hurt is not None:
        trial, mem = seams.Steps(6000000), seams.Memory(7, 1)
        try:
            with mem, trial:
                rehearse()
        except (seams.HarnessError, core.Violation):
            raise
        except Exception:
            pass
        if hurt["how"] == "line":
            if trial.used:
                steps = seams.Steps(6000000, trip_at=1 + int(
                    hurt["at"] * trial.used))
        elif mem.used:
            memory = seams.Memory(7, 1, int(hurt["at"] * mem.used))
    error = None
    try:
        if memory is not None:
            with memory, steps:
                work()
        else:
            with steps:
                work()
    except (seams.HarnessError, core.Violation):
        raise
    except (Exception, seams.SimInterrupt) as err:
        error = type(err).__name__
    hit = False
    if memory is not None and memory.hits:
        fired["allocation"] = fired.get("allocation", 0) + 1
        hit = True
    if steps.tripped:
        fired["interrupt"] = fired.get("interrupt", 0) + 1
        hit = True
    return error, hit


# ------------------------------------------------------------------- snapshots
def pairing(obj):
    """Everything a dual boundary itself holds, except its cursor."""
    return core.canon({k: v for k, v in core.public(obj).items()
                       if k not in ("ocb", "eab", "rec_ind")})


def edges(sess):
    """{(boundary, record): canonical stored location}, None-s left out."""
    out, seen = {}, {}
    for (name, key, i), val in sess.edges_snapshot().items():
        if val != core.canon(None):
            out[(name, i, key)] = val
            seen[(name, i)] = True
    return out, seen


def named(sess, op):
    """Records whose stored locations an operation may set."""
    out = set()
    if op["op"] == "edge":
        rec = sess.edge_rec(op, sess.obj)
        for name, one, _ in sess.singles():
            if rec is None:
                out |= {(name, i) for i in range(one.records)}
            elif not sess.isdual:
                out |= {(name, int(r)) for r in np.atleast_1d(rec)}
            else:
                inds = getattr(sess.obj, name + "_ind")
                out |= {(name, int(inds[r])) for r in np.atleast_1d(rec)}
    elif sess.isdual and op["op"] in ("normal", "round", "revert", "radii",
                                      "bad"):
        out = {(name, int(one.rec_ind)) for name, one, _ in sess.singles()}
    return out


def same_edges(sess, op, before, may, where):
    (old, seen), (now, _) = before, edges(sess)
    over = bool(op.get("over"))
    changed = 0
    for key in set(old) | set(now):
        name, i, _ = key
        if old.get(key) == now.get(key):
            continue
        changed += 1
        check((name, i) in may, "other-location-changed", where, key)
        check(over or (name, i) not in seen, "location-overwritten", where,
              key)
    return changed


# ------------------------------------------------------------------------ runs
def run(plan):
    dig = core.Digest()
    counts, fired = {plan["what"]: 1}, {}
    with simfs.SimFS() as fs, seams.LogTrap():
        hit = globals()["run_" + plan["what"]](plan, fs, dig, fired)
    return {"digest": dig.hex(), "nontrivial": bool(hit),
            "states": dig.states, "counts": counts, "fired": fired}


def world_of(plan):
    return {k: plan[k] for k in ("series", "dual") if k in plan}


def run_session(plan, fs, dig, fired):
    sess = ops.Session(world_of(plan), fs)
    base = sess.snapshot()
    pairs = pairing(sess.obj) if sess.isdual else None
    hit = False
    prev = "load"
    for num, op in enumerate(plan["ops"]):
        kind = op["op"]
        obj = sess.obj
        if not obj.records and (kind == "edge" or (kind == "select" and
                                                   obj.dtime is None)):
            continue
        if kind in ("next", "list") and not (sess.isdual or sess.ref.recs):
            continue
        where = "op {:d} {:s} after {:s}".format(num, str(op)[:250], prev)
        if sess.isdual and obj.records:
            sess.ref.times = list(obj.dtime)
        before = edges(sess)
        may = named(sess, op)
        args = ops.Args()
        error, hurt = attempt(
            lambda: sess.do(op, args=args), op["hurt"],
            lambda: sess.do(op, obj=copy.deepcopy(obj)), fired)
        hit |= hurt
        args.verify(where)
        now = sess.snapshot()
        check(now == base, "record-changed", where, error,
              [k for k in now if now[k] != base.get(k)] or "gone")
        if sess.isdual:
            new = pairing(obj)
            again = kind == "select" or (kind == "match"
                                         and op["sel"] != [None, None, []])
            check(again or new == pairs, "pairs-changed", where, error)
            pairs = new
        changed = same_edges(sess, op, before, may, where)
        if hurt and sess.isdual:
            # Interrupted moves and selections may be half done
            if kind in ("select", "match"):
                sess.obj = sess.fresh()
                pairs = pairing(sess.obj)
            elif kind in ("set", "next"):
                sess.obj.rec_ind = 0
        dig.add(kind, error, sess.cursor, changed)
        dig.state(kind, op.get("lat", op.get("mlt", {})).get("k"),
                  op["hurt"] and op["hurt"]["how"], error, changed > 0,
                  sess.isdual)
        prev = kind
    return hit


def run_vectors(plan, fs, dig, fired):
    sess = ops.Session(world_of(plan), fs)
    if not sess.obj.records:
        return False
    vec = core.jround(plan["vec"])
    vec["ocb"] = [o % sess.obj.records for o in vec["ocb"]]
    sess.obj.rec_ind = plan["rec"]
    base = sess.snapshot()
    pairs = pairing(sess.obj) if sess.isdual else None
    args = ops.Args()
    obj = vecs.make(vec, args)
    hit = False
    for num, op in enumerate(plan["ops"]):
        where = "op {:d} {:s}".format(num, str(op))

        def work(vector, bound):
            if op["op"] == "convert":
                vector.set_ocb(bound, **vecs.trace(vec))
            elif op["op"] == "clear":
                vector.clear_data()
            else:
                str(vector), repr(vector)
        before = edges(sess)
        error, hurt = attempt(
            lambda: work(obj, sess.obj), op["hurt"],
            lambda: work(copy.deepcopy(obj), copy.deepcopy(sess.obj)), fired)
        hit |= hurt
        args.verify(where)
        now = sess.snapshot()
        check(now == base, "record-changed", where, error,
              [k for k in now if now[k] != base.get(k)] or "gone")
        if sess.isdual:
            check(pairing(sess.obj) == pairs, "pairs-changed", where, error)
        may = set()
        if sess.isdual:
            for k in vec["ocb"]:
                may |= {("ocb", int(sess.obj.ocb_ind[k])),
                        ("eab", int(sess.obj.eab_ind[k]))}
        same_edges(sess, {}, before, may, where)
        dig.add(op["op"], error)
        dig.state("vec", vec["shape"], vec["kind"], vec["coord"], op["op"],
                  op["hurt"] and op["hurt"]["how"], error)
    return hit or vec["shape"] != "s"


def run_conv(plan, fs, dig, fired):
    from dst import obs
    kind = plan["kind"]
    text = obs.smag_text(plan["obs"]) if kind == "smag" else obs.vort_text(
        plan["obs"])
    fs.put(conv.IN, text or "\n")
    fs.mkdirs("/vsim/out")
    sess = base = None
    if plan["mode"] == "file":
        fs.put(conv.BOUND, world.text(plan["series"]))
    else:
        sess = ops.Session(world_of(plan), fs)
        base = sess.snapshot()
        before = edges(sess)
    if plan["trouble"]["how"] == "io":
        fs.events = 0
        fs.faults = faults.place(plan["trouble"]["faults"], 60)
    error, hit = attempt(
        lambda: conv.convert(plan, sess and sess.obj), plan["hurt"],
        lambda: conv.convert(plan, sess and copy.deepcopy(sess.obj)), fired) \
        if plan["trouble"]["how"] != "io" else crashing(plan, sess)
    hit |= bool(fs.fired)
    faults.tally(fs, fired)
    if any("crash" in k for k in fs.fired):
        fs.revive()
    fs.faults = []
    if sess is not None:
        now = sess.snapshot()
        check(now == base, "record-changed", kind, error,
              [k for k in now if now[k] != base.get(k)] or "gone")
        may = set()
        if sess.isdual:
            may = {(name, i) for name, one, _ in sess.singles()
                   for i in range(one.records)}
        same_edges(sess, {}, before, may, kind)
    gone = any("vanish" in k or "truncate" in k for k in fs.fired)
    check(gone or fs.get(conv.IN) == (text or "\n").encode(), "input-changed",
          kind, error)
    dig.add(kind, error)
    dig.state("conv", kind, plan["mode"], plan["hurt"] and plan["hurt"]["how"],
              plan["trouble"]["how"] == "io", error)
    return hit


def crashing(plan, sess):
    try:
        with seams.Steps(6000000):
            conv.convert(plan, sess and sess.obj)
    except seams.HarnessError:
        raise
    except (Exception, seams.SimCrash) as err:
        return type(err).__name__, False
    return None, False


def run_pysat(plan, fs, dig, fired):
    from ocbpy.instruments import pysat_instruments
    sess = ops.Session(world_of(plan), fs)
    base = sess.snapshot()
    pairs = pairing(sess.obj) if sess.isdual else None
    inst = pyds.build(plan["data"])
    first = pyds.snapshot(inst)
    hit = False
    for num, call in enumerate(plan["calls"]):
        where = "call {:d}".format(num)
        lo, hi, crit = call["sel"]
        args = ops.Args()

        def work(data, bound, note):
            kws = pyds.call_args(plan["data"], call, note)
            pysat_instruments.add_ocb_to_data(
                data, ocb=bound, min_merit=lo, max_merit=hi, **kws,
                **world.crit_kwargs(crit))
        before = edges(sess)
        error, hurt = attempt(
            lambda: work(inst, sess.obj, args), call["hurt"],
            lambda: work(pyds.build(plan["data"]), copy.deepcopy(sess.obj),
                         ops.Args()), fired)
        hit |= hurt
        args.verify(where)
        now = pyds.snapshot(inst)
        check(all(now.get(k) == v for k, v in first.items()), "data-changed",
              where, error, [k for k in first if now.get(k) != first[k]])
        now = sess.snapshot()
        check(now == base, "record-changed", where, error,
              [k for k in now if now[k] != base.get(k)] or "gone")
        may = set()
        if sess.isdual:
            again = call["sel"] != [None, None, []]
            check(again or pairing(sess.obj) == pairs, "pairs-changed", where,
                  error)
            pairs = pairing(sess.obj)
            may = {(name, i) for name, one, _ in sess.singles()
                   for i in range(one.records)}
        same_edges(sess, {}, before, may, where)
        dig.add(error)
        dig.state("pysat", plan["data"]["form"],
                  call["hurt"] and call["hurt"]["how"], error)
    return hit


def run_ascii(plan, fs, dig, fired):
    from ocbpy.instruments import general
    names = list(plan["cols"]) + list(plan["time"] or [])
    form = {None: None, "time": "%Y-%m-%d %H:%M:%S", "soy": "YEAR SOY",
            "sod": "%Y-%m-%d SOD"}[plan["time"] and plan["time"][1]]
    cells = {"date": "2003-07-0{:d}", "time": "00:0{:d}:11", "year": "2003",
             "soy": "{:d}00", "sod": "1{:d}0.5"}
    rows = [" ".join(cells.get(c, "{:d}").format(1 + i) for c in names)
            for i in range(plan["rows"])]
    head = [" ".join(names)]
    lines = rows if plan["head"] else ["# " + head[0]] + rows
    fs.put("/vsim/cols.txt", "\n".join(lines) + "\n")
    args = ops.Args()
    kws = {"gft_kwargs": args.note("gft_kwargs", copy.deepcopy(plan["kws"])),
           "int_cols": args.note("int_cols", list(plan["ints"])),
           "str_cols": args.note("str_cols", list(plan["strs"])),
           "datetime_cols": args.note("datetime_cols",
                                      list(plan["time"] or [])),
           "datetime_fmt": form}
    hlines = 1
    if plan["head"]:
        hlines = 0
        kws["header"] = args.note("header", list(head))

    def work(given):
        general.load_ascii_data("/vsim/cols.txt", hlines, **given)
    error, hit = attempt(lambda: work(kws), plan["hurt"],
                         lambda: work(copy.deepcopy(kws)), fired)
    args.verify(str(plan["kws"]) + " " + str(error))
    # A second file is not affected by the first
    error2, _ = attempt(lambda: work(kws), None, None, fired)
    args.verify(str(plan["kws"]) + " again " + str(error2))
    dig.add(error, error2)
    dig.state("ascii", sorted(plan["kws"]), form, error, plan["head"])
    return hit or plan["rows"] > 0


def call_fun(op, args):
    """The call of a plan, ready to be made."""
    from ocbpy import cycle_boundary, ocb_correction, ocb_scaling, ocb_time
    from ocbpy import vectors
    mods = (vectors, ocb_correction, ocb_time, ocb_scaling, cycle_boundary)
    name = op["op"]
    fun = [getattr(m, name) for m in mods if hasattr(m, name)][0]
    when = world.when(op["time"])
    given = [args(op["args"][a], a) for a in FUNS[name]]
    kws = {}
    opt = op["opt"]
    if name in ("slt2glon", "glon2slt"):
        given.append(when)
    elif name == "fix_range":
        given += [[0.0, 360.0], [-180.0, 180.0], [0.0, 24.0]][opt % 3]
    elif name == "circular":
        kws = {"r_add": [0.0, 1.5, -2.0][opt % 3]}
    elif name in ("elliptical", "harmonic"):
        kws = {"method": ["median", "gaussian"][opt % 2]}
    elif name == "calc_dest_vec_sign":
        kws = {"north": opt % 2 == 0, "east": opt > 1}
    elif name == "satellite_track":
        given.append([1, -1][opt % 2])
        kws = {"past_bound": 5.0 if opt > 2 else 0.0}
    return lambda: fun(*given, **kws)


def run_funcs(plan, fs, dig, fired):
    for num, op in enumerate(plan["ops"]):
        name = op["op"]
        args = ops.Args()
        error, _ = attempt(call_fun(op, args), op["hurt"],
                           call_fun(op, ops.Args()), fired)
        args.verify("call {:d} {:s} {:}".format(num, name, error))
        dig.add(name, error)
        dig.state("fun", name, [op["args"][a]["k"] for a in FUNS[name]],
                  op["hurt"] and op["hurt"]["how"], error)
    return True
