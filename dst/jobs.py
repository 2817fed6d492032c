"""Jobs: small uses of ocbpy, each with its own objects and files.

`gen(rng)` makes a JSON job; `script(job, fs, home, note)` performs it step by
step and calls `note(step, outcome)` after each, where an outcome is anything
`core.canon` can represent.  Nothing a job does depends on other jobs.
"""
import copy
import datetime as dt

from dst import conv, core, obs, ops, pyds, vecs, world
from dst.seams import HarnessError

KINDS = {"session": 6, "vectors": 3, "smag": 1.5, "vort": 1.5, "pysat": 1,
         "ascii": 1, "format": 1, "funcs": 1, "default": 1, "read": 1}
# These change what `requests` and `wget` do: not for use by threads
ALL = dict(KINDS, fetch=.7, daily=.7)


def gen(rng, kind=None, kinds=KINDS):
    kind = kind or core.pick(rng, kinds)
    job = {"job": kind}
    if kind in ("session", "vectors"):
        n = rng.choice([1, 2, 3, 5])
        if rng.random() < .55:
            job["dual"] = world.gen_dual(rng, n)
            hemi = job["dual"]["ocb"]["hemi"]
            nrec = max(1, len(world.build_dual_model(job["dual"]).pairs))
        else:
            job["series"] = world.gen_series(
                rng, n, bound=rng.choice(["ocb", "ocb", "eab"]))
            hemi, nrec = job["series"]["hemi"], n
    if kind == "session":
        job["ops"] = [ops.gen_op(rng, job, {
            "set": 3, "edge": 3, "normal": 4, "round": 2, "revert": 2,
            "radii": 1 if "dual" in job else 0, "match": 1, "next": 2,
            "list": 1, "select": 1 if "dual" in job else 0, "show": 1,
            "bad": .5}) for _ in range(rng.randint(2, 7))]
    elif kind == "vectors":
        job["vec"] = [vecs.gen_vec(rng, hemi, nrec)
                      for _ in range(rng.randint(1, 2))]
        for vec in job["vec"]:
            wild(rng, vec)
        job["rec"] = rng.randint(0, nrec)
    elif kind in ("smag", "vort"):
        job["conv"] = conv.gen(rng, kind)
    elif kind == "pysat":
        n = rng.choice([1, 2, 3])
        if rng.random() < .4:
            job["dual"] = world.gen_dual(rng, n)
            ser = job["dual"]["ocb"]
        else:
            ser = job["series"] = world.gen_series(rng, n)
        times = sorted(set(world.gen_data_times(
            rng, [r["t"] for r in world.parse(ser)], rng.choice([1, 2, 3]))))
        geo = ser["hemi"] == 1 and rng.random() < .3
        job["data"] = pyds.gen_data(rng, times, ser["hemi"], True, geo)
        job["call"] = pyds.gen_call(rng, job["data"], geo)
    elif kind == "ascii":
        job["rows"] = [[rng.choice(["1", "2.5", "-3", "nan", "1e3"])
                        for _ in range(3)] for _ in range(rng.randint(0, 5))]
        job["time"] = rng.random() < .5
        job["ints"] = rng.random() < .5
        if job["ints"] and rng.random() < .9:
            for row in job["rows"]:
                row[0] = str(rng.randint(-9, 99))
        job["head"] = rng.random() < .5
    elif kind == "format":
        from dst.checks import c12
        job["inputs"] = c12.gen_inputs(rng)[:3]
    elif kind == "default":
        job["asks"] = [[rng.choice([1, -1]), rng.choice(
            ["", "image", "dmsp-ssj", "ampere"]), rng.choice(["ocb", "eab"])]
            for _ in range(rng.randint(1, 4))]
    elif kind == "fetch":
        from dst.checks import c11
        job["plan"] = dict(c11.gen(rng, "quick", 0), dir="abs", tries=[],
                           first=True)
    elif kind == "daily":
        from dst.checks import c11, c12
        names = c11.gen_members(rng, 4)[:3]
        kinds = {"good": 12, "empty": 1, "extra": .5}
        job["plan"] = {
            "members": [[n, c12.text_of(dict(c12.gen_text(rng, kinds)))]
                        for n in names],
            "req": dict(c11.gen_request(rng, names), sats=None),
            "deflate": rng.random() < .5, "others": [], "first": True,
            "rm": rng.random() < .8}
    elif kind == "read":
        times = world.gen_data_times(rng, [], rng.choice([1, 2, 4]))
        times = [t.replace(microsecond=0) for t in times]
        if rng.random() < .5:
            job["smag"] = obs.smag_text(obs.gen_smag(rng, times, 0, 3))
        else:
            job["vort"] = obs.vort_text(obs.gen_vort(rng, times, 0, 3))
            job["all"] = rng.random() < .5
    elif kind == "funcs":
        from dst.checks import c05
        job["calls"] = [c05.gen_fun(rng) for _ in range(rng.randint(1, 5))]
    return job


def wild(rng, vec):
    """Undefined locations, components and magnitudes, and wrong ones."""
    nan = float("nan")
    vals = vec["vals"]
    if rng.random() < .3:
        name = rng.choice(["lat", "lt", "n", "e", "z"])
        pos = rng.randrange(len(vals[name]))
        vals[name][pos] = rng.choice([nan, nan, 0.0])
        if vec.get("same") == name:
            vals[name] = [vals[name][pos]] * len(vals[name])
    if rng.random() < .4:
        mag = [(n * n + e * e + z * z) ** .5 for n, e, z in zip(
            vals["n"], vals["e"], vals["z"])]
        for i in range(len(mag)):
            if rng.random() < .4:
                mag[i] = rng.choice([nan, nan, mag[i] + 1.0, 0.0])
        vec["given"] = {"vect_mag": mag if vec["shape"] in ("d", "do")
                        else mag[0]}


def outcome(fun):
    """Result of a step, or the exception it ended with."""
    try:
        return ["ok", fun()]
    except HarnessError:
        raise
    except Exception as err:
        return ["raised", type(err).__name__, str(err)]


def _hold(val):
    """Copy of results that later steps cannot alter."""
    if isinstance(val, (list, tuple)):
        return [_hold(v) for v in val]
    return copy.deepcopy(val)


def world_of(job):
    return {k: job[k] for k in ("series", "dual") if k in job}


def script(job, fs, home, note):
    globals()["_" + job["job"]](job, fs, home, note)


def _load(job, fs, home, note):
    got = []

    def load():
        got.append(ops.Session(world_of(job), fs, home + "/s"))
        return [got[0].obj.records]
    note("load", outcome(load))
    return got[0] if got else None


def _session(job, fs, home, note):
    sess = _load(job, fs, home, note)
    if sess is None:
        return
    for num, op in enumerate(job["ops"]):
        note("{:d}:{:s}".format(num, op["op"]), outcome(
            lambda: _hold(sess.do(op))) + [
                sess.cursor, sorted((str(k), v) for k, v in
                                    sess.edges_snapshot().items())])
    note("records", [sess.snapshot()])


def _vectors(job, fs, home, note):
    sess = _load(job, fs, home, note)
    if sess is None or not sess.obj.records:
        return
    sess.obj.rec_ind = job["rec"]
    done = []
    for num, vec in enumerate(job["vec"]):
        vec = core.jround(vec)
        vec["ocb"] = [o % sess.obj.records for o in vec["ocb"]]
        if vec["coord"] == "magnetic" and vecs.turns(vec) and any(
                not abs(lat) < 89.5 for lat in vec["vals"]["lat"]):
            # AACGMV2 does not end when it traces from its own pole
            vec.pop("trace", None)
            if not isinstance(vec["height"], list):
                vec["height"] = min(vec["height"], 2000.0)

        def work():
            obj = vecs.make(vec)
            done.append(obj)
            obj.set_ocb(sess.obj, **vecs.trace(vec))
            return _vars(obj)
        note("convert{:d}".format(num), outcome(work))
    for num, obj in enumerate(done):
        # The first vector is what it was before the second one
        note("vector{:d}".format(num), outcome(
            lambda: _vars(obj) + [str(obj)]))
    note("records", [sess.snapshot()])


def _vars(obj):
    return [[key, _hold(val) if not callable(val) else val.__name__]
            for key, val in sorted(core.public(obj).items())]


def _conv(job, fs, home, note):
    sub = job["conv"]
    text = obs.smag_text(sub["obs"]) if sub["kind"] == "smag" else \
        obs.vort_text(sub["obs"])
    fs.put(home + "/in.txt", text or "\n")
    fs.mkdirs(home + "/out")
    bound = None
    if sub["mode"] == "file":
        fs.put(home + "/b.txt", world.text(sub["series"]))
    else:
        sess = _load(sub, fs, home, note)
        if sess is None:
            return
        bound = sess.obj
    note("convert", outcome(lambda: conv.convert(
        sub, bound, home + "/in.txt", home + "/out/o.txt",
        home + "/b.txt")))
    note("output", [fs.get(home + "/out/o.txt")])


_smag = _vort = _conv


def _pysat(job, fs, home, note):
    from ocbpy.instruments import pysat_instruments
    sess = _load(job, fs, home, note)
    if sess is None:
        return
    data = pyds.build(job["data"])

    def work():
        pysat_instruments.add_ocb_to_data(data, ocb=sess.obj, **pyds.call_args(
            job["data"], job["call"], ops.Args()))
    note("add", outcome(work))
    note("data", [sorted((str(k), v) for k, v in
                         pyds.snapshot(data).items())])


def _ascii(job, fs, home, note):
    from ocbpy.instruments import general
    name = home + "/cols.txt"
    cols = "a b c" + (" date time" if job["time"] else "")
    rows = [" ".join(r + (["2003-07-0{:d} 00:00:11".format(1 + i)]
                          if job["time"] else []))
            for i, r in enumerate(job["rows"])]
    lines = rows if job["head"] else ["# " + cols] + rows
    fs.put(name, "\n".join(lines) + "\n")
    kws = {}
    if job["time"]:
        kws.update(datetime_cols=[3, 4],
                   datetime_fmt="%Y-%m-%d %H:%M:%S")
    if job["ints"]:
        kws.update(int_cols=[0], str_cols=[1])
    if job["head"]:
        kws["header"] = [cols]

    def work():
        head, data = general.load_ascii_data(
            name, 0 if job["head"] else 1, **kws)
        return [list(head), sorted((k, _hold(v)) for k, v in data.items())]
    note("load", outcome(work))


def _format(job, fs, home, note):
    from ocbpy.boundaries import dmsp_ssj_files
    from dst.checks import c12
    paths = []
    for folder, name, item in job["inputs"]:
        text = c12.text_of(item)
        paths.append(home + "/" + folder + name)
        fs.mkdirs(home + "/" + folder.rstrip("/"))
        if text is not None:
            fs.put(paths[-1], text)
    note("format", outcome(lambda: sorted(
        str(p) for p in dmsp_ssj_files.format_ssj_boundary_files(paths))))
    note("outputs", [[[p, fs.get(home + "/" + p)]
                      for p in fs.listing(home)]])


def _default(job, fs, home, note):
    from ocbpy.boundaries import files
    for hemi, inst, bound in job["asks"]:
        def work():
            name, inst_ = files.get_default_file(None, None, hemi, inst, bound)
            return [name, inst_]
        note("ask", outcome(work))


def _read(job, fs, home, note):
    from ocbpy.instruments import supermag, vort
    name = home + "/obs.txt"
    fs.put(name, job.get("smag", job.get("vort")))

    def work():
        if "smag" in job:
            head, data = supermag.load_supermag_ascii_data(name)
        else:
            head, data = None, vort.load_vorticity_ascii_data(
                name, save_all=job["all"])
        return [head, None if data is None else sorted(
            (k, _hold(v)) for k, v in data.items())]
    note("read", outcome(work))


def _daily(job, fs, home, note):
    from dst import net
    from dst.checks import c11
    from ocbpy.boundaries import dmsp_ssj_files
    plan = job["plan"]
    lim = c11.parse(plan["req"])
    fs.mkdirs(home + "/out")
    with net.Net(fs, c11.bytes_of(plan), faults=()):
        note("daily", outcome(
            lambda: dmsp_ssj_files.fetch_format_ssj_boundary_files(
                lim["s"], lim["e"], out_dir=home + "/out",
                rm_temp=plan["rm"])))
    note("outputs", [[[p, fs.get(home + "/" + p)]
                      for p in fs.listing(home)]])


def _fetch(job, fs, home, note):
    from dst import net
    from dst.checks import c11
    plan = job["plan"]
    fs.mkdirs(home + "/out")
    with net.Net(fs, c11.bytes_of(plan), faults=()):
        note("fetch", outcome(lambda: c11.call(plan, home + "/out")))


def _funcs(job, fs, home, note):
    from dst.checks import c05
    for num, call in enumerate(job["calls"]):
        note("{:d}:{:s}".format(num, call["op"]), outcome(
            lambda: _hold(c05.call_fun(call, ops.Args())())))


__all__ = ["gen", "script", "dt"]


def preload(runs=60, kinds=KINDS):
    """Import what jobs import on the way, without running any job here."""
    import importlib
    import random
    import sys
    from dst import seams, simfs

    def work():
        before = set(sys.modules)
        for i in range(runs):
            job = gen(random.Random(i), sorted(kinds)[i % len(kinds)])
            fs = simfs.SimFS()
            try:
                with fs, seams.LogTrap(), seams.Steps(limit=300000):
                    fs.mkdirs("/vsim/p")
                    script(job, fs, "/vsim/p", lambda *args: None)
            except (Exception, seams.StepLimit):
                # Judging jobs is for the runs
                continue
        return sorted(set(sys.modules) - before)
    for name in core.forked(work):
        if not name.startswith(("ocbpy", "dst")):
            try:
                importlib.import_module(name)
            except ImportError:
                pass
