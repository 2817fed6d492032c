"""C13: which boundary file is the default one.

A seeded boundary directory, listed in seeded orders, is asked again and again
at seeded times of day, while files that cannot matter come and go; every
answer is compared with an independent selection, and equal questions must get
equal answers.  A directory that cannot be listed must not look empty.
"""
import datetime as dt
import os
import random

from dst import core, seams, simfs, world
from dst.core import check

RUNS = {"quick": 20000, "thorough": 400000}
BATCH = 100
LEVEL = "exploration"
RULE = ("seeded directories, 2-8 questions each; non-trivial if some question "
        "had several suitable files and some had none, or a fault struck")
STATE_MEASURE = ("distinct (boundary, hemisphere, instrument asked, "
                 "instruments that suit, answer) tuples")
REAL = ["ocbpy.boundaries.files", "default files of OCBoundary, EABoundary "
        "and DualBoundary"]
STUB = ["boundary directory (in memory, seeded order, with faults)", "clock"]
ASSUMES = ["the time zone is UTC"]
SHRINK = ["asks", "files", "noise"]
RANK = ["image", "amp", "si13", "si12", "wic", "dmsp-ssj"]
LONG = {"amp": "ampere", "si12": "image", "si13": "image", "wic": "image"}
FAMILY = {"ampere": ["amp"], "image": ["image", "si12", "si13", "wic"],
          "dmsp-ssj": ["dmsp-ssj"]}
FIXED = {"amp": ("2010-01-01", "2022-01-01"),
         "si12": ("2000-05-04", "2002-11-01"),
         "si13": ("2000-05-03", "2002-11-01"),
         "wic": ("2000-05-04", "2002-11-01"),
         "image": ("2000-05-03", "2002-11-01"),
         "dmsp-ssj": ("2010-01-01", None)}
ODD = ["pfrr", "swarm-a", "radar2", "ampx", "ima"]
DAYS = ["2000-05-02", "2000-05-03", "2000-05-04", "2001-06-01", "2002-10-31",
        "2002-11-01", "2002-11-02", "2009-12-31", "2010-01-01", "2015-03-07",
        "2021-12-31", "2022-01-01", "2022-01-02", "2024-02-29"]
NOISE = ["README.md", "README_north.ocb", "notes.txt", "amp_north.ocb.gz",
         "north.ocb", ".ocb", "x.ocb", "_north.ocb", "amp_east.ocb", "amp.ocb",
         "amp_northern.eab", "amp_north.dat", "files.py.ocb", "a_b_c_d_e.eab",
         "pfrr_up_20100101_20120101.ocb", "__.ocb", "ocb", "amp-north.eab",
         "amp_north_ocb.txt", "=.eab", "image.eab"]


def gen_name(rng, bound):
    inst = rng.choice(RANK + RANK + ODD)
    hemi = rng.choice(["north", "north", "south"])
    if inst in ODD or inst == "dmsp-ssj":
        days = sorted([rng.choice(DAYS), rng.choice(DAYS)])
        if inst in ODD and rng.random() < .15:
            tail = rng.choice(["", "_2010", "_x_y", "_20101301_20110101",
                               "_20100101"])
        else:
            tail = "_{:s}_{:s}".format(*[d.replace("-", "") for d in days])
            tail += rng.choice(["", "_v1.1.2", "_v2", "_b"])
    else:
        tail = rng.choice(["", "_radii", "_v2", "_circle", "_b", "_a"])
    name = "{:s}_{:s}{:s}.{:s}".format(inst, hemi, tail, bound)
    if rng.random() < .07:
        name = name.upper()
    elif rng.random() < .04:
        name = name[:-3] + name[-3:].upper()
    return name


def gen_ask(rng, bound):
    out = {"do": core.pick(rng, {"file": 5, "list": 1, "object": 2, "dual": 1}),
           "bound": bound if rng.random() < .8 else rng.choice(["ocb", "eab"]),
           "hemi": rng.choice([1, 1, -1]),
           "inst": rng.choice(["", "", "", "image", "ampere", "dmsp-ssj", "amp",
                               "si12", "si13", "wic"] + ODD),
           "inst2": rng.choice(["", "", "image", "ampere", "dmsp-ssj", "si13"])}
    for key in ("s", "e"):
        day = rng.choice(DAYS + ["today", "tomorrow", "later", None, None])
        out[key] = day if day is None else [day, rng.choice(
            [0, 0, 1, 43200, 86399, -1])]
    if rng.random() < .15:
        out["s"] = out["e"] = None
    elif out["s"] and out["e"] and out["s"][0] in DAYS and \
            out["e"][0] in DAYS and out["s"][0] > out["e"][0]:
        out["s"], out["e"] = out["e"], out["s"]
    if rng.random() < .3:
        out["same"] = True
    if rng.random() < .06:
        out["fault"] = rng.choice(["EIO", "EACCES", "EMFILE", "ENOMEM"])
    out["time"] = rng.choice([0.0, .5, 86399.9, 43200.0, rng.random() * 86400])
    out["shuffle"] = rng.randrange(1 << 20)
    out["noise"] = rng.sample(NOISE, rng.randint(0, 6))
    return out


def gen(rng, tier, index):
    bound = rng.choice(["ocb", "ocb", "eab"])
    files = sorted(set(gen_name(rng, bound if rng.random() < .85 else
                                rng.choice(["ocb", "eab"]))
                       for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12]))))
    return {"files": files, "day": rng.choice([18262, 19783, 20000, 25000,
                                               14609]),
            "dirs": rng.sample(NOISE + ["amp_north.d.ocb"], 2)
            if rng.random() < .2 else [],
            "tick": rng.choice([0, 0, .001]),
            "asks": [gen_ask(rng, bound) for _ in range(rng.randint(2, 8))]}


# ----------------------------------------------------------------- the oracle
def moment(spec, today):
    if spec is None:
        return None
    day, add = spec
    if day in ("today", "tomorrow", "later"):
        base = today + dt.timedelta(days={"today": 0, "tomorrow": 1,
                                          "later": 2}[day])
    else:
        base = dt.datetime.strptime(day, "%Y-%m-%d")
    return base + dt.timedelta(seconds=add)


def describe(name, today):
    """(instrument, hemisphere, start, end) of a boundary file's name."""
    info = name.lower()[:-4].split("_")
    hemi = {"north": 1, "south": -1}[info[1]]
    if info[0] in FIXED:
        start, end = FIXED[info[0]]
        start = dt.datetime.strptime(start, "%Y-%m-%d")
        end = today + dt.timedelta(days=1) if end is None else \
            dt.datetime.strptime(end, "%Y-%m-%d")
        return info[0], hemi, start, end
    try:
        return (info[0], hemi, dt.datetime.strptime(info[2], "%Y%m%d"),
                dt.datetime.strptime(info[3], "%Y%m%d"))
    except (IndexError, ValueError):
        return info[0], hemi, None, None


def suits(files, bound, hemi, inst, lim, today):
    """Best suitable names, and the instruments of all suitable ones."""
    if inst == "":
        good = RANK
    else:
        good = FAMILY.get(inst, [inst])
    names = {}
    for name in files:
        if name[-4:].lower() != "." + bound:
            continue
        what, where, start, end = describe(name, today)
        if where != hemi or what not in good:
            continue
        if lim[0] is not None and lim[1] is not None and (
                start is None or lim[0] > end or lim[1] < start):
            continue
        names[name] = what
    if not names:
        return [], []
    best = min(RANK.index(w) if w in RANK else len(RANK)
               for w in names.values())
    return ([n for n, w in names.items()
             if (RANK.index(w) if w in RANK else len(RANK)) == best],
            sorted(set(names.values())))


def content(name, num):
    """A small boundary file, its radii telling which file it is."""
    inst = name.lower().split("_")[0]
    rad = "{:.1f}".format(10.0 + num)
    if inst in ("image", "si12", "si13", "wic"):
        return "2001 {:d} 24 40.0 2.0 {:s} 12.0 1.0 1.0\n".format(
            10000000 + num, rad) * 3
    if inst == "amp":
        return "20150307 12:{:02d} {:s} 1.0 2.0 4.0\n".format(
            num % 60, rad) * 3
    return ("#sc date time r x y fom x_1 y_1 x_2 y_2\n"
            + "16 2015-03-07 10:00:{:02d} {:s} 1.0 2.0 5.0 1 2 3 4\n".format(
                num % 60, rad) * 3)


# -------------------------------------------------------------------- running
def run(plan):
    import ocbpy
    import ocbpy.boundaries.files as bfiles
    real = os.path.dirname(os.path.realpath(ocbpy.boundaries.__file__))
    dig, fired, counts = core.Digest(), {}, {"asked": 0, "objects": 0}
    today = dt.datetime(1970, 1, 1) + dt.timedelta(days=plan["day"])
    fs = simfs.SimFS(mounts=[(real, "/vsim/b")])
    fs.mkdirs("/vsim/b")
    for num, name in enumerate(plan["files"]):
        fs.put("/vsim/b/" + name, content(name, num))
    for name in plan["dirs"]:
        if name not in plan["files"]:
            fs.mkdirs("/vsim/b/" + name)
    known = {}
    many = none = False
    last = None
    noisy = set()
    with fs, seams.LogTrap(), seams.Clock(0, plan["tick"]) as clock:
        for num, ask in enumerate(plan["asks"]):
            for name in noisy:
                fs.nodes.pop("/vsim/b/" + name, None)
            noisy = set(n for n in ask["noise"] if n not in plan["files"]
                        and n not in plan["dirs"])
            for name in noisy:
                fs.put("/vsim/b/" + name, "noise\n")
            fs.shuffle = random.Random(ask["shuffle"])
            clock.set(plan["day"] * 86400.0 + min(ask["time"], 86399.0))
            if ask.get("same") and last is not None:
                ask = dict(last, **{k: ask[k] for k in (
                    "time", "shuffle", "noise")})
                ask.pop("fault", None)
            last = ask
            where = "question {:d} {:s}".format(num, str(
                {k: ask[k] for k in sorted(ask) if k != "noise"}))
            lim = (moment(ask["s"], today), moment(ask["e"], today))
            counts["asked"] += 1
            if ask.get("fault"):
                fs.op_counts = {}
                fs.faults = [{"op": "listdir", "nth": 0, "kind": "errno",
                              "errno": ask["fault"]}]
                try:
                    with seams.Steps(500000):
                        out = bfiles.get_default_file(
                            lim[0], lim[1], ask["hemi"], ask["inst"],
                            ask["bound"])
                    struck = bool(fs.fired)
                    check(not struck, "error-hidden", where, out)
                except OSError:
                    pass
                for key, val in fs.fired.items():
                    fired[key] = fired.get(key, 0) + val
                fs.faults, fs.fired = [], {}
                continue
            best, kinds = suits(plan["files"], ask["bound"], ask["hemi"],
                                ask["inst"], lim, today)
            many |= len(best) > 1 or len(kinds) > 1
            none |= not best
            with seams.Steps(500000):
                got = do(ask, lim, bfiles, ocbpy, real, plan, today, where,
                         counts)
            if ask["do"] == "file":
                key = (ask["bound"], ask["hemi"], ask["inst"], str(lim))
                got = [got]
                check(known.setdefault(key, got) == got, "answer-changed",
                      where, got, "before", known[key])
            dig.add(got)
            dig.state(ask["do"], ask["bound"], ask["hemi"], ask["inst"],
                      kinds, len(best), lim[0] is None, lim[1] is None)
    return {"digest": dig.hex(), "nontrivial": (many and none) or bool(fired),
            "states": dig.states, "counts": counts, "fired": fired}


def fits(name, inst, ask_inst, best, real, where):
    """Whether an answer is one of the best files."""
    if not best:
        check(name is None, "unsuitable", where, name, "want none")
        return
    check(name in [os.path.join(real, b) for b in best], "wrong-file", where,
          name, "want one of", best)
    short = os.path.basename(name).lower().split("_")[0]
    check(inst == LONG.get(short, short), "wrong-instrument", where, inst,
          name)


def do(ask, lim, bfiles, ocbpy, real, plan, today, where, counts):
    if ask["do"] == "file":
        best, _ = suits(plan["files"], ask["bound"], ask["hemi"], ask["inst"],
                        lim, today)
        args = (lim[0], lim[1], ask["hemi"])
        if ask["bound"] == "ocb" and ask["inst"] == "":
            name, inst = bfiles.get_default_file(*args)
        else:
            name, inst = bfiles.get_default_file(
                *args, instrument=ask["inst"], bound=ask["bound"])
        fits(name, inst, ask["inst"], best, real, where)
        return [name and os.path.basename(name), inst]
    if ask["do"] == "list":
        out = bfiles.get_boundary_files(bound=ask["bound"])
        want = {n: describe(n, today) for n in plan["files"]
                if n[-4:].lower() == "." + ask["bound"]}
        for name, (inst, hemi, start, end) in want.items():
            check(name in out, "not-listed", where, name)
            got = out[name]
            check(got["instrument"] == inst and got["hemisphere"] == hemi
                  and (start is None or got["stime"] == start)
                  and got.get("etime") == end,
                  "wrong-listing", where, name, got)
        return sorted(out)
    # Objects that choose their files themselves
    counts["objects"] += 1
    inst = ask["inst"] if ask["inst"] not in ODD + ["amp"] else ""
    kwargs = {"hemisphere": ask["hemi"], "stime": lim[0], "etime": lim[1]}
    if ask["do"] == "object":
        cls = ocbpy.OCBoundary if ask["bound"] == "ocb" else ocbpy.EABoundary
        parts = [(cls(instrument=inst, **kwargs), ask["bound"], inst)]
    else:
        dual = ocbpy.DualBoundary(eab_instrument=ask["inst2"],
                                  ocb_instrument=inst, **kwargs)
        parts = [(dual.eab, "eab", ask["inst2"]), (dual.ocb, "ocb", inst)]
    out = []
    for obj, bound, asked in parts:
        best, _ = suits(plan["files"], bound, ask["hemi"], asked, lim, today)
        here = where + " " + bound
        fits(obj.filename, obj.instrument, asked, best, real, here)
        if obj.records:
            num = plan["files"].index(os.path.basename(obj.filename))
            check(abs(obj.r[0] - (10.0 + num)) < 1e-9 or obj.instrument in
                  ("image",), "other-records", here, obj.r[0], num)
            counts["loaded"] = counts.get("loaded", 0) + 1
        check(obj.hemisphere == ask["hemi"], "hemisphere", here)
        out.append([obj.filename and os.path.basename(obj.filename),
                    obj.records])
    return out
