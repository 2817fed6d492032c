"""Seeded worlds: boundary record series, the files that hold them, the real
objects loaded from those files and the matching reference model.

A series is JSON: {"inst", "bound", "hemi", "blat", "rf", "rows", "win"} where
`rows` are the whitespace separated tokens of each line of the file, so that
the text of a plan is the input of the run.
"""
import datetime as dt
import math
import random

from dst import model
from dst.core import HarnessError, Unsupported, pick

COLS = {"image": "year soy num_sectors phi_cent r_cent r a r_err fom".split(),
        "ampere": "date time r x y fom".split(),
        "dmsp-ssj": "sc date time r x y fom x_1 y_1 x_2 y_2".split()}
DMSP_HEAD = "#sc date time r x y fom x_1 y_1 x_2 y_2\n"
BASES = ["2000-05-05 13:38:17", "2000-12-31 23:52:00", "2002-03-01 00:00:00",
         "2004-02-28 23:50:00", "2004-12-31 23:58:30", "2010-12-31 12:00:00",
         "2012-02-29 00:00:30", "2013-06-10 05:07:00", "1999-12-31 23:45:00"]
T_FMT = "%Y-%m-%d %H:%M:%S"
STEP = {"image": 1, "ampere": 60, "dmsp-ssj": 1}


def when(text):
    """Datetime of a plan's time string (None stays None)."""
    if text is None:
        return None
    return dt.datetime.strptime(text, T_FMT + (".%f" if "." in text else ""))


def stamp(time):
    return time.strftime(T_FMT + (".%f" if time.microsecond else ""))


def fnum(rng, lo, hi, digits=None):
    """Text of a number, sometimes short, sometimes with all its digits."""
    if digits is None:
        digits = rng.choice([0, 1, 2, 3, 3, 17])
    x = rng.uniform(lo, hi)
    if digits == 17:
        return repr(x)
    return "{:.{:d}f}".format(x, digits)


# ------------------------------------------------------------------- records
def gen_times(rng, inst, n, base=None, span=None):
    """Strictly increasing record times, at the instrument's resolution."""
    step = STEP[inst]
    now = when(base or rng.choice(BASES))
    if step == 60:
        now = now.replace(second=0)
    mode = span or pick(rng, {"regular": 3, "jitter": 3, "burst": 2, "gappy": 2,
                              "dense": 1})
    cad = rng.choice([1, 2, 3, 5, 60, 120, 123, 600])
    cad = max(step, cad // step * step)
    out = []
    for _ in range(n):
        out.append(now)
        gap = cad
        if mode == "jitter":
            gap = cad + step * rng.randint(0, 5)
        elif mode == "burst":
            gap = step if rng.random() < .8 else step * rng.randint(60, 2000)
        elif mode == "gappy":
            gap = cad * (1 if rng.random() < .8 else rng.randint(2, 40))
        elif mode == "dense":
            gap = step
        now = now + dt.timedelta(seconds=gap)
    return out


def row_tokens(rng, inst, time, geo):
    """Tokens of one line; `geo` holds phi, rc, r and fom text."""
    if inst == "image":
        year, soy = model.year_soy(time)
        soy = rng.choice(["{:.0f}", "{:.1f}"]).format(soy)
        return [str(year), soy, str(rng.randint(1, 24)), geo["phi"],
                geo["rc"], geo["r"], fnum(rng, 0, 9), fnum(rng, 0, 4),
                geo["fom"]]
    phi, rc = math.radians(float(geo["phi"]) - 90.0), float(geo["rc"])
    x, y = "{:.4f}".format(rc * math.cos(phi)), "{:.4f}".format(
        rc * math.sin(phi))
    if inst == "ampere":
        return [time.strftime("%Y%m%d"), time.strftime("%H:%M"), geo["r"], x, y,
                geo["fom"]]
    pts = [fnum(rng, -30, 30, 3) for _ in range(4)]
    return [str(rng.choice([16, 17, 18])), time.strftime("%Y-%m-%d"),
            time.strftime("%H:%M:%S"), geo["r"], x, y, geo["fom"]] + pts


def gen_geo(rng, inst, bound, wild=0.0):
    """Pole location, radius and merit of one record."""
    lo, hi = ((9.0, 22.0) if bound == "ocb" else (16.0, 32.0))
    rc = 0.0 if rng.random() < .02 else rng.uniform(0.05, 8.0)
    if wild and rng.random() < wild:
        rc = rng.uniform(0.0, 40.0)
        lo, hi = 1.0, 45.0
    limit = {"image": 5.0, "ampere": 0.15, "dmsp-ssj": 3.0}[inst]
    fom = pick(rng, {"good": 6, "bad": 2.5, "edge": 1, "nan": .4, "any": .6})
    up = inst == "image"
    if fom == "good":
        val = fnum(rng, *((0, limit) if up else (limit * 1.01, limit * 6)))
        if not up and float(val) < limit:
            val = repr(limit * 2)
    elif fom == "bad":
        val = fnum(rng, *((limit * 1.01, limit * 4) if up
                          else (0, limit * .99)), digits=rng.choice([3, 17]))
    elif fom == "edge":
        val = repr(limit)
    elif fom == "nan":
        val = "nan"
    else:
        val = rng.choice(["0.0", "1.0", "2.0", "3.0", "4.0", "1e9", "-1.0"])
    return {"phi": fnum(rng, 0, 360, rng.choice([1, 3, 17])),
            "rc": fnum(rng, rc, rc, 17),
            "r": fnum(rng, lo, hi, rng.choice([1, 3, 17])), "fom": val}


def gen_rf(rng, inst, bound):
    """Radius-correction settings."""
    mode = pick(rng, {"default": 6, "one": 2, "each": 1.5})
    if mode == "default":
        return None
    if mode == "one":
        return {"mode": "one", "fns": [gen_fn(rng)]}
    return {"mode": "each", "fns": [gen_fn(rng)
                                    for _ in range(rng.randint(1, 3))]}


def gen_fn(rng):
    name = rng.choice(["circular", "circular", "elliptical", "harmonic"])
    if name == "circular":
        return [name, rng.choice([{}, {"r_add": 1.0},
                                  {"r_add": round(rng.uniform(-3, 4), 3)}])]
    if name == "elliptical":
        return [name, {"method": rng.choice(["median", "gaussian"])}]
    return [name, rng.choice([
        {"instrument": "ampere", "method": rng.choice(["median", "gaussian"])},
        {"instrument": rng.choice(["si12", "si13", "wic"]),
         "method": rng.choice(["ocb", "eab"])}])]


def gen_series(rng, n, inst=None, bound="ocb", hemi=None, base=None, wild=0.0,
               rf=True, times=None, span=None):
    inst = inst or pick(rng, {"image": 4, "ampere": 2 if bound == "ocb" else 0.7,
                              "dmsp-ssj": 3})
    hemi = hemi or rng.choice([1, 1, -1])
    if times is None:
        times = gen_times(rng, inst, n, base, span)
    rows = [row_tokens(rng, inst, t, gen_geo(rng, inst, bound, wild))
            for t in times]
    blat = {"ocb": 74.0, "eab": 64.0}[bound]
    if rng.random() < .25:
        blat = rng.choice([72.0, 76.0, 70.5]) if bound == "ocb" \
            else rng.choice([62.0, 65.0, 60.5])
    if rng.random() < .1:
        blat = -blat
    return {"inst": inst, "bound": bound, "hemi": hemi, "blat": blat,
            "rf": gen_rf(rng, inst, bound) if rf else None, "rows": rows,
            "win": [None, None]}


def text(series):
    head = DMSP_HEAD if series["inst"] == "dmsp-ssj" else ""
    return head + "".join(" ".join(row) + "\n" for row in series["rows"])


# --------------------------------------------------------------------- model
def parse(series):
    """Model records of all lines of the file."""
    inst = series["inst"]
    cols = COLS[inst]
    out = []
    for n, row in enumerate(series["rows"]):
        rec = {}
        for name, tok in zip(cols, row):
            if name in ("date", "time"):
                rec[name] = tok
            elif name in ("year", "num_sectors"):
                rec[name] = int(tok)
            else:
                rec[name] = float(tok)
        if inst == "image":
            sec = math.floor(rec["soy"] + 0.5)
            rec["t"] = dt.datetime(rec["year"], 1, 1) + dt.timedelta(
                seconds=sec)
            rec["phi"], rec["rc"] = rec["phi_cent"], rec["r_cent"]
        else:
            fmt = "%Y%m%d %H:%M" if inst == "ampere" else T_FMT
            rec["t"] = dt.datetime.strptime(rec["date"] + " " + rec["time"],
                                            fmt)
            rec["rc"] = math.sqrt(rec["x"] ** 2 + rec["y"] ** 2)
            phi = math.degrees(math.atan2(rec["y"], rec["x"])) + 90.0
            rec["phi"] = phi + 360.0 if phi < 0.0 else phi
            rec["phi_cent"], rec["r_cent"] = rec["phi"], rec["rc"]
        rec["line"] = n
        rec["dtime"] = rec["t"]
        out.append(rec)
    return out


def in_window(rec, win):
    lo, hi = when(win[0]), when(win[1])
    return (lo is None or lo <= rec["t"]) and (hi is None or rec["t"] <= hi)


def build_model(series):
    recs = [r for r in parse(series) if in_window(r, series["win"])]
    fns = rf_list(series, len(recs))
    return model.Bound(recs, series["hemi"], series["blat"], fns,
                       model.LIMITS[series["inst"]])


def rf_list(series, n):
    rf = series["rf"]
    if rf is None:
        name = "elliptical" if (series["inst"] == "ampere"
                                and series["bound"] == "ocb") else "circular"
        return [(name, {})] * n
    fns = rf["fns"]
    if not fns:
        raise Unsupported("no correction functions")
    return [tuple(fns[i % len(fns)]) for i in range(n)]


# -------------------------------------------------------------- real objects
def rf_args(series, n):
    """`rfunc` and `rfunc_kwargs` arguments for the real class."""
    import numpy as np
    from ocbpy import ocb_correction as cor
    rf = series["rf"]
    if rf is None:
        return None, None
    if not rf["fns"]:
        raise Unsupported("no correction functions")
    if rf["mode"] == "one":
        name, kwargs = rf["fns"][0]
        return getattr(cor, name), dict(kwargs)
    funcs = np.empty(n, dtype=object)
    kws = np.empty(n, dtype=object)
    for i, (name, kwargs) in enumerate(rf_list(series, n)):
        funcs[i], kws[i] = getattr(cor, name), dict(kwargs)
    return funcs, kws


def load(series, path):
    """The real boundary object of a series whose file is at `path`."""
    import ocbpy
    cls = ocbpy.EABoundary if series["bound"] == "eab" else ocbpy.OCBoundary
    n = sum(1 for r in parse(series) if in_window(r, series["win"]))
    rfunc, kws = rf_args(series, n)
    return cls(filename=path, instrument=series["inst"],
               hemisphere=series["hemi"], boundary_lat=series["blat"],
               stime=when(series["win"][0]), etime=when(series["win"][1]),
               rfunc=rfunc, rfunc_kwargs=kws)


def gen_dual(rng, n, hemi=None, base=None, wild=0.0, rf=True):
    """Two series with related times, and the allowed separation."""
    hemi = hemi or rng.choice([1, 1, -1])
    base = base or rng.choice(BASES)
    ocb = gen_series(rng, n, hemi=hemi, base=base, wild=wild, rf=rf)
    otimes = [r["t"] for r in parse(ocb)]
    inst = rng.choice(["image", "image", "dmsp-ssj"])
    mode = pick(rng, {"same": 3, "shift": 2, "mixed": 4, "own": 1})
    if mode == "own" or not otimes:
        eab = gen_series(rng, n, inst=inst, bound="eab", hemi=hemi, base=base,
                         wild=wild, rf=rf)
    else:
        times = set()
        off = rng.randint(-70, 70)
        for t in otimes:
            if mode == "same":
                times.add(t)
            elif mode == "shift":
                times.add(t + dt.timedelta(seconds=off))
            else:
                for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                    times.add(t + dt.timedelta(seconds=rng.choice(
                        [0, 0, -60, 60, -61, 61, rng.randint(-90, 90),
                         rng.randint(-5, 5)])))
        eab = gen_series(rng, 0, inst=inst, bound="eab", hemi=hemi, wild=wild,
                         rf=rf, times=sorted(times))
    ocb["blat"], eab["blat"] = abs(ocb["blat"]), abs(eab["blat"])
    return {"ocb": ocb, "eab": eab,
            "delta": rng.choice([60, 60, 60, 1, 5, 30, 120, 600, 0.5])}


def build_dual_model(dual):
    return model.Dual(build_model(dual["eab"]), build_model(dual["ocb"]),
                      dual["delta"])


def load_dual(dual, opath, epath):
    import ocbpy
    kws = without_defaults(len(dual["ocb"]["rows"]) % 2,
                           {"max_delta": dual["delta"]}, max_delta=60)
    return ocbpy.DualBoundary(eab=load(dual["eab"], epath),
                              ocb=load(dual["ocb"], opath), **kws)


# ------------------------------------------------------------------ criteria
def gen_crit(rng, series):
    """Extra selection criteria on loaded attributes, and unknown ones."""
    recs = parse(series)
    names = {"image": ["num_sectors", "phi_cent", "r_cent", "r", "a", "r_err",
                       "fom", "year", "soy"],
             "ampere": ["r", "x", "y", "phi_cent", "r_cent", "fom"],
             "dmsp-ssj": ["sc", "r", "x", "y", "fom", "x_1", "y_2",
                          "r_cent"]}[series["inst"]]
    out = []
    for name in rng.sample(names, rng.choice([1, 1, 1, 2, 3])):
        how = rng.choice(["min", "max", "mineq", "maxeq", "equal"])
        if rng.random() < .08:
            name = rng.choice(["dtime", "dtime", "date", "time"])
            if recs and name in recs[0]:
                lim = rng.choice(recs)[name]
                out.append([name, how, stamp(lim) if name == "dtime"
                            else lim])
            continue
        vals = sorted({r[name] for r in recs if r[name] == r[name]})
        if not vals:
            continue
        lim = rng.choice(vals) if rng.random() < .6 else rng.uniform(
            vals[0] - 1, vals[-1] + 1)
        if name in ("phi_cent", "r_cent") and series["inst"] != "image":
            # Derived on loading: stay clear of rounding
            how = how if how != "equal" else "maxeq"
            out.append([name, how, rng.choice(vals) + 1e-4])
            continue
        if how in ("min", "mineq") and rng.random() < .5:
            lim = vals[len(vals) // 4]
        if how in ("max", "maxeq") and rng.random() < .5:
            lim = vals[-1 - len(vals) // 4]
        out.append([name, how, lim])
    out = list({one[0]: one for one in out}.values())
    if rng.random() < .15:
        out.append([rng.choice(["bogus", "merit", "rfom", "nsectors"]), "min",
                    1.0])
    return out


def gen_select(rng, series):
    """Merit limits and criteria of one call: [lo, hi, crit]."""
    foms = [r["fom"] for r in parse(series) if r["fom"] == r["fom"]]
    lo = hi = None
    if foms and rng.random() < .3:
        lo = rng.choice(foms) if rng.random() < .7 else rng.choice([0, 1, 2.5])
    if foms and rng.random() < .3:
        hi = rng.choice(foms) if rng.random() < .7 else rng.choice([1, 4, 50.0])
    # No limit at all, whatever the limits of the instrument
    if rng.random() < .05:
        lo = float("-inf")
    if rng.random() < .05:
        hi = float("inf")
    crit = gen_crit(rng, series) if rng.random() < .35 else []
    # NaN does not meet or fail a comparison: keep criteria to real numbers
    crit = [c for c in crit if c[0] != "fom" or all(
        r["fom"] == r["fom"] for r in parse(series))]
    return [lo, hi, crit]


def known(crit, recs):
    """Criteria that name a loaded attribute."""
    return [(name, how, limit(name, lim)) for name, how, lim in crit
            if not recs or name in recs[0]]


def limit(name, lim):
    return when(lim) if name == "dtime" else lim


def crit_kwargs(crit):
    return {name: (how, limit(name, lim)) for name, how, lim in crit}


# ----------------------------------------------------------------- data times
def without_defaults(short, kws, **defaults):
    """Some plans leave out arguments that have their default."""
    if short:
        for key, val in defaults.items():
            if key in kws and (kws[key] is val if val is None
                               else kws[key] == val):
                del kws[key]
    return kws


def gen_data_times(rng, rec_times, n, ties=True, bases=None):
    """Non-decreasing observation times around the record times."""
    if not rec_times:
        rec_times = [when(bases or BASES[0])]
    out = []
    span = (rec_times[-1] - rec_times[0]).total_seconds()
    for _ in range(n):
        kind = pick(rng, {"near": 5, "exact": 2, "between": 2, "mid": 1.5,
                          "out": .7, "far": .3})
        t = rng.choice(rec_times)
        if kind == "near":
            t = t + dt.timedelta(seconds=rng.choice(
                [1, -1, 59, 60, 61, -60, -61, 599, 600, 601, -600,
                 rng.randint(-200, 200)]))
        elif kind == "between":
            t = rec_times[0] + dt.timedelta(seconds=int(
                rng.uniform(0, span + 1)))
        elif kind == "mid":
            i = rng.randrange(len(rec_times))
            nxt = rec_times[min(i + 1, len(rec_times) - 1)]
            t = t if nxt <= rec_times[i] else rec_times[i] + (
                nxt - rec_times[i]) / 2
        elif kind == "out":
            t = rng.choice([rec_times[0], rec_times[-1]]) + dt.timedelta(
                seconds=rng.randint(-2000, 2000))
        elif kind == "far":
            t = t + dt.timedelta(days=rng.choice([-400, -1, 1, 400]))
        out.append(t)
        if ties and rng.random() < .2:
            out.append(t)
    return sorted(out)[:n]


def rng_from(seed):
    return random.Random(seed)


__all__ = ["HarnessError"]
