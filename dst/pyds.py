"""Seeded pysat datasets, the call that adds boundary columns to them and the
model of every value of every column."""
import datetime as dt
import itertools
import math

import numpy as np

from dst import core, model, ops, vecs, world
from dst.core import check, same_float

NAN = float("nan")
LAYOUTS = [("t", "t"), ("t", "t"), ("t", "t"), ("y", "t"), ("y", "tx"),
           ("y", "tx"), ("tx", "tx"), ("t", "tx"), ("tx", "t"), ("xt", "tx"),
           ("ty", "tx")]
BNAMES = {"ocb": "ocb", "eab": "eab", "dual": "dualb"}
ROLES = {"evar": ["sc1", "sc2"], "curl": ["cu1"], "vecs": ["v", "w"]}
# Names that hold the names boundaries have in the new columns
OTHERS = {"evar": ["e_ocb_1", "eab_e"], "curl": ["ocb"],
          "vecs": ["my_ocb_v", "my_v"]}


# ------------------------------------------------------------------ generation
def gen_data(rng, times, hemi, mixed=True, geo=False):
    """A dataset: dimensions, coordinates and variables."""
    form = rng.choice(["pandas", "xr", "xr"])
    sizes = {"t": len(times)}
    if form == "pandas":
        lat_d = mlt_d = "t"
        extra = ["t"]
    else:
        lat_d, mlt_d = rng.choice(LAYOUTS)
        same = rng.random() < .35
        for dim in "xyz":
            sizes[dim] = len(times) if same and len(times) < 4 \
                else rng.choice([1, 2, 2, 3])
        base = "t" + "".join(d for d in "xy" if d in lat_d + mlt_d)
        extra = ["t", base, base, "".join(rng.sample(base, len(base)))]
        if rng.random() < .3:
            extra += [base + "z", "tz"]
    data = {"form": form, "times": [world.stamp(t) for t in times],
            "sizes": sizes, "vars": {}}

    def add(name, dims, fun):
        num = 1
        for dim in dims:
            num *= sizes[dim]
        var = data["vars"][name] = {"d": dims,
                                    "v": [fun() for _ in range(num)]}
        if rng.random() < .1:
            # Whole numbers
            var["k"] = "i"
            var["v"] = [int(v) if v == v else 70 * hemi if name == "lat" else 3
                        for v in var["v"]]

    def lat():
        if rng.random() < .05 and lat_d != "y":
            return NAN
        val = round(rng.uniform(60, 80) if geo else rng.uniform(50, 89.5),
                    rng.choice([1, 3, 15]))
        other = mixed and rng.random() < .15
        return -hemi * val if other else hemi * val

    def mlt():
        return NAN if rng.random() < .04 else round(
            rng.uniform(0, 23.99), rng.choice([1, 3, 15]))

    def comp():
        return NAN if rng.random() < .06 else vecs.gen_comp(rng)

    add("lat", lat_d, lat)
    add("mlt", mlt_d, mlt)
    data["latcoord"] = lat_d == "y" and rng.random() < .7
    data["roles"] = roles = OTHERS if rng.random() < .15 else ROLES
    for name in roles["evar"] + roles["curl"] + ["spare"]:
        if rng.random() < .6:
            add(name, rng.choice(extra), comp)
    for name in roles["vecs"]:
        if rng.random() < .45:
            dims = rng.choice(extra)
            for part in "nez":
                add(name + "_" + part, dims if rng.random() < .8
                    or part == "n" else "t", comp)
    alt = rng.choice([None, None, "z", "t", "base"]) if geo else rng.choice(
        [None] * 8 + ["z"])
    if alt == "z" and form == "xr":
        add("alt", "z", lambda: rng.choice([100.0, 250.0, 400.0, 830.0]))
        data["altcoord"] = True
    elif alt == "t" or (alt and form == "pandas"):
        add("alt", "t", lambda: rng.choice([100.0, 250.0, 400.0, 830.0]))
    elif alt == "base":
        add("alt", "".join(rng.sample(base, len(base))),
            lambda: rng.choice([100.0, 250.0, 400.0, 830.0]))
    return data


def gen_call(rng, data, geo=False):
    names = data["vars"]
    roles = data.get("roles", ROLES)
    call = {"evar": [n for n in roles["evar"] if n in names
                     and rng.random() < .85],
            "curl": [n for n in roles["curl"] if n in names
                     and rng.random() < .85], "vecs": {}}
    for name in roles["vecs"]:
        if name + "_n" not in names or rng.random() < .1:
            continue
        parts = ["n", "e"] if rng.random() < .3 else ["n", "e", "z"]
        if rng.random() < .1:
            parts.remove(rng.choice(parts))
        call["vecs"][name] = {
            "parts": parts, "scale": rng.choice(["evar", "curl", "own", None]),
            "units": rng.random() < .5}
    call["coord"] = rng.choice(["geodetic", "geocentric"]) if geo \
        else "magnetic"
    call["height"] = rng.choice([350.0, 110.0]) if "alt" not in names else None
    call["tol"] = rng.choice([600, 60, 60, 1, 3600, 0])
    if rng.random() < .2:
        call["spell"] = rng.choice(["upper", "title"])
    if geo and rng.random() < .4:
        # Locations and vectors in different systems
        call["coord"], call["vcoord"] = rng.choice(
            [(call["coord"], "magnetic"), ("magnetic", call["coord"])])
    return call


# --------------------------------------------------------------------- objects
def unit(data, name):
    """Unit of a variable; components of a vector share theirs."""
    for vec in data.get("roles", ROLES)["vecs"]:
        if name in [vec + "_" + part for part in "nez"]:
            return "unit " + vec
    return "unit " + name


def has_meta(data):
    return len(data["vars"]) % 2 == 1


def build(data):
    """The pysat Instrument of a dataset."""
    inst = without_meta(data)
    if has_meta(data):
        labels = inst.meta.labels
        for name in data["vars"]:
            inst.meta[name] = {
                labels.units: unit(data, name), labels.name: "The " + name,
                labels.desc: "Described " + name}
    return inst


def without_meta(data):
    import pandas as pd
    import pysat
    import xarray as xr
    inst = pysat.Instrument()
    index = pd.DatetimeIndex([world.when(t) for t in data["times"]],
                             name="time" if data["form"] == "xr" else "Epoch")
    if data["form"] == "pandas":
        inst.data = pd.DataFrame({name: array(data, name)
                                  for name in data["vars"]},
                                 index=index)
        return inst
    inst.pandas_format = False
    coords, cols = {"time": index}, {}
    for dim in "xyz":
        coords[dim] = np.arange(data["sizes"][dim], dtype=float)
    used = set()
    for name, var in data["vars"].items():
        arr = array(data, name)
        dims = ["time" if d == "t" else d for d in var["d"]]
        used |= set(dims)
        cols[name] = (dims, arr)
    out = {}
    ren = {}
    if data.get("latcoord"):
        ren["y"] = "lat"
    if data.get("altcoord"):
        ren["z"] = "alt"
    for name, (dims, arr) in cols.items():
        dims = [ren.get(d, d) for d in dims]
        if name in ren.values():
            coords[name] = arr
        else:
            out[name] = (dims, arr)
    for dim in "xyz":
        if dim in ren or dim not in used:
            del coords[dim]
    for name in ren.values():
        out.pop(name, None)
    inst.data = xr.Dataset(out, coords=coords)
    return inst


def array(data, name):
    var = data["vars"][name]
    return np.array(var["v"], dtype=int if "k" in var else float).reshape(
        [data["sizes"][d] for d in var["d"]])


def dim_names(data):
    """{dimension of the dataset: its letter}"""
    out = {"time" if data["form"] == "xr" else "Epoch": "t"}
    for dim in "xyz":
        out[dim] = dim
    if data.get("latcoord"):
        out["lat"] = "y"
    if data.get("altcoord"):
        out["alt"] = "z"
    return out


def call_args(data, call, args):
    """Keyword arguments of add_ocb_to_data."""
    from ocbpy import ocb_scaling
    kws = {"mlat_name": "lat", "mlt_name": "mlt"}
    evar, curl, vnames = list(call["evar"]), list(call["curl"]), {}
    for name, vec in call["vecs"].items():
        vnames[name] = {"vect_" + p: name + "_" + p for p in vec["parts"]}
        if vec["scale"] == "evar":
            evar.append(name)
        elif vec["scale"] == "curl":
            curl.append(name)
        else:
            vnames[name]["scale_func"] = None if vec["scale"] is None \
                else ocb_scaling.normal_evar
        if vec["units"]:
            vnames[name].update(dat_name=name, dat_units="m/s")
    if evar:
        kws["evar_names"] = args.note("evar_names", evar)
    if curl:
        kws["curl_evar_names"] = args.note("curl_evar_names", curl)
    if vnames:
        kws["vector_names"] = args.note("vector_names", vnames)
    if "alt" in data["vars"]:
        kws["height_name"] = "alt"
    else:
        kws["height"] = call["height"]
    if vecs.turns(call):
        kws["loc_coord"] = vecs.spelt(call, call["coord"])
        kws["vect_coord"] = vecs.spelt(call, vecs.vector_coord(call))
    kws["max_sdiff"] = call["tol"]
    return world.without_defaults(len(call["vecs"]) % 2, kws, max_sdiff=60,
                                  height=350.0)


def snapshot(inst, names=None):
    """Canonical bytes of a dataset's columns."""
    out = {}
    if inst.pandas_format:
        out["index"] = core.canon([str(t) for t in inst.data.index])
        for name in inst.data.columns:
            out[name] = core.canon(np.array(inst.data[name]))
    else:
        for name in list(inst.data.variables):
            var = inst.data[name]
            out[name] = core.canon([list(var.dims), np.array(var.values)
                                    if var.dtype.kind == "f" else
                                    [str(v) for v in var.values.ravel()]])
    return out


# ----------------------------------------------------------------------- model
def pairs(ref, limits, inside):
    """Pairs of a dual model among the records in a window."""
    good = [[i for i in one.good(*lim) if inside(one.recs[i]["t"])]
            for one, lim in zip((ref.ocb, ref.eab), limits)]
    found = model.match([r["t"] for r in ref.eab.recs], good[1],
                        [ref.ocb.recs[i]["t"] for i in good[0]], ref.delta)
    return [(good[0][j], i) for j, i in found]


class Expect:
    """Values of every sample for one boundary object and call."""

    def __init__(self, data, call, ref, isdual, bname, hemi, sel,
                 inside=lambda when: True):
        self.data, self.call, self.ref = data, call, ref
        self.isdual, self.bname, self.hemi = isdual, bname, hemi
        self.arrs = {n: array(data, n) for n in data["vars"]}
        self.base = ref.ocb if isdual else ref
        self.when = [world.when(t) for t in data["times"]]
        lo, hi, crit = sel
        if isdual:
            okay = [(None, None, ())] * 2
            self.pairs = pairs(ref, okay, inside)
            if lo is not None or hi is not None or crit:
                okay = [(lo, hi, world.known(crit, r.recs))
                        for r in (ref.ocb, ref.eab)]
            ref.pairs = pairs(ref, okay, inside)
            times = ref.times = [ref.ocb.recs[o]["t"] for o, _ in ref.pairs]
            good = range(len(times))
        else:
            times = [r["t"] for r in ref.recs]
            good = ref.good(lo, hi, world.known(crit, ref.recs))
        self.match = dict(model.match(times, good, self.when,
                                      int(call["tol"])))
        self.cache = {}
        self.hits = 0

    def val(self, name, pos):
        """A variable at a position, None if the position lacks its axes."""
        dims = self.data["vars"][name]["d"]
        if any(d not in pos for d in dims):
            return None
        return float(self.arrs[name][tuple(pos[d] for d in dims)])

    def place(self, pos):
        """Location at a position: lat, mlt, corr, record or NaNs."""
        lat, lt = self.val("lat", pos), self.val("mlt", pos)
        hgt = self.val("alt", pos) if "alt" in self.arrs \
            else self.call["height"]
        k = self.match.get(pos["t"])
        key = (lat, lt, hgt, k)
        if key in self.cache:
            return self.cache[key]
        out = None
        if k is not None and model.sgn(lat) == self.hemi:
            mlat, mlt = lat, lt
            rec = self.ref.pairs[k][0] if self.isdual else k
            if self.call["coord"] != "magnetic" and lt == lt:
                mlat, mlt = model.to_mag(lat, lt, self.call["coord"], hgt,
                                         self.base.recs[rec]["t"])
            eps = 1.0
            if self.isdual:
                olat, omlt, _, corr, eps = self.ref.normal(k, mlat, mlt)
            else:
                olat, omlt, corr = self.ref.normal(k, mlat, mlt)
            if lt != lt:
                olat = omlt = NAN
            out = {"k": k, "rec": rec, "lat": lat, "lt": lt, "h": hgt,
                   "olat": olat, "omlt": omlt, "corr": corr, "eps": eps,
                   "un": self.base.recs[rec]["r"] + corr,
                   "sc": 90.0 - abs(self.base.blat)}
            self.hits += 1
        self.cache[key] = out
        return out

    def columns(self):
        """{column: (kind, variable, part)} of every requested output."""
        b = self.bname
        out = {"lat_" + b: ("olat", None, None),
               "mlt_" + b: ("omlt", None, None),
               "r_corr_" + b: ("corr", None, None)}
        for name in self.call["evar"]:
            out[name + "_" + b] = ("evar", name, None)
        for name in self.call["curl"]:
            out[name + "_" + b] = ("curl", name, None)
        for name in self.call["vecs"]:
            for part in ("n", "e", "z", "mag", "unscaled_r", "scaled_r"):
                col = "_".join([name, b, part])
                if part.endswith("_r") and b == "ocb":
                    col = name + "_" + part
                out[col] = ("vec", name, part)
        return out


def used_dims(data, call, kind, name):
    out = set(data["vars"]["lat"]["d"]) | set(data["vars"]["mlt"]["d"])
    if kind in ("evar", "curl"):
        out |= set(data["vars"][name]["d"])
    elif kind == "vec":
        for part in call["vecs"][name]["parts"]:
            out |= set(data["vars"][name + "_" + part]["d"])
    if vecs.turns(call) and "alt" in data["vars"]:
        out |= set(data["vars"]["alt"]["d"])
    return out


def judge(exp, inst, where, partial=False, skip=()):
    """Compare every column with the model; returns how many were there."""
    data, call = exp.data, exp.call
    there = 0
    names = list(inst.data.columns) if inst.pandas_format else list(
        inst.data.data_vars)
    wanted = exp.columns()
    for col, (kind, name, part) in wanted.items():
        if col in skip:
            continue
        if col not in names:
            check(partial, "no-column", where, col, names)
            continue
        there += 1
        letters = dim_names(data)
        if inst.pandas_format:
            dims, arr = ["t"], np.array(inst.data[col], dtype=float)
        else:
            dims = [letters[d] for d in inst.data[col].dims]
            arr = inst.data[col].values
        check(set(dims) >= used_dims(data, call, kind, name), "dimensions",
              where, col, dims)
        for idx in itertools.product(*[range(n) for n in arr.shape]):
            pos = dict(zip(dims, idx))
            judge_value(exp, pos, kind, name, part, float(arr[idx]),
                        lambda: "{:s} {:s} at {:}".format(where, col, pos))
    check(set(names) - set(data["vars"]) <= set(wanted)
          | getattr(exp, "others", set()), "stray-column", where, names)
    return there


def judge_value(exp, pos, kind, name, part, got, where):
    call = exp.call
    spot = exp.place(pos)
    if spot is None:
        check(got != got, "not-nan", where(), got)
        return
    tol = 1e-5 if vecs.turns(call) else 1e-8
    rad = spot["un"]
    if rad == rad and abs(rad) < .3:
        return
    if kind == "olat":
        if spot["eps"] > 1e-6:
            check(same_float(got, spot["olat"], 1e-8, tol * 100), "latitude",
                  where(), got, "want", spot)
    elif kind == "omlt":
        if spot["olat"] != spot["olat"] and not exp.isdual:
            check(got != got, "not-nan", where(), got)
            return
        if got != got or spot["omlt"] != spot["omlt"]:
            check(got != got and spot["omlt"] != spot["omlt"], "local-time",
                  where(), got, "want", spot)
            return
        away = 90.0 - abs(spot["olat"]) if spot["olat"] == spot["olat"] \
            else 1.0
        check(core.same_hour(got, spot["omlt"], tol + 1e-5 / max(
            away, 1e-9)) and 0.0 <= got <= 24.0, "local-time", where(), got,
            "want", spot)
    elif kind == "corr":
        if spot["lt"] == spot["lt"]:
            check(same_float(got, spot["corr"], 1e-8, tol), "correction",
                  where(), got, "want", spot)
    elif kind in ("evar", "curl"):
        val = exp.val(name, pos)
        if spot["lt"] != spot["lt"]:
            return
        want = vecs.SCALES[kind](val, spot["un"], spot["sc"])
        check(same_float(got, want, 1e-7 if tol < 1e-6 else 1e-5, 1e-7),
              "scaled-value", where(), got, "want", want)
    else:
        judge_vec(exp, pos, spot, name, part, got, where)


def judge_vec(exp, pos, spot, name, part, got, where):
    call = exp.call
    spec = call["vecs"][name]
    if spot["lt"] != spot["lt"]:
        if part in ("n", "e"):
            vals = [exp.val(name + "_" + p, pos) if p in spec["parts"]
                    else 0.0 for p in "ne"]
            check(got != got or vals == [0.0, 0.0], "vector-not-nan", where(),
                  got)
        return
    if part == "scaled_r":
        check(got != got or same_float(got, spot["sc"]), "scaled-radius",
              where(), got, spot)
        return
    if part == "unscaled_r":
        gone = spot["olat"] != spot["olat"]
        check((gone and got != got) or same_float(got, spot["un"], 1e-7, 1e-5),
              "unscaled-radius", where(), got, spot)
        return
    key = ("vec", name, tuple(sorted(pos.items())))
    if key not in exp.cache:
        vals = {p: [exp.val(name + "_" + p, pos) if p in spec["parts"]
                    else 0.0] for p in "nez"}
        vals.update(lat=[spot["lat"]], lt=[spot["lt"]])
        scale = {"own": "evar"}.get(spec["scale"], spec["scale"])
        vec = {"shape": "s", "coord": call["coord"],
               "vcoord": vecs.vector_coord(call), "ocb": [spot["k"]],
               "dat": [0], "scale": scale, "vals": vals, "height": spot["h"],
               "given": {"ocb_lat": spot["olat"], "ocb_mlt": spot["omlt"],
                         "r_corr": spot["corr"]}}
        exp.cache[key] = (vals, vecs.expect(exp.ref, exp.isdual, vec, 0,
                                            spot["k"]))
    vals, want = exp.cache[key]
    if want is None or spot["eps"] < 1e-6:
        return
    zero = vals["n"][0] == 0.0 and vals["e"][0] == 0.0
    if want["n"] != want["n"]:
        if zero or (part != "mag" and spot["olat"] == spot["olat"]):
            return
        check(got != got, "vector-not-nan", where(), got, vals)
        return
    size = math.sqrt(sum(want[a] ** 2 for a in "nez" if want[a] == want[a]))
    eps = (1e-4 if vecs.turns(call) else 1e-6) * (size + 1e-3)
    if part == "mag":
        total = math.sqrt(sum(want[a] ** 2 for a in "nez"))
        check(same_float(got, total, 1e-9, eps), "magnitude", where(), got,
              "want", total)
        return
    ok = [want[part]]
    if part in "ne" and "south" in want:
        ok.append(want["south"]["ne".index(part)])
    check(any(same_float(got, w, 0, eps) for w in ok), "component", where(),
          got, "want", want, vals)


__all__ = ["gen_data", "gen_call", "build", "call_args", "snapshot", "Expect",
           "judge", "dt", "ops"]
