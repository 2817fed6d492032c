"""Vectors: seeded plans, the real objects and the expected conversion."""
import math

import numpy as np

from dst import core, model, ops, world
from dst.core import check, same_float

NAN = float("nan")
SCALES = {"evar": lambda v, un, sc: v * un / sc,
          "curl": lambda v, un, sc: v * (un / sc) ** 2,
          None: lambda v, un, sc: v}


def scale_func(name):
    import ocbpy.ocb_scaling as scal
    return {"evar": scal.normal_evar, "curl": scal.normal_curl_evar,
            None: None}[name]


# ------------------------------------------------------------------ generation
def gen_lat(rng, hemi, other=.08):
    val = hemi * round(rng.uniform(50, 89.5), rng.choice([1, 3, 15]))
    return -val if rng.random() < other else val


def gen_comp(rng):
    x = rng.random()
    if x < .12:
        return 0.0
    if x < .2:
        return float(rng.randint(-50, 50))
    return round(rng.uniform(-60, 60), rng.choice([1, 3, 15]))


def gen_vec(rng, hemi, nrec, geo=.15):
    """One vector (or array of them): values and boundary indices."""
    shape = core.pick(rng, {"s": 4, "d": 3, "do": 2, "o": 1})
    n = 1 if shape in ("s",) else rng.randint(2, 5)
    nd = n if shape in ("d", "do") else 1
    no = n if shape in ("o", "do") else 1
    first = True
    vals = {"lat": [], "lt": [], "n": [], "e": [], "z": []}
    for _ in range(nd):
        vals["lat"].append(gen_lat(rng, hemi, 0 if first else .15))
        vals["lt"].append(round(rng.uniform(0, 24), rng.choice([1, 3, 15]))
                          % 24.0)
        north, east = gen_comp(rng), gen_comp(rng)
        if first and north == 0.0 and east == 0.0:
            north = 12.5
        if not first and rng.random() < .08:
            east = NAN
        vals["n"].append(north)
        vals["e"].append(east)
        vals["z"].append(gen_comp(rng))
        first = False
    vec = {"shape": shape, "vals": vals,
           "ocb": [rng.randint(0, nrec - 1) for _ in range(no)],
           "dat": [rng.randint(0, 99) for _ in range(nd)],
           "coord": "magnetic", "scale": rng.choice(["evar", "curl", None]),
           "kind": rng.choice(["f", "f", "l", "ro"])}
    if nd > 1 and rng.random() < .2:
        # A single component value for every location
        name = rng.choice(["n", "e", "z"])
        if not (name in "ne" and any(v != v for v in vals[name])):
            vec["same"] = name
            vals[name] = [vals[name][0]] * nd
            if vals["n"][0] == 0.0 and vals["e"][0] == 0.0:
                vals["n" if name != "n" else "e"][0] = 7.25
    for name in vals:
        # Whole numbers
        if rng.random() < .07 and all(v == v for v in vals[name]) and not (
                name == "n" and any(abs(v) < 1.0 for v in vals["n"])):
            vals[name] = [int(v) for v in vals[name]]
    if rng.random() < .2:
        vec["late"] = True
    if rng.random() < .1:
        vec["spell"] = rng.choice(["upper", "title"])
    if rng.random() < geo and hemi == 1:
        vec["coord"] = rng.choice(["geodetic", "geocentric"])
        vec["height"] = rng.choice([0.0, 350.0, 830.0])
        if nd > 1 and rng.random() < .3:
            vec["height"] = [rng.choice([0.0, 250.0, 350.0, 830.0])
                             for _ in range(nd)]
        vec["vals"]["lat"] = [round(rng.uniform(60, 80), 2) for _ in range(nd)]
        vec["vals"]["n"] = [v or 1.5 for v in vec["vals"]["n"]]
        if "same" in vec:
            vec["vals"][vec["same"]] = [vec["vals"][vec["same"]][0]] * nd
        if rng.random() < .3:
            vec["trace"] = "TRACE"
        if rng.random() < .4:
            # Location and components in different systems
            vec["coord"], vec["vcoord"] = core.pick(
                rng, {(vec["coord"], "magnetic"): 1,
                      ("magnetic", vec["coord"]): 1})
        if shape == "o":
            vec["coord"] = vec["vcoord"] = "magnetic"
    return vec


def vector_coord(vec):
    return vec.get("vcoord", vec["coord"])


def spelt(vec, coord):
    """The name of a coordinate system, as the caller writes it."""
    return {"upper": coord.upper(), "title": coord.title()}.get(
        vec.get("spell"), coord)


def turns(vec):
    """Does the first conversion change the vector's own location or parts?"""
    return vec["coord"] != "magnetic" or vector_coord(vec) != "magnetic"


def trace(vec):
    """Keyword arguments of set_ocb."""
    out = {"trace_method": vec["trace"]} if "trace" in vec else {}
    if vec.get("late"):
        out["scale_func"] = scale_func(vec["scale"])
    return out


# --------------------------------------------------------------------- objects
def arg(vec, name):
    vals = list(vec["vals"][name])
    if vec["shape"] in ("s", "o") or vec.get("same") == name:
        return vals[0]
    if vec["kind"] == "l":
        return vals
    out = np.array(vals)
    if vec["kind"] == "ro":
        out.setflags(write=False)
    return out


def indices(vec):
    dat = vec["dat"][0] if vec["shape"] in ("s", "o") else list(vec["dat"])
    ocb = vec["ocb"][0] if vec["shape"] in ("s", "d") else list(vec["ocb"])
    return dat, ocb


def make(vec, args=None):
    """A VectorData object; `args` remembers its arguments."""
    from ocbpy.ocb_scaling import VectorData
    note = (lambda name, obj: obj) if args is None else args.note
    dat, ocb = indices(vec)
    kws = {}
    if "bound" in vec:
        for key, val in vec["bound"].items():
            kws[key] = val
    if "height" in vec:
        kws["height"] = np.array(vec["height"]) if isinstance(
            vec["height"], list) else vec["height"]
    if vec.get("given"):
        kws.update({k: np.array(v) if isinstance(v, list) else v
                    for k, v in vec["given"].items()})
    if vec["shape"] == "o" and "ocb_lat" not in kws:
        nan = np.full(len(vec["ocb"]), np.nan)
        kws.update(ocb_lat=nan, ocb_mlt=np.array(nan), r_corr=np.array(nan))
    if vec["shape"] == "do" and "ocb_lat" not in kws:
        nan = np.full(len(vec["ocb"]), np.nan)
        kws.update(ocb_lat=nan, ocb_mlt=np.array(nan), r_corr=np.array(nan))
    return VectorData(note("dat_ind", dat), note("ocb_ind", ocb),
                      note("lat", arg(vec, "lat")), note("lt", arg(vec, "lt")),
                      vect_n=note("vect_n", arg(vec, "n")),
                      vect_e=note("vect_e", arg(vec, "e")),
                      vect_z=note("vect_z", arg(vec, "z")),
                      loc_coord=spelt(vec, vec["coord"]),
                      vect_coord=spelt(vec, vector_coord(vec)),
                      scale_func=None if vec.get("late")
                      else scale_func(vec["scale"]), **kws)


# ----------------------------------------------------------------------- model
def bearing(lat, lt, plat, plt_):
    """Direction of a pole from a location, degrees east of north."""
    phi1, phi2 = math.radians(lat), math.radians(plat)
    dlon = model.hr(plt_ - lt)
    y = math.sin(dlon) * math.cos(phi2)
    x = (math.cos(phi1) * math.sin(phi2)
         - math.sin(phi1) * math.cos(phi2) * math.cos(dlon))
    return math.atan2(y, x)


def turn(n, e, th):
    return (n * math.cos(th) + e * math.sin(th),
            -n * math.sin(th) + e * math.cos(th))


def elements(vec):
    """(data position, boundary record) of every element of the result."""
    if vec["shape"] == "s":
        return [(0, vec["ocb"][0])]
    if vec["shape"] == "d":
        return [(i, vec["ocb"][0]) for i in range(len(vec["dat"]))]
    if vec["shape"] == "o":
        return [(0, o) for o in vec["ocb"]]
    return list(zip(range(len(vec["dat"])), vec["ocb"]))


def expect(ref, isdual, vec, j, k):
    """Expected conversion of one element, as documented.

    Returns {"n", "e", "z", "mag", "olat", "omlt", "corr"} with the
    alternative rotation of southern vectors under "south", or None where the
    geometry leaves the rotation undefined.
    """
    v = {key: vals[j] for key, vals in vec["vals"].items()}
    base, rec = (ref.ocb, ref.pairs[k][0]) if isdual else (ref, k)
    lat, lt, n, e = v["lat"], v["lt"], v["n"], v["e"]
    when = base.recs[rec]["t"]
    if turns(vec):
        import aacgmv2
        how, vcoord = vec.get("trace", "ALLOWTRACE"), vector_coord(vec)
        hgt = vec["height"][j] if isinstance(vec["height"], list) \
            else vec["height"]
        mlat, mlt = lat, lt
        if vec["coord"] != "magnetic":
            mlat, mlt = model.to_mag(lat, lt, vec["coord"], hgt,
                                     when, how)
        if vcoord != "magnetic":
            if vec["coord"] == "magnetic":
                lat, lt = model.from_mag(lat, lt, vcoord, hgt, when,
                                         how)
            method = "GEOCENTRIC|A2G" if vcoord == "geocentric" else "A2G"
            plat, plon, _ = aacgmv2.convert_latlon(
                base.hemi * 90.0, 0.0, hgt, when, method)
            th = bearing(lat, lt, plat, model.glon2slt(plon, when))
            if not (th == th):
                n = e = NAN
            elif n == n and e == e:
                n, e = turn(n, e, th)
        lat, lt = mlat, mlt
    if isdual:
        olat, omlt, _, corr, _ = ref.normal(k, lat, lt)
    else:
        olat, omlt, corr = base.normal(rec, lat, lt)
    out = {"olat": olat, "omlt": omlt, "corr": corr, "lat": lat, "lt": lt}
    if vec.get("given"):
        g = vec["given"]
        pos = None if not isinstance(g["ocb_lat"], list) else (
            j if vec["shape"] == "do" else vec["ocb"].index(k))
        olat, omlt, corr = [g[x] if pos is None else g[x][pos]
                            for x in ("ocb_lat", "ocb_mlt", "r_corr")]
        out.update(olat=olat, omlt=omlt, corr=corr)
    un = base.recs[rec]["r"] + corr
    sc = 90.0 - abs(base.blat)
    fun = SCALES[vec["scale"]]
    if olat != olat or not (n == n and e == e) or omlt != omlt:
        out.update(n=NAN, e=NAN, z=NAN, un=un)
        return out
    rc, phi = base.recs[rec]["rc"], base.recs[rec]["phi"]
    th = bearing(lat, lt, 90.0 - rc, phi / 15.0)
    if rc < 1e-9:
        th = 0.0
    elif abs(math.sin(th)) < 1e-5 or abs(lat) > 89.99:
        return None
    if rc >= 1e-9:
        # Too close to the boundary's pole for a direction
        d = math.hypot(*[a - b for a, b in zip(
            ops.cart(abs(lat), lt, 1), ops.cart(90 - rc, phi / 15.0, 1))])
        if d < 1e-3:
            return None
    nn, ee = turn(n, e, th)
    out.update(n=fun(nn, un, sc), e=fun(ee, un, sc), z=fun(v["z"], un, sc),
               un=un)
    if base.hemi < 0 and rc >= 1e-9:
        # Rotation about the vertical by the angle between the poles of the
        # hemisphere the vector is in
        ths = bearing(lat, lt, rc - 90.0, phi / 15.0) + math.pi
        sn, se = turn(n, e, ths)
        out["south"] = (fun(sn, un, sc), fun(se, un, sc))
    return out


def judge(ref, isdual, vec, obj, where, notes, tol=1e-6):
    """Compare a converted vector with the model, element by element."""
    items = elements(vec)
    cols = {name: ops.widen(getattr(obj, "ocb_" + name), len(items))
            for name in ("n", "e", "z", "mag")}
    lats = ops.widen(obj.ocb_lat, len(items))
    mlts = ops.widen(obj.ocb_mlt, len(items))
    nall = []
    for j, k in items:
        nall.append(expect(ref, isdual, vec, j, k))
    usable = [x is not None and x["olat"] == x["olat"] for x in nall]
    for p, (j, k) in enumerate(items):
        want = nall[p]
        if want is None:
            continue
        tag = "{:s} element {:d} record {:d} {:s}".format(
            where, p, k, str({a: b[j] for a, b in vec["vals"].items()}))
        got = {a: c[p] for a, c in cols.items()}
        loc = ((lats[p], mlts[p]), (want["olat"], want["omlt"]))
        if isdual:
            near = ref.normal(k, want["lat"], want["lt"])[4] < 1e-6
            check(near or vec.get("given") or (
                same_float(loc[0][0], loc[1][0], 1e-6, 1e-5)),
                "vector-location", tag, loc)
        else:
            check(ops.same_place(loc[0], loc[1], ref.hemi, 1e-5),
                  "vector-location", tag, loc)
        zero = vec["vals"]["n"][j] == 0.0 and vec["vals"]["e"][j] == 0.0
        if want["n"] != want["n"]:
            # Vectors without horizontal components stay so everywhere
            # A missing component makes at least the magnitude unknown
            gone = got["mag"] != got["mag"] if want["olat"] == want["olat"] \
                else got["n"] != got["n"] and got["e"] != got["e"]
            check(zero or gone, "vector-not-nan", tag, got)
            continue
        size = math.sqrt(sum(want[a] ** 2 for a in "nez")) + 1e-3
        eps = tol * size
        check(same_float(got["z"], want["z"], 0, eps), "vertical", tag, got,
              "want", want)
        check(same_float(got["mag"], math.sqrt(sum(got[a] ** 2 for a in "nez")),
                         1e-9, eps), "magnitude", tag, got)
        same = all(same_float(got[a], want[a], 0, eps) for a in "ne")
        south = want.get("south")
        if south is not None:
            right = all(same_float(a, b, 0, eps) for a, b in
                        zip((got["n"], got["e"]), south))
            if right:
                continue
            if same:
                notes.add("south-angle")
                continue
        check(same, "components", tag, got, "want", want)
    return usable


__all__ = ["world"]
