"""Compares results of coordinate operations with the reference model.

`judge(sess, op, result)` raises a Violation if the results of one operation,
performed with the session's cursor where it is now, are not those of the
documented formulas for the record under the cursor.
"""
import math

import numpy as np

from dst import core, model, ops
from dst.core import check, same_float

TINY = 0.3       # corrected radii below this are ill-conditioned: not judged


def where(sess, op):
    return "{:s} at cursor {:}".format(str(op)[:300], sess.cursor)


def is_geo(op):
    return op.get("coords", "magnetic").lower().find("mag") < 0


def points(op, *names):
    """Flat element lists of the named arguments, heights, and the shape."""
    specs = [op[n]["v"] if isinstance(op[n], dict) else op[n] for n in names]
    height = op.get("height", 350.0)
    vals, shape = ops.grid(*(specs + [height]))
    return vals, shape


def current(sess):
    """Model record index (single) or pair of them (dual), or None."""
    k = sess.cursor
    if sess.isdual:
        return k if 0 <= k < len(sess.ref.pairs) else None
    return k if 0 <= k < len(sess.ref.recs) else None


def rec_time(sess, k):
    if sess.isdual:
        return sess.ref.ocb.recs[sess.ref.pairs[k][0]]["t"]
    return sess.ref.recs[k]["t"]


def base_model(sess, k):
    """The open-closed (or only) model boundary and its record."""
    if sess.isdual:
        return sess.ref.ocb, None if k is None else sess.ref.pairs[k][0]
    return sess.ref, k


def to_mag(sess, op, k, lat, lt, height):
    if not is_geo(op) or k is None:
        return lat, lt
    return model.to_mag(lat, lt, op["coords"], height, rec_time(sess, k))


def judge(sess, op, res):
    fun = globals().get("judge_" + op["op"])
    if fun is not None:
        fun(sess, op, res)


def judge_normal(sess, op, res, k=False):
    k = current(sess) if k is False else k
    (lats, lts, hts), shape = points(op, "lat", "lt")
    n = len(lats)
    names = ["lat", "mlt", "ocb_lat", "r_corr"] if sess.isdual else [
        "lat", "mlt", "r_corr"]
    for name, val in zip(names, res):
        if name != "r_corr":
            # aacgmv2 makes arrays of scalars
            check(np.shape(val) == shape or (is_geo(op) and np.size(val) == n),
                  "result-shape", where(sess, op),
                  name, np.shape(val), "want", shape)
    cols = [ops.widen(v, n) for v in res[:len(names)]]
    base, rec = base_model(sess, k)
    for j in range(n):
        lat, lt = to_mag(sess, op, k, lats[j], lts[j], hts[j])
        tag = "{:s} element {:d} (lat {:.9g} lt {:.9g})".format(
            where(sess, op), j, lats[j], lts[j])
        got = [c[j] for c in cols]
        if k is None:
            check(all(g != g for g in got), "not-nan-off-record", tag, got)
            continue
        if abs(lat) < 1e-9 and is_geo(op):
            continue
        if model.sgn(lat) != base.hemi:
            check(all(g != g for g in got[:len(names) - 1]),
                  "other-hemisphere-not-nan", tag, got)
            continue
        if abs(base.recs[rec]["r"] + base.corr(rec, lt)) < TINY:
            continue
        tol = 1e-6 if is_geo(op) else 1e-8
        if sess.isdual:
            wlat, wmlt, wolat, wcor, eps = sess.ref.normal(k, lat, lt)
            check(ops.same_place((got[2], got[1]), (wolat, wmlt), base.hemi,
                                 tol), "ocb-location", tag, got, "want",
                  [wlat, wmlt, wolat, wcor])
            if eps > 1e-6:
                check(same_float(got[0], wlat, 1e-7, 1e-6), "bound-lat", tag,
                      got, "want", [wlat, wmlt, wolat, wcor])
            check(same_float(got[3], wcor, 1e-8, 1e-8), "r-corr", tag, got[3],
                  "want", wcor)
        else:
            wlat, wmlt, wcor = base.normal(rec, lat, lt)
            check(ops.same_place(got[:2], (wlat, wmlt), base.hemi, tol),
                  "location", tag, got, "want", [wlat, wmlt, wcor])
            check(same_float(got[2], wcor, 1e-8, 1e-8), "r-corr", tag, got[2],
                  "want", wcor)
            check(got[1] != got[1] or 0.0 <= got[1] <= 24.0, "mlt-range", tag,
                  got)


def judge_round(sess, op, res):
    nfor = 4 if sess.isdual else 3
    judge_normal(sess, op, res[:nfor])
    k = current(sess)
    if k is None:
        return
    (lats, lts, hts), shape = points(op, "lat", "lt")
    n = len(lats)
    base, rec = base_model(sess, k)
    cols = [ops.widen(v, n) for v in res]
    back = cols[nfor:]
    geo = is_geo(op)
    for j in range(n):
        lat, lt = to_mag(sess, op, k, lats[j], lts[j], hts[j])
        if lat != lat or lt != lt or model.sgn(lat) != base.hemi:
            continue
        rad = base.recs[rec]["r"] + base.corr(rec, lt)
        olat = cols[2][j] if sess.isdual else cols[0][j]
        if abs(rad) < TINY or model.sgn(olat) != base.hemi or (
                model.sgn(cols[0][j]) != base.hemi and not
                cols[0][j] != cols[0][j]):
            continue
        tag = "{:s} element {:d} (lat {:.9g} lt {:.9g})".format(
            where(sess, op), j, lats[j], lts[j])
        got = (back[0][j], back[1][j])
        if sess.isdual:
            if cols[0][j] != cols[0][j]:
                continue       # in no region: nothing to convert back
            blat = cols[0][j]
            eps = sess.ref.normal(k, lat, lt)[4]
            eps = min(eps, abs(abs(blat) - abs(base.blat)),
                      abs(abs(blat) - abs(sess.ref.eab.blat)))
            edges = sess.ref.edges(k, lt)
            if eps < 1e-6 or any(e != e or model.sgn(e) != base.hemi
                                 or abs(e) < .1 for e in edges) \
                    or abs(edges[0] - edges[1]) < 1e-3:
                continue
            if abs(blat) >= abs(base.blat) and (
                    blat != olat):
                continue       # overlapping regions of crossed boundaries
            if abs(blat) < abs(base.blat) and blat == olat:
                continue
        if geo:
            continue
        check(ops.same_place(got, (lat, lt), base.hemi, 1e-6), "round-trip",
              tag, "back", got, "through", [c[j] for c in cols[:nfor]])


def judge_revert(sess, op, res):
    k = current(sess)
    cor = op.get("cor", {"v": 0.0})
    names = ["lat", "lt"]
    work = dict(op, cor=cor)
    if sess.isdual and "amlt" in op:
        names.append("amlt")
    (vals, shape) = points(work, *(names + ["cor"]))
    lats, lts = vals[0], vals[1]
    cors, hts = vals[-2], vals[-1]
    amlts = vals[2] if len(names) == 3 else [None] * len(lats)
    n = len(lats)
    cols = [ops.widen(v, n) for v in res]
    base, rec = base_model(sess, k)
    for j in range(n):
        tag = "{:s} element {:d} (lat {:.9g} lt {:.9g})".format(
            where(sess, op), j, lats[j], lts[j])
        got = (cols[0][j], cols[1][j])
        if k is None:
            check(got[0] != got[0] and got[1] != got[1], "not-nan-off-record",
                  tag, got)
            continue
        if model.sgn(lats[j]) != base.hemi:
            continue
        eps = 1.0
        if sess.isdual and not op["is_ocb"]:
            if amlts[j] is None:
                lat, lt = base.revert(rec, lats[j], lts[j], cors[j])
            else:
                lat, lt, eps = sess.ref.revert(k, lats[j], lts[j], cors[j],
                                               amlts[j])
        else:
            lat, lt = base.revert(rec, lats[j], lts[j], cors[j])
        if eps < 1e-6:
            continue
        tol = 1e-8
        if is_geo(op) and not (lat == lat and lt == lt):
            check(got[0] != got[0], "revert", tag, got, "want", (lat, lt))
            continue
        if is_geo(op):
            if abs(lat) > 89.9 or model.sgn(lat) != base.hemi:
                continue
            lat, lt = model.from_mag(lat, lt, op["coords"], hts[j],
                                     rec_time(sess, k))
            tol = 1e-5
        check(ops.same_place(got, (lat, lt), base.hemi, tol), "revert", tag,
              got, "want", (lat, lt))


def judge_radii(sess, op, res):
    k = current(sess)
    vals, shape = ops.grid(*[op[n]["v"] for n in ("lat", "lt", "amlt", "cor")])
    lats, _, amlts, cors = vals
    n = len(lats)
    cols = [ops.widen(v, n) for v in res]
    for j in range(n):
        tag = "{:s} element {:d}".format(where(sess, op), j)
        scaled, un, eps = sess.ref.radii(k, lats[j], amlts[j], cors[j])
        if eps < 1e-9:
            continue
        got = (cols[0][j], cols[1][j])
        check(same_float(got[0], scaled, 1e-9, 1e-9)
              and same_float(got[1], un, 1e-7, 1e-7), "radii", tag, got,
              "want", (scaled, un))


# --------------------------------------------------------- stored locations
def stored(sess):
    """{(boundary, record): (lats, mlts)} of the stored locations."""
    out = {}
    for name, obj, ref in sess.singles():
        lats = getattr(obj, "aacgm_boundary_lat", None)
        if lats is None:
            continue
        mlts = obj.aacgm_boundary_mlt
        check(len(lats) == len(ref.recs) and len(mlts) == len(ref.recs),
              "stored-length", name, len(lats), len(mlts), len(ref.recs))
        for i, (lat, mlt) in enumerate(zip(lats, mlts)):
            check((lat is None) == (mlt is None), "stored-half", name, i, lat,
                  mlt)
            if lat is not None:
                out[(name, i)] = (core.flat(lat), core.flat(mlt), lat, mlt)
    return out


def judge_stored(sess, where_):
    """Every stored location is the boundary at its stored local time."""
    refs = {name: ref for name, _, ref in sess.singles()}
    now = stored(sess)
    for (name, i), (lats, mlts, _, _) in now.items():
        ref = refs[name]
        check(len(lats) == len(mlts), "stored-shape", where_, name, i, lats,
              mlts)
        for lat, mlt in zip(lats, mlts):
            check(mlt != mlt or 0.0 <= mlt <= 24.0, "stored-mlt-range", where_,
                  name, i, mlt)
            rec = ref.recs[i]
            rad = rec["r"] + ref.corr(i, mlt)
            d = model.hr(mlt - rec["phi"] / 15.0)
            under = rad * rad - (rec["rc"] * math.sin(d)) ** 2
            out = rec["rc"] * math.cos(d) + math.sqrt(max(under, 0.0))
            if abs(under) < 1e-7 or abs(out) < 1e-7:
                continue
            want = ref.edge(i, mlt)
            check(same_float(lat, want, 1e-9, 1e-6), "stored-location", where_,
                  name, "record", i, "at", mlt, "got", lat, "want", want)
    import aacgmv2
    for name, obj, ref in sess.singles():
        lons = getattr(obj, "aacgm_boundary_lon", None) or []
        for i, lon in enumerate(lons):
            if lon is None:
                continue
            check((name, i) in now, "longitude-alone", where_, name, i, lon)
            want = core.flat(aacgmv2.convert_mlt(
                now[(name, i)][3], ref.recs[i]["t"], m2a=True))
            got = core.flat(lon)
            check(len(got) == len(want) and all(
                (a != a and b != b) or core.same_float(
                    math.cos(math.radians(a - b)), 1.0, 1e-6, 1e-6)
                for a, b in zip(got, want)), "stored-longitude", where_, name,
                i, got, "want", want)
    return now


def judge_edge(sess, op, res, before):
    """What one boundary-location request stores."""
    now = judge_stored(sess, where(sess, op))
    (mlts,), _ = ops.grid(op["mlt"]["v"])
    want = [model.wrap24(m) if m == m else m for m in mlts]
    rec = sess.edge_rec(op, sess.obj)
    for name, obj, ref in sess.singles():
        if rec is None:
            named = range(len(ref.recs))
        else:
            named = [int(r) for r in np.atleast_1d(rec)]
            if sess.isdual:
                col = 0 if name == "ocb" else 1
                named = [sess.ref.pairs[r][col] for r in named]
        for i in range(len(ref.recs)):
            key = (name, i)
            if i in named and (key not in before or op["over"]):
                check(key in now, "not-stored", where(sess, op), key)
                check(all(core.same_hour(a, b) for a, b in
                          zip(now[key][1], want))
                      and len(now[key][1]) == len(want), "stored-mlt",
                      where(sess, op), key, now[key][1], "want", want)
            else:
                check((key in now) == (key in before) and (
                    key not in now or core.canon(now[key][:2])
                    == core.canon(before[key][:2])), "other-location-changed",
                    where(sess, op), key, now.get(key), before.get(key))
        if op["lon"] and ref.recs:
            lons = getattr(obj, "aacgm_boundary_lon", None)
            check(lons is not None and len(lons) == len(ref.recs),
                  "no-longitudes", where(sess, op), name)
            import aacgmv2
            for i in named:
                if (name, i) in before and not op["over"]:
                    continue
                val = aacgmv2.convert_mlt(now[(name, i)][3],
                                          ref.recs[i]["t"], m2a=True)
                got, exp = core.flat(lons[i]), core.flat(val)
                check(len(got) == len(exp) and all(
                    core.same_float(math.cos(math.radians(a - b)), 1.0, 1e-9,
                                    1e-9) or (a != a and b != b)
                    for a, b in zip(got, exp)), "longitude", where(sess, op),
                    name, i, got, "want", exp)


def judge_kept(sess, op, res, before):
    """What a query of a dual boundary stores where nothing was stored."""
    kind = op["op"]
    if not sess.isdual or current(sess) is None or kind not in (
            "normal", "radii"):
        return
    if kind == "normal" and all(x != x for x in core.flat(res[2])):
        return
    now = stored(sess)
    for name, rec in zip(("ocb", "eab"), sess.ref.pairs[current(sess)]):
        check((name, rec) in now, "not-stored", where(sess, op), name, rec)
        if kind != "radii" or ((name, rec) in before and not op["over"]):
            continue
        (mlts,), _ = ops.grid(op["amlt"]["v"])
        want = [model.wrap24(m) if m == m else m for m in mlts]
        got = core.flat(now[(name, rec)][1])
        check(len(got) == len(want) and all(
            core.same_hour(a, b) for a, b in zip(got, want)), "stored-mlt",
            where(sess, op), name, got, "want", want)


__all__ = ["judge_kept", "judge", "judge_edge", "judge_stored", "stored", "current"]
