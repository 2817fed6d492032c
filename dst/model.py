"""Reference model: what the documentation promises, in plain Python scalars.

Nothing here imports ocbpy.  Geographic conversions call aacgmv2 directly, the
library the documentation names.
"""
import datetime as dt
import math

NAN = float("nan")


# ------------------------------------------------------------- small helpers
def wrap24(hour):
    out = math.fmod(hour, 24.0)
    if out < 0.0:
        out += 24.0
    return 0.0 if out >= 24.0 else out


def sgn(x):
    return (x > 0) - (x < 0) if x == x else NAN


def hr(x):
    return x * math.pi / 12.0


# ---------------------------------------------------- boundary corrections
_ELL = {"median": (4.01, 0.55, -0.92), "gaussian": (4.41, 0.51, -0.95)}
_HAR = {
    ("ampere", "median"): [3.31000535, -0.5452934, -1.24389141, 2.42619653,
                           -0.66677988, -1.03467488, -0.30763009, 0.52426756,
                           0.04359299, 0.60201848, 0.50618522, 1.04360529,
                           0.25186405],
    ("ampere", "gaussian"): [3.80100827, 0.98555723, -3.43760943, 1.85084271,
                             -0.36730751, -0.81975654, -1.02823832,
                             1.30637288, -0.53599218, 0.40380183, -1.22462708,
                             -1.2733629, -0.62743381],
    ("si12", "ocb"): [0.0405, -1.5078, 1.0, 0.5095, 1.0, 0.9371, 1.0, 0.0708,
                      1.0, 0.0, 1.0, 0.0, 1.0],
    ("si12", "eab"): [-0.1447, -1.9779, 1.0, 2.6799, 1.0, 0.5778, 1.0,
                      -1.2297, 1.0, 0.0, 1.0, 0.0, 1.0],
    ("si13", "ocb"): [0.5797, -0.6837, 1.0, -0.5020, 1.0, 0.2971, 1.0,
                      -0.4173, 1.0, 0.0, 1.0, 0.0, 1.0],
    ("si13", "eab"): [0.2500, -2.9931, 1.0, 0.8818, 1.0, 0.8511, 1.0,
                      -0.6300, 1.0, 0.0, 1.0, 0.0, 1.0],
    ("wic", "ocb"): [1.0298, -1.1249, 1.0, -0.7380, 1.0, 0.1838, 1.0, -0.6171,
                     1.0, 0.0, 1.0, 0.0, 1.0],
    ("wic", "eab"): [-0.4935, -2.1186, 1.0, 0.3188, 1.0, 0.5749, 1.0,
                     -0.3118, 1.0, 0.0, 1.0, 0.0, 1.0]}


def correction(name, kwargs, mlt):
    """Radius correction in degrees at an AACGM local time."""
    if mlt != mlt:
        return kwargs.get("r_add", 0.0) if name == "circular" else NAN
    if name == "circular":
        return kwargs.get("r_add", 0.0)
    if name == "elliptical":
        a, e, t = _ELL[kwargs.get("method", "median").lower()]
        return -(a * (1.0 - e * e) / (1.0 + e * math.cos(hr(mlt) - t)))
    c = _HAR[(kwargs.get("instrument", "ampere").lower(),
              kwargs.get("method", "median").lower())]
    x = hr(mlt)
    return -(c[0] + c[1] * math.cos(x + c[2]) + c[3] * math.sin(x + c[4])
             + c[5] * math.cos(2 * (x + c[6]))
             + c[7] * math.sin(2 * (x + c[8]))
             + c[9] * math.cos(3 * (x + c[10]))
             + c[11] * math.sin(3 * (x + c[12])))


def good_value(val, how, lim):
    return {"min": lambda: not val <= lim, "max": lambda: not val >= lim,
            "mineq": lambda: not val < lim, "maxeq": lambda: not val > lim,
            "equal": lambda: not val != lim}[how]()


def clean(mlat, mlt):
    return mlat == mlat and mlt == mlt


# ------------------------------------------------------------------ boundary
LIMITS = {"image": (-math.inf, 5.0), "ampere": (0.15, math.inf),
          "dmsp-ssj": (3.0, math.inf)}


class Bound:
    """One boundary type: recs are dicts with t, phi, rc, r, fom, others."""

    def __init__(self, recs, hemi, blat, rfunc, limits):
        self.recs = recs
        self.hemi = hemi
        self.blat = abs(blat) * hemi
        self.rf = rfunc              # list of (name, kwargs), one per record
        self.limits = limits

    def acceptable(self, i, lo=None, hi=None, crit=()):
        rec = self.recs[i]
        lo = self.limits[0] if lo is None else lo
        hi = self.limits[1] if hi is None else hi
        if not (rec["fom"] >= lo and rec["fom"] <= hi):
            return False
        return all(good_value(rec[name], how, lim) for name, how, lim in crit
                   if name in rec)

    def good(self, lo=None, hi=None, crit=()):
        return [i for i in range(len(self.recs))
                if self.acceptable(i, lo, hi, crit)]

    def center(self, i):
        rec = self.recs[i]
        phi = math.radians(rec["phi"])
        return rec["rc"] * math.cos(phi), rec["rc"] * math.sin(phi)

    def corr(self, i, mlt):
        return correction(self.rf[i][0], self.rf[i][1], mlt)

    def inside(self, i):
        return i is not None and 0 <= i < len(self.recs)

    def normal(self, i, lat, mlt):
        """OCB latitude, OCB local time, radius correction of one point."""
        if not self.inside(i) or not sgn(lat) == self.hemi:
            return NAN, NAN, NAN
        xc, yc = self.center(i)
        rp = 90.0 - self.hemi * lat
        cor = self.corr(i, mlt)
        scale = (90.0 - abs(self.blat)) / (self.recs[i]["r"] + cor)
        xn = (rp * math.cos(hr(mlt)) - xc) * scale
        yn = (rp * math.sin(hr(mlt)) - yc) * scale
        return (self.hemi * (90.0 - math.hypot(xn, yn)),
                wrap24(math.degrees(math.atan2(yn, xn)) / 15.0), cor)

    def revert(self, i, olat, omlt, cor):
        if not self.inside(i):
            return NAN, NAN
        xc, yc = self.center(i)
        rn = 90.0 - self.hemi * olat
        scale = (self.recs[i]["r"] + cor) / (90.0 - self.hemi * self.blat)
        xp = rn * math.cos(hr(omlt)) * scale + xc
        yp = rn * math.sin(hr(omlt)) * scale + yc
        return (self.hemi * (90.0 - math.hypot(xp, yp)),
                wrap24(math.degrees(math.atan2(yp, xp)) / 15.0))

    def edge(self, i, mlt):
        """AACGM latitude of the boundary at a local time, NaN if none."""
        rec = self.recs[i]
        mlt = wrap24(mlt) if mlt == mlt else mlt
        d = hr(mlt - rec["phi"] / 15.0)
        rad = rec["r"] + self.corr(i, mlt)
        under = rad * rad - (rec["rc"] * math.sin(d)) ** 2
        if not under >= 0.0:
            return NAN
        out = rec["rc"] * math.cos(d) + math.sqrt(under)
        return NAN if out < 0.0 else self.hemi * (90.0 - out)


# ------------------------------------------------------------ matching times
def match(times, good, data, tol):
    """[(data index, record index)] for every matchable data time."""
    out = []
    for j, when in enumerate(data):
        best = None
        for i in good:
            gap = abs((times[i] - when).total_seconds())
            if gap <= tol and (best is None or gap < best[0]):
                best = (gap, i)
        if best is not None:
            out.append((j, best[1]))
    return out


class Dual:
    """Pairs of an Eab and an Ocb model boundary."""

    def __init__(self, eab, ocb, delta):
        self.eab, self.ocb, self.delta = eab, ocb, delta
        self.hemi = ocb.hemi
        self.select()

    def select(self, o_lim=(None, None, ()), e_lim=(None, None, ())):
        good_o = self.ocb.good(*o_lim)
        good_e = self.eab.good(*e_lim)
        pairs = match([r["t"] for r in self.eab.recs], good_e,
                      [self.ocb.recs[i]["t"] for i in good_o], self.delta)
        self.pairs = [(good_o[j], i) for j, i in pairs]
        self.times = [self.ocb.recs[o]["t"] for o, _ in self.pairs]

    def inside(self, k):
        return k is not None and 0 <= k < len(self.pairs)

    def edges(self, k, mlt):
        o, e = self.pairs[k]
        return self.eab.edge(e, mlt), self.ocb.edge(o, mlt)

    def normal(self, k, lat, mlt):
        """bound_lat, bound_mlt, ocb_lat, r_corr and the distance to a region
        border (0 means ambiguous by rounding)."""
        if not self.inside(k):
            return NAN, NAN, NAN, NAN, 1.0
        o, _ = self.pairs[k]
        olat, omlt, cor = self.ocb.normal(o, lat, mlt)
        if olat != olat:
            return olat, omlt, olat, cor, 1.0
        eedge, oedge = self.edges(k, mlt)
        a = abs(lat)
        eps = min([abs(a - abs(x)) for x in (eedge, oedge) if x == x]
                  + [abs(abs(olat) - abs(self.ocb.blat)), 1.0])
        out = NAN
        inside = abs(olat) >= abs(self.ocb.blat)
        mid = a < abs(oedge) and a >= abs(eedge)
        low = a < abs(eedge)
        if inside or mid or low:
            out = olat
        if mid:
            out = self.ocb.blat - (oedge - lat) * (
                self.ocb.blat - self.eab.blat) / (oedge - eedge)
        if low:
            out = self.eab.blat - (eedge - lat) * (self.eab.blat / eedge)
        return out, omlt, olat, cor, eps

    def revert(self, k, blat, bmlt, cor, amlt):
        """AACGM position of a dual-coordinate point (amlt: its AACGM MLT)."""
        if not self.inside(k):
            return NAN, NAN, 1.0
        o, _ = self.pairs[k]
        lat, mlt = self.ocb.revert(o, blat, bmlt, cor)
        a = abs(blat)
        eps = min(abs(a - abs(self.ocb.blat)), abs(a - abs(self.eab.blat)))
        eedge, oedge = self.edges(k, amlt)
        if abs(self.eab.blat) <= a < abs(self.ocb.blat):
            return oedge - (self.ocb.blat - blat) * (oedge - eedge) / (
                self.ocb.blat - self.eab.blat), amlt, eps
        if a < abs(self.eab.blat):
            return eedge - (self.eab.blat - blat) * (
                eedge / self.eab.blat), amlt, eps
        return lat, mlt, eps

    def radii(self, k, blat, amlt, cor):
        """(scaled, unscaled) radius of the region of a dual-coordinate point."""
        scaled = 90.0 - abs(self.ocb.blat)
        if not self.inside(k):
            return scaled, NAN, 1.0
        o, _ = self.pairs[k]
        a = abs(blat)
        eps = min(abs(a - abs(self.ocb.blat)), abs(a - abs(self.eab.blat)))
        eedge, oedge = self.edges(k, amlt)
        if abs(self.eab.blat) <= a < abs(self.ocb.blat):
            return abs(self.ocb.blat - self.eab.blat), abs(oedge - eedge), eps
        if a < abs(self.eab.blat):
            return abs(self.eab.blat), abs(eedge), eps
        return scaled, self.ocb.recs[o]["r"] + cor, eps


# ------------------------------------------------------------ geographic part
def slt2glon(slt, when):
    sec = when.hour * 3600 + when.minute * 60 + when.second
    return wrap180((slt - sec / 3600.0) * 15.0)


def glon2slt(lon, when):
    return wrap24(lon / 15.0 + (when.hour * 3600 + when.minute * 60
                                + when.second) / 3600.0)


def wrap180(lon):
    out = math.fmod(lon, 360.0)
    if out >= 180.0:
        out -= 360.0
    if out < -180.0:
        out += 360.0
    return out


def to_mag(lat, slt, coords, height, when, method="ALLOWTRACE"):
    """AACGM latitude and local time of a geographic point."""
    import aacgmv2
    if coords.lower() == "geocentric":
        method += "|GEOCENTRIC"
    out = aacgmv2.get_aacgm_coord(lat, slt2glon(slt, when), height, when,
                                  method)
    return float(out[0]), float(out[2])


def from_mag(mlat, mlt, coords, height, when, method="ALLOWTRACE"):
    import aacgmv2
    if coords.lower() == "geocentric":
        method += "|GEOCENTRIC"
    lon = float(aacgmv2.convert_mlt(mlt, when, m2a=True)[0]) if not isinstance(
        mlt, float) else float(aacgmv2.convert_mlt([mlt], when, m2a=True)[0])
    out = aacgmv2.convert_latlon(mlat, lon, height, when, method + "|A2G")
    return float(out[0]), glon2slt(float(out[1]), when)


def year_soy(when):
    start = dt.datetime(when.year, 1, 1)
    return when.year, (when - start).total_seconds()
