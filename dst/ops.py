"""Sessions: one boundary (single or dual) under a history of API calls.

`Session.do` performs one JSON operation on the real objects and returns its
results; `Session.expect` says what the model answers.  Arguments given to the
code are remembered with a snapshot, so that checks can tell if they changed.
"""
import math

import numpy as np

from dst import core, model, world
from dst.core import check, flat, same_float

NAN = float("nan")


# ----------------------------------------------------------------- arguments
def gen_shape(rng, dual=False):
    return core.pick(rng, {"s": 3, "1": 4, "one": .7, "2": 1.2})


def gen_vals(rng, shape, fun):
    if shape == "s":
        return fun()
    if shape == "one":
        return [fun()]
    if shape == "1":
        return [fun() for _ in range(rng.randint(2, 7))]
    return [[fun() for _ in range(3)] for _ in range(2)]


def like(vals, fun):
    if isinstance(vals, list):
        return [like(v, fun) for v in vals]
    return fun()


def arg(rng, vals, ints=False):
    """An argument spec: its values and the kind of object to pass."""
    if not isinstance(vals, list):
        return {"v": vals, "k": "i" if ints else rng.choice(["s", "s", "n"])}
    return {"v": vals, "k": "i" if ints else core.pick(
        rng, {"f": 5, "ro": 2, "l": 2})}


def shaped(spec):
    """numpy view of a spec's values, as float."""
    return np.array(spec["v"], dtype=float)


class Args:
    """Materialised arguments of one call, with their snapshots."""

    def __init__(self):
        self.items = []

    def __call__(self, spec, name="arg"):
        if spec is None:
            return None
        vals, kind = spec["v"], spec["k"]
        if kind == "s":
            return vals
        if kind == "n":
            return np.float64(vals)
        if kind == "l":
            obj = [list(v) if isinstance(v, list) else v for v in vals]
        elif kind == "i":
            obj = np.array(vals).astype(int)
            if obj.shape == ():
                return int(obj)
        else:
            obj = np.array(vals, dtype=float)
            if kind == "ro":
                obj.setflags(write=False)
        self.items.append((name, obj, core.canon(obj), type(obj)))
        return obj

    def note(self, name, obj):
        self.items.append((name, obj, core.canon(obj), type(obj)))
        return obj

    def verify(self, where):
        for name, obj, before, kind in self.items:
            check(core.canon(obj) == before, "argument-changed", where, name,
                  "is now", obj)


# ----------------------------------------------------------------- generators
def gen_lat(rng, hemi, both=.12, zero=.03):
    def fun():
        x = rng.random()
        if x < zero:
            return 0.0
        if x < zero + .02:
            return NAN
        if x < zero + .05:
            return 90.0 * hemi
        val = rng.uniform(50, 90) if rng.random() < .8 else rng.uniform(1, 60)
        val = round(val, rng.choice([0, 1, 4, 15]))
        return -hemi * val if rng.random() < both else hemi * val
    return fun


def gen_hour(rng, wide=.05, nan=.02):
    def fun():
        x = rng.random()
        if x < nan:
            return NAN
        if x < nan + wide:
            return rng.choice([24.0, 25.5, -1.0, -30.0, 100.0, 0.0, 12.0])
        return round(rng.uniform(0, 24), rng.choice([0, 1, 4, 15]))
    return fun


def gen_query(rng, hemi, name, dual=False, geo=.15):
    """Arguments of a coordinate query."""
    coords = "magnetic" if rng.random() > geo else rng.choice(
        ["geodetic", "geocentric", "Geodetic", "Geocentric", "GEOCENTRIC"])
    if coords == "magnetic" and rng.random() < .1:
        coords = rng.choice(["MAGNETIC", "mag"])
    shape = gen_shape(rng)
    if coords.lower().startswith("geo"):
        shape = rng.choice(["s", "1", "one"])
    ints = rng.random() < .15
    latf, ltf = gen_lat(rng, hemi), gen_hour(rng)
    if ints:
        latf = (lambda: hemi * rng.randint(1, 89) * (
            -1 if rng.random() < .1 else 1))
        ltf = (lambda: rng.randint(0, 23))
    elif coords.lower().startswith("geo"):
        latf = (lambda: hemi * round(rng.uniform(50, 89), 3))
        ltf = gen_hour(rng, wide=0, nan=0)
    lat = gen_vals(rng, shape, latf)
    if shape != "s" and rng.random() < .12:
        op = {"op": name, "lat": arg(rng, lat, ints),
              "lt": {"v": ltf(), "k": "s"}}
    elif shape != "s" and rng.random() < .12 and not coords.lower(
            ).startswith("geo"):
        op = {"op": name, "lat": {"v": latf(), "k": "s"},
              "lt": arg(rng, like(lat, ltf), ints)}
    else:
        op = {"op": name, "lat": arg(rng, lat, ints),
              "lt": arg(rng, like(lat, ltf), ints)}
    op["coords"] = coords
    if coords.lower().startswith("geo"):
        op["height"] = rng.choice([0.0, 110.0, 350.0, 830.0])
        if rng.random() < .2:
            del op["height"]
        elif shape != "s" and rng.random() < .3:
            op["height"] = like(lat, lambda: rng.choice([100.0, 400.0]))
    if dual and rng.random() < .25:
        op["over"] = True
    return op


def gen_op(rng, sess, kinds):
    kind = core.pick(rng, kinds)
    dual = "dual" in sess
    ser = sess["dual"]["ocb"] if dual else sess["series"]
    hemi, n = ser["hemi"], len(ser["rows"])
    if kind == "set":
        return {"op": "set", "k": max(-1, rng.choice(
            [-1, 0, 0, n - 1, n, n + 2, rng.randint(0, max(0, n - 1)),
             rng.randint(0, max(0, n - 1))]))}
    if kind == "next":
        return {"op": "next", "sel": [None, None, []] if dual
                else world.gen_select(rng, ser)}
    if kind == "list":
        return {"op": "list", "sel": world.gen_select(rng, ser)}
    if kind == "select":
        return {"op": "select", "sel": world.gen_select(rng, ser),
                "sel_e": world.gen_select(rng, sess["dual"]["eab"])}
    if kind in ("normal", "round"):
        return gen_query(rng, hemi, kind, dual)
    if kind == "revert":
        op = gen_query(rng, hemi, kind, dual)
        vals = op["lat"]["v"]
        op["lat"]["v"] = like(vals, lambda: 0.0)

        def fix(v, w):
            if isinstance(v, list):
                return [fix(a, b) for a, b in zip(v, w)]
            # Conversions back are promised for the right hemisphere only
            return hemi * abs(v) if v == v and v != 0 else hemi * 80
        op["lat"]["v"] = fix(vals, vals)
        op["lt"]["v"] = like(op["lt"]["v"], lambda: rng.randint(0, 23)) \
            if op["lt"]["k"] == "i" else op["lt"]["v"]
        if rng.random() < .6:
            op["cor"] = arg(rng, like(
                op["lat"]["v"] if isinstance(op["lat"]["v"], list)
                else op["lt"]["v"], lambda: round(rng.uniform(-4, 3), 3)))
        if dual:
            op["is_ocb"] = rng.random() < .25
            if rng.random() < .95:
                big = op["lat"]["v"] if isinstance(op["lat"]["v"], list) \
                    else op["lt"]["v"]
                op["amlt"] = arg(rng, like(big, gen_hour(rng, nan=0)))
                if rng.random() < .1:
                    op["amlt"] = {"v": rng.uniform(0, 24), "k": "s"}
        return op
    if kind == "edge":
        rec = rng.choice([None, "int", "int", "list", "arr"])
        top = max(0, n - 1)
        if rec == "int":
            rec = rng.randint(0, top)
        elif rec is not None:
            rec = [rec] + [rng.randint(0, top)
                           for _ in range(rng.randint(1, 3))]
        shape = rng.choice(["s", "1", "1", "one"])
        ints = rng.random() < .2
        fun = (lambda: rng.randint(-3, 27)) if ints else gen_hour(rng, nan=.01)
        return {"op": "edge", "mlt": arg(rng, gen_vals(rng, shape, fun), ints),
                "rec": rec, "over": rng.random() < .5,
                "lon": rng.random() < .3}
    if kind == "radii":
        shape = rng.choice(["s", "1", "1", "2"])
        lat = gen_vals(rng, shape, lambda: hemi * round(
            rng.uniform(40, 89), 3))
        return {"op": "radii", "lat": arg(rng, lat),
                "lt": arg(rng, like(lat, gen_hour(rng, nan=0))),
                "amlt": arg(rng, like(lat, gen_hour(rng, nan=0))),
                "cor": arg(rng, like(lat, lambda: round(rng.uniform(-3, 3),
                                                        2))),
                "over": rng.random() < .25}
    if kind == "bad":
        return {"op": "bad", "what": rng.choice(
            ["shape", "coords", "rec", "crit", "rfunc", "revert", "edge"]),
            "over": rng.random() < .5}
    if kind == "match":
        return {"op": "match", "seed": rng.getrandbits(40),
                "n": rng.randint(1, 6), "tol": rng.choice([60, 600, 1, 0.5]),
                "sel": world.gen_select(rng, ser) if rng.random() < .3
                else [None, None, []]}
    return {"op": kind}


# --------------------------------------------------------------------- session
class Session:
    """Real objects and model of one world."""

    def __init__(self, plan, fs, where="/vsim/s"):
        self.plan = plan
        self.isdual = "dual" in plan
        self.where = where
        if self.isdual:
            self.names = [where + ".ocb", where + ".eab"]
            fs.put(self.names[0], world.text(plan["dual"]["ocb"]))
            fs.put(self.names[1], world.text(plan["dual"]["eab"]))
            self.ref = world.build_dual_model(plan["dual"])
            self.hemi = plan["dual"]["ocb"]["hemi"]
        else:
            self.names = [where + ".bound"]
            fs.put(self.names[0], world.text(plan["series"]))
            self.ref = world.build_model(plan["series"])
            self.hemi = plan["series"]["hemi"]
        self.obj = self.fresh()
        self.sel = ((None, None, ()), (None, None, ()))
        self.stored = {}
        for key in ("ocb", "eab", "one"):
            self.stored[key] = None

    def fresh(self):
        if self.isdual:
            return world.load_dual(self.plan["dual"], *self.names)
        return world.load(self.plan["series"], self.names[0])

    @property
    def cursor(self):
        return int(self.obj.rec_ind)

    def singles(self):
        """(name, real object, model) of the underlying boundaries."""
        if self.isdual:
            return [("ocb", self.obj.ocb, self.ref.ocb),
                    ("eab", self.obj.eab, self.ref.eab)]
        return [("one", self.obj, self.ref)]

    def snapshot(self):
        """Canonical form of every loaded record value."""
        out = {}
        for name, obj, _ in self.singles():
            for key, val in core.public(obj).items():
                if key.startswith("aacgm_boundary") or key == "rec_ind":
                    continue
                out[name + "." + key] = core.canon(_freeze(val))
        return out

    def edges_snapshot(self):
        out = {}
        for name, obj, _ in self.singles():
            for key in ("aacgm_boundary_lat", "aacgm_boundary_mlt",
                        "aacgm_boundary_lon"):
                if hasattr(obj, key):
                    for i, val in enumerate(getattr(obj, key)):
                        out[(name, key, i)] = core.canon(_freeze(val))
        return out

    # ------------------------------------------------------------- operations
    def do(self, op, obj=None, args=None):
        """Perform an operation; returns its results."""
        obj = self.obj if obj is None else obj
        args = Args() if args is None else args
        return getattr(self, "_" + op["op"])(op, obj, args)

    def _set(self, op, obj, args):
        obj.rec_ind = op["k"]

    def _next(self, op, obj, args):
        if self.isdual:
            obj.get_next_good_ind()
        else:
            lo, hi, crit = op["sel"]
            kws = args.note("criteria", world.crit_kwargs(crit))
            obj.get_next_good_ocb_ind(min_merit=lo, max_merit=hi, **kws)

    def _list(self, op, obj, args):
        from ocbpy import cycle_boundary
        lo, hi, crit = op["sel"]
        kws = args.note("criteria", world.crit_kwargs(crit))
        one = obj.ocb if self.isdual else obj
        return [cycle_boundary.retrieve_all_good_indices(
            one, min_merit=lo, max_merit=hi, **kws)]

    def _select(self, op, obj, args):
        lo, hi, crit = op["sel"]
        elo, ehi, ecrit = op["sel_e"]
        obj.set_good_ind(
            ocb_min_merit=lo, ocb_max_merit=hi, ocb_kwargs=args.note(
                "ocb_kwargs", world.crit_kwargs(crit)), eab_min_merit=elo,
            eab_max_merit=ehi, eab_kwargs=args.note(
                "eab_kwargs", world.crit_kwargs(ecrit)))

    def match_times(self, op):
        if self.isdual:
            times = self.ref.times or [world.when(world.BASES[0])]
        else:
            times = [r["t"] for r in self.ref.recs] or [
                world.when(world.BASES[0])]
        return world.gen_data_times(world.rng_from(op["seed"]), times, op["n"])

    def _match(self, op, obj, args):
        import ocbpy
        times = args.note("dtimes", self.match_times(op))
        lo, hi, crit = op["sel"]
        out = []
        idat = 0
        while idat is not None and idat < len(times) \
                and obj.rec_ind < obj.records:
            idat = ocbpy.match_data_ocb(
                obj, times, idat=idat, max_tol=op["tol"], min_merit=lo,
                max_merit=hi, **world.crit_kwargs(crit))
            out.append((idat, int(obj.rec_ind)))
            if idat is not None:
                idat += 1
        return [out]

    def _geo(self, op):
        kws = {"coords": op["coords"]}
        if "height" in op:
            kws["height"] = np.array(op["height"]) if isinstance(
                op["height"], list) else op["height"]
        if self.isdual and op.get("over"):
            kws["overwrite"] = True
        return kws

    def _normal(self, op, obj, args):
        return list(obj.normal_coord(args(op["lat"], "lat"),
                                     args(op["lt"], "lt"), **self._geo(op)))

    def _round(self, op, obj, args):
        out = self._normal(op, obj, args)
        kws = self._geo(op)
        if self.isdual:
            back = obj.revert_coord(out[0], out[1], r_corr=out[3],
                                    is_ocb=False, aacgm_mlt=args(
                                        op["lt"], "lt"), **kws)
        else:
            back = obj.revert_coord(out[0], out[1], r_corr=out[2], **kws)
        return out + list(back)

    def _revert(self, op, obj, args):
        kws = self._geo(op)
        if "cor" in op:
            kws["r_corr"] = args(op["cor"], "r_corr")
        if self.isdual:
            kws["is_ocb"] = op["is_ocb"]
            if "amlt" in op:
                kws["aacgm_mlt"] = args(op["amlt"], "aacgm_mlt")
        return list(obj.revert_coord(args(op["lat"], "lat"),
                                     args(op["lt"], "lt"), **kws))

    def _edge(self, op, obj, args):
        rec = self.edge_rec(op, obj)
        name = "get_aacgm_boundary_lat" + ("s" if self.isdual else "")
        getattr(obj, name)(args(op["mlt"], "mlt"), rec_ind=rec if rec is None
                           else args.note("rec_ind", rec),
                           overwrite=op["over"], set_lon=op["lon"])

    def edge_rec(self, op, obj):
        """The record argument, folded into the records there are."""
        n = max(1, obj.records)
        rec = op["rec"]
        if rec is None:
            return None
        if isinstance(rec, int):
            return rec % n
        vals = [r % n for r in rec[1:]]
        return np.array(vals) if rec[0] == "arr" or self.isdual else vals

    def _radii(self, op, obj, args):
        return list(obj.calc_r(
            args(op["lat"], "bound_lat"), args(op["lt"], "bound_mlt"),
            args(op["amlt"], "aacgm_mlt"), args(op["cor"], "r_corr"),
            overwrite=op["over"]))

    def _show(self, op, obj, args):
        return [repr(obj), str(obj)]

    def _bad(self, op, obj, args):
        """A call that fails or does nothing; returns the exception's name."""
        kws = {"overwrite": op["over"]} if self.isdual else {}
        one = obj.ocb if self.isdual else obj
        saved = None
        try:
            if op["what"] == "shape":
                obj.normal_coord([80.0, 81.0, 82.0], [1.0, 2.0], **kws)
            elif op["what"] == "coords":
                obj.normal_coord(80.0 * self.hemi, 6.0, coords=3)
            elif op["what"] == "rec":
                one.get_aacgm_boundary_lat([1.0, 2.0], rec_ind=10 ** 6)
            elif op["what"] == "crit" and not self.isdual:
                obj.get_next_good_ocb_ind(fom=(1,))
            elif op["what"] == "rfunc" and one.rfunc is not None:
                saved = one.rfunc
                one.rfunc = np.full(shape=len(saved), fill_value=_broken)
                obj.normal_coord(80.0 * self.hemi, 6.0, **kws)
            elif op["what"] == "revert":
                obj.revert_coord([80.0, 81.0], [1.0, 2.0, 3.0])
            elif op["what"] == "edge":
                one.get_aacgm_boundary_lat("noon")
        except Exception as err:
            return [type(err).__name__]
        finally:
            if saved is not None:
                one.rfunc = saved
        return ["none"]


def _broken(mlt, **kwargs):
    raise RuntimeError("no correction here")


def _freeze(val):
    if isinstance(val, np.ndarray) and val.dtype == object:
        return [_freeze(v) for v in val]
    if callable(val):
        return getattr(val, "__name__", "function")
    return val


# ------------------------------------------------------------ model comparison
def cart(lat, hour, hemi):
    r = 90.0 - hemi * lat
    return r * math.cos(model.hr(hour)), r * math.sin(model.hr(hour))


def same_place(got, want, hemi, tol=1e-7):
    """Positions equal as points of the plane; NaN equals NaN per component."""
    for a, b in zip(got, want):
        if (a != a) != (b != b):
            return False
    if got[0] != got[0] or got[1] != got[1]:
        return same_float(got[0], want[0], 1e-9, 1e-6) and (
            got[1] != got[1] or core.same_hour(got[1], want[1]))
    (ax, ay), (bx, by) = cart(*got, hemi), cart(*want, hemi)
    size = 1.0 + abs(bx) + abs(by)
    return math.hypot(ax - bx, ay - by) <= tol * size


def grid(*specs):
    """Broadcast argument specs; returns flat lists of floats and the shape."""
    arrs = np.broadcast_arrays(*[np.asarray(s, dtype=float) for s in specs])
    return [[float(x) for x in a.ravel()] for a in arrs], arrs[0].shape


def widen(result, n):
    """Values of a result that may be a scalar for all points."""
    vals = flat(result)
    return vals * n if len(vals) == 1 and n != 1 else vals


__all__ = ["Session", "Args", "gen_op", "NAN"]
