"""C18: vector conversion.

Several vectors (scalars and arrays) are converted on shared boundaries in a
seeded order, interleaved with re-assignments of indices and components,
clearing, repeated conversions and other queries.  After every conversion each
element is compared with an exact rotation and scaling, and the whole vector
with a new one made from the same current inputs.
"""
import numpy as np

from dst import core, ops, seams, simfs, vecs, world
from dst.core import check

RUNS = {"quick": 5000, "thorough": 150000}
BATCH = 100
LEVEL = "exploration"
RULE = ("seeded boundaries, 1-3 vectors of seeded shape and 4-14 operations; "
        "non-trivial if a vector was converted again after a change or a "
        "conversion of another vector")
STATE_MEASURE = ("distinct (shape, coordinates, scaling, pair of quadrants of "
                 "vector and pole, previous operation) tuples")
REAL = ["ocbpy.ocb_scaling.VectorData", "ocbpy.vectors",
        "ocbpy.OCBoundary/EABoundary/DualBoundary", "aacgmv2", "numpy"]
STUB = ["file system (in memory)", "ocbpy log handler (recorded)",
        "numpy memory allocator (seeded contents)"]
ASSUMES = ["locations in line with both poles, at a pole or without "
           "horizontal components are outside the statement",
           "aacgmv2 conversions are taken from the library itself"]
SHRINK = ["ops", "other", "series.rows", "dual.ocb.rows", "dual.eab.rows"]


def gen(rng, tier, index):
    n = rng.choice([1, 2, 3, 6])
    if rng.random() < .35:
        plan = {"dual": world.gen_dual(rng, n)}
        hemi = plan["dual"]["ocb"]["hemi"]
    else:
        plan = {"series": world.gen_series(
            rng, n, bound=rng.choice(["ocb", "ocb", "eab"]))}
        hemi = plan["series"]["hemi"]
    nrec = n
    if "dual" in plan:
        nrec = len(world.build_dual_model(plan["dual"]).pairs)
    if rng.random() < .35:
        # Another boundary that the same vectors are converted on
        if rng.random() < .35:
            plan["other"] = {"dual": world.gen_dual(rng, n, hemi=hemi)}
            nrec = min(nrec, len(world.build_dual_model(
                plan["other"]["dual"]).pairs))
        else:
            plan["other"] = {"series": world.gen_series(
                rng, n, bound=rng.choice(["ocb", "eab"]), hemi=hemi)}
    plan["vecs"] = [vecs.gen_vec(rng, hemi, max(1, nrec))
                    for _ in range(rng.randint(1, 3))]
    plan["ops"] = []
    for _ in range(rng.randint(4, 14)):
        i = rng.randrange(len(plan["vecs"]))
        vec = plan["vecs"][i]
        kind = core.pick(rng, {"convert": 6, "clear": 1, "ocb_ind": 2,
                               "dat_ind": .7, "comp": 1.5, "query": 1, "move": 1,
                               "show": .5, "fail": .5, "mag": .3})
        op = {"op": kind, "v": i}
        if kind == "ocb_ind":
            op["to"] = [rng.randint(0, max(1, nrec) - 1) for _ in vec["ocb"]]
            op["int"] = rng.random() < .5
        elif kind == "dat_ind":
            op["to"] = [rng.randint(0, 99) for _ in vec["dat"]]
        elif kind == "comp":
            op["name"] = rng.choice(["n", "e", "z"])
            op["to"] = [vecs.gen_comp(rng) or 3.5 for _ in vec["dat"]]
        elif kind == "convert":
            op["on"] = rng.choice([0, 1])
        elif kind == "move":
            op["name"] = rng.choice(["lat", "lt"])
            op["to"] = [vecs.gen_lat(rng, hemi) if op["name"] == "lat" else
                        round(rng.uniform(0, 24), 3) for _ in vec["dat"]]
        elif kind == "fail":
            op["at"] = rng.random()
        plan["ops"].append(op)
    plan["memseed"] = rng.getrandbits(30)
    return plan


def hemi_lat(sess):
    return 75.0 * sess.hemi


class BadBoundary:
    """A boundary whose coordinate query fails after some calls."""

    def __init__(self, obj, exc):
        self.__dict__["obj"] = obj
        self.__dict__["exc"] = exc

    def __getattr__(self, name):
        return getattr(self.obj, name)

    def __setattr__(self, name, val):
        setattr(self.obj, name, val)

    def normal_coord(self, *args, **kwargs):
        raise self.exc


def run(plan):
    dig = core.Digest()
    counts, fired = {}, {}
    notes = set()
    nontrivial = False
    with simfs.SimFS() as fs, seams.LogTrap() as logs, seams.Steps(3000000):
        sess = ops.Session(plan, fs)
        ref = sess.ref
        nrec = len(ref.pairs) if sess.isdual else len(ref.recs)
        if nrec == 0 or sess.obj.records != nrec:
            return {"digest": "none", "nontrivial": False, "states": [],
                    "counts": {}}
        worlds = [sess]
        if "other" in plan:
            worlds.append(ops.Session(plan["other"], fs, "/vsim/o"))
            more = worlds[1].ref
            more = len(more.pairs) if worlds[1].isdual else len(more.recs)
            if more == 0 or worlds[1].obj.records != more:
                worlds.pop()
            else:
                nrec = min(nrec, more)
        for vec in plan["vecs"]:
            vec["ocb"] = [o % nrec for o in vec["ocb"]]
        args = ops.Args()
        now = [core.jround(v) for v in plan["vecs"]]
        objs = [vecs.make(v, args) for v in now]
        prev = ["new"] * len(now)
        rotated = [False] * len(now)
        done = 0
        for num, op in enumerate(plan["ops"]):
            kind, i = op["op"], op["v"] % len(now)
            vec, obj = now[i], objs[i]
            where = "op {:d} {:s} vector {:d} after {:s}".format(
                num, kind, i, prev[i])
            counts[kind] = counts.get(kind, 0) + 1
            if kind == "convert":
                # What was turned once stays as the first boundary's time told
                one = worlds[0 if vecs.turns(vec) else
                             op.get("on", 0) % len(worlds)]
                obj.set_ocb(one.obj, **vecs.trace(vec))
                usable = vecs.judge(one.ref, one.isdual, vec, obj, where,
                                    notes)
                twin = vecs.make(vec)
                twin.set_ocb(one.fresh(), **vecs.trace(vec))
                for name in ("ocb_n", "ocb_e", "ocb_z", "ocb_mag", "ocb_lat",
                             "ocb_mlt", "r_corr", "unscaled_r", "scaled_r",
                             "pole_angle"):
                    a, b = getattr(obj, name), getattr(twin, name)
                    if rotated[i] and vecs.turns(vec):
                        same = all(core.same_float(x, y, 1e-9, 1e-9) for x, y
                                   in zip(core.flat(a), core.flat(b)))
                    else:
                        same = core.exact(a, b)
                    check(same, "history-dependent", where, name, a, "new",
                          b)
                nontrivial |= any(usable) and done > 0
                done += 1
                rotated[i] = True
                dig.add(obj.ocb_n, obj.ocb_e, obj.ocb_z, obj.ocb_mag)
                for q, p in zip(core.flat(obj.ocb_quad),
                                core.flat(obj.vec_quad)):
                    dig.state(vec["shape"], vec["coord"],
                              vecs.vector_coord(vec), vec["scale"], q, p,
                              prev[i], one.isdual)
            elif kind == "clear":
                obj.clear_data()
            elif kind == "ocb_ind":
                if vec.get("given") or (vecs.turns(vec)
                                        and rotated[i]):
                    continue
                vec["ocb"] = [o % nrec for o in op["to"][:len(vec["ocb"])]]
                vec["ocb"] += [0] * (len(now[i]["ocb"]) - len(vec["ocb"]))
                dat, ocb = vecs.indices(vec)
                obj.ocb_ind = args.note("ocb_ind", ocb)
            elif kind == "dat_ind":
                vec["dat"] = (op["to"] + vec["dat"])[:len(vec["dat"])]
                obj.dat_ind = args.note("dat_ind", vecs.indices(vec)[0])
            elif kind == "comp":
                if vecs.turns(vec):
                    continue
                to = (op["to"] + [1.5] * 9)[:len(vec["dat"])]
                if vec.get("same") == op["name"]:
                    del vec["same"]
                vec["vals"][op["name"]] = to
                setattr(obj, "vect_" + op["name"],
                        to[0] if vec["shape"] in ("s", "o") else np.array(to))
                obj.vect_mag = np.nan
            elif kind == "move":
                if vecs.turns(vec) or vec.get("given"):
                    continue
                vec["vals"][op["name"]] = to = (
                    op["to"] + [hemi_lat(sess) if op["name"] == "lat" else 3.5]
                    * 9)[:len(vec["dat"])]
                setattr(obj, op["name"],
                        to[0] if vec["shape"] in ("s", "o") else np.array(to))
            elif kind == "query":
                sess.obj.rec_ind = num % nrec
                sess.obj.normal_coord(80.0 * sess.hemi, 6.0)
            elif kind == "show":
                str(obj), repr(obj)
            elif kind == "fail":
                exc = ValueError("no coordinates")
                try:
                    obj.set_ocb(BadBoundary(sess.obj, exc),
                                **vecs.trace(vec))
                except ValueError as err:
                    check(err is exc, "other-exception", where, err)
                    fired["failing_conversion"] = fired.get(
                        "failing_conversion", 0) + 1
                rotated[i] = True
            elif kind == "mag":
                total = [np.sqrt(sum(vec["vals"][c][j] ** 2 for c in "nez"))
                         for j in range(len(vec["dat"]))]
                got = core.flat(obj.vect_mag)
                if not vecs.turns(vec):
                    check(all(core.same_float(a, b, 1e-9, 1e-9) for a, b in
                              zip(got, total)), "input-magnitude", where, got,
                          total)
            args.verify(where)
            prev[i] = kind
        dig.add(sorted(notes), len(logs.lines))
    out = {"digest": dig.hex(), "nontrivial": nontrivial,
           "states": dig.states, "counts": counts, "fired": fired}
    if notes:
        out["late"] = (sorted(notes)[0], "southern vectors are rotated by the "
                       "angle of a pole in the other hemisphere")
    return out
