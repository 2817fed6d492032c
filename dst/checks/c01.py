"""C01: quality cycling.

One loaded boundary, a history of cursor moves, next/list calls with seeded
limits and criteria, other queries in between, and calls that fail part way
(a criterion attribute that raises at its k-th access).  After each step the
cursor and any list are compared with the model.
"""
from dst import core, seams, simfs, world
from dst.core import check

RUNS = {"quick": 15000, "thorough": 150000}
BATCH = 100
LEVEL = "exploration"
RULE = ("seeded boundary files (0-40 records, three layouts) and histories of "
        "4-25 cursor operations; a run is non-trivial if at least one next or "
        "list call met both an acceptable and an unacceptable record")
STATE_MEASURE = "distinct (cursor, records, operation, chosen limits) tuples"
REAL = ["ocbpy.OCBoundary/EABoundary (load, get_next_good_ocb_ind)",
        "ocbpy.cycle_boundary.retrieve_all_good_indices", "numpy"]
STUB = ["file system (in memory)", "ocbpy log handler (recorded)"]
ASSUMES = ["criteria are evaluated on attributes without NaN values"]
SHRINK = ["ops", "series.rows", "ops.*.sel.2"]


def gen(rng, tier, index):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 15, 40])
    series = world.gen_series(rng, n, bound=rng.choice(["ocb", "ocb", "eab"]))
    if n > 2 and rng.random() < .2:
        times = [world.stamp(r["t"]) for r in world.parse(series)]
        series["win"] = [rng.choice([None] + times), None]
    ops = []
    for _ in range(rng.randint(4, 25)):
        kind = core.pick(rng, {"next": 5, "list": 3, "set": 2, "bomb": 1.2,
                               "coord": .8, "edge": .4})
        op = {"op": kind}
        if kind in ("next", "list"):
            op["sel"] = world.gen_select(rng, series)
        elif kind == "set":
            op["k"] = rng.choice([-1, -1, 0, n - 1, n, n + 1, n + 5,
                                  rng.randint(-1, n)])
            op["k"] = max(-1, op["k"])
        elif kind == "bomb":
            op["how"] = rng.choice(["list", "list", "next"])
            op["at"] = rng.choice([0, 1, rng.randint(0, max(1, n))])
            op["exc"] = rng.choice(["value", "interrupt", "bad"])
        ops.append(op)
    return {"series": series, "ops": ops}


class Bomb:
    """A record attribute that cannot be read from the k-th access on."""

    def __init__(self, at, exc):
        self.left, self.exc = at, exc

    def __getitem__(self, i):
        self.left -= 1
        if self.left < 0:
            raise self.exc
        return 1.0


def run(plan):
    import ocbpy
    from ocbpy import cycle_boundary
    series = plan["series"]
    dig = core.Digest()
    fired = {}
    counts = {}
    nontrivial = False
    with simfs.SimFS({"/vsim/b.dat": world.text(series)}) as fs, \
            seams.LogTrap() as logs, seams.Steps(200000):
        ref = world.build_model(series)
        empty = not series["rows"]
        obj = world.load(series, "/vsim/b.dat")
        n = len(ref.recs)
        check(obj.records == n, "records", obj.records, n)
        if n == 0 and obj.dtime is None:
            cur = obj.rec_ind
        else:
            cur = -1
            check(obj.rec_ind == -1, "first-cursor", obj.rec_ind)
        for num, op in enumerate(plan["ops"]):
            kind = op["op"]
            counts[kind] = counts.get(kind, 0) + 1
            where = "op {:d} {:s} cursor {:}".format(num, kind, cur)
            before = len(logs.lines)
            if kind == "set":
                obj.rec_ind = cur = op["k"]
            elif kind in ("next", "list"):
                lo, hi, crit = op["sel"]
                use = world.known(crit, ref.recs)
                good = ref.good(lo, hi, use)
                nontrivial |= 0 < len(good) < n
                kwargs = world.crit_kwargs(crit)
                if n == 0:
                    kwargs = {}
                given = dict(kwargs)
                if kind == "next":
                    obj.get_next_good_ocb_ind(min_merit=lo, max_merit=hi,
                                              **kwargs)
                    later = [i for i in good if i > cur]
                    if later:
                        check(obj.rec_ind == later[0], "wrong-next", where,
                              "got", obj.rec_ind, "want", later[0])
                        cur = later[0]
                    else:
                        check(obj.rec_ind >= n, "next-not-past-end", where,
                              "got", obj.rec_ind, "records", n)
                        cur = obj.rec_ind
                else:
                    got = cycle_boundary.retrieve_all_good_indices(
                        obj, min_merit=lo, max_merit=hi, **kwargs)
                    check([int(i) for i in got] == good, "wrong-list", where,
                          "got", list(got), "want", good)
                    check(obj.rec_ind == cur, "list-moved-cursor", where,
                          "to", obj.rec_ind)
                    dig.add(list(map(int, got)))
                check(kwargs == given, "criteria-changed", where)
            elif kind == "bomb" and n > 0:
                exc = {"value": ValueError("no data"),
                       "interrupt": seams.SimInterrupt(),
                       "bad": TypeError("bad")}[op["exc"]]
                obj.bomb = Bomb(op["at"], exc)
                raised = None
                try:
                    if op["how"] == "list":
                        cycle_boundary.retrieve_all_good_indices(
                            obj, bomb=("min", 0.0))
                    else:
                        obj.get_next_good_ocb_ind(bomb=("min", 0.0))
                except (ValueError, TypeError, seams.SimInterrupt) as err:
                    raised = err
                del obj.bomb
                if raised is not None:
                    check(raised is exc, "other-exception", where, raised)
                    key = "criterion_error:" + op["how"]
                    fired[key] = fired.get(key, 0) + 1
                if op["how"] == "list":
                    check(obj.rec_ind == cur, "failed-list-moved-cursor",
                          where, "to", obj.rec_ind)
                else:
                    obj.rec_ind = cur
            elif kind == "coord":
                obj.normal_coord(80.0 * series["hemi"], 6.0)
                check(obj.rec_ind == cur, "query-moved-cursor", where)
            elif kind == "edge" and n > 0:
                obj.get_aacgm_boundary_lat([1.0, 2.0], overwrite=True)
                check(obj.rec_ind == cur, "query-moved-cursor", where)
            dig.add(kind, int(obj.rec_ind), len(logs.lines) - before)
            dig.state(cur, n, kind, op.get("sel", []))
        check(not fs.escapes, "escape", fs.escapes)
        assert isinstance(obj, ocbpy.OCBoundary) or empty
    span = 0.0
    if len(ref.recs) > 1:
        span = abs((ref.recs[-1]["t"] - ref.recs[0]["t"]).total_seconds())
    return {"digest": dig.hex(), "nontrivial": nontrivial,
            "states": dig.states, "fired": fired, "counts": counts,
            "sim_s": span}
