"""C02: time matching.

Each run walks one data series over one boundary (or boundary pair) object,
pausing, skipping ahead and querying in between, and compares every pair and
the end of the walk with the model's list of matchable data times.
"""
from dst import core, model, ops, seams, simfs, world
from dst.core import check

RUNS = {"quick": 20000, "thorough": 300000}
BATCH = 150
LEVEL = "exploration"
RULE = ("seeded record times (0-30 records), data times (0-25), tolerance, "
        "limits and walk; non-trivial if some data times are matchable and "
        "some are not")
STATE_MEASURE = ("distinct (gap to the matched record, tolerance, records "
                 "skipped, kind of walk step) tuples")
REAL = ["ocbpy.match_data_ocb", "ocbpy.OCBoundary/EABoundary/DualBoundary",
        "numpy"]
STUB = ["file system (in memory)", "ocbpy log handler (recorded)"]
SHRINK = ["data", "skips", "series.rows", "dual.ocb.rows", "dual.eab.rows",
          "sel.2"]


def gen(rng, tier, index):
    n = rng.choice([0, 1, 2, 3, 5, 8, 14, 30])
    if rng.random() < .35:
        dual = world.gen_dual(rng, n, rf=False)
        plan = {"dual": dual}
        ser = dual["ocb"]
    else:
        ser = world.gen_series(rng, n, bound=rng.choice(["ocb", "ocb", "eab"]),
                               rf=False)
        plan = {"series": ser}
    times = [r["t"] for r in world.parse(ser)]
    data = world.gen_data_times(rng, times, rng.choice([0, 1, 3, 8, 15, 25]),
                                bases=rng.choice(world.BASES))
    plan["data"] = [world.stamp(t) for t in data]
    plan["tol"] = rng.choice([60, 60, 600, 600, 0, 1, 0.5, 59, 61, 30.25, 120,
                              3600, 10 ** 8])
    plan["sel"] = world.gen_select(rng, ser) if rng.random() < .5 \
        else [None, None, []]
    plan["walk"] = rng.choice(["step", "step", "pause", "skip"])
    plan["skips"] = [rng.choice([1, 1, 1, 2, 3, 5]) for _ in range(8)]
    plan["array"] = rng.random() < .5
    return plan


def run(plan):
    import numpy as np
    import ocbpy
    dig = core.Digest()
    counts = {}
    data = [world.when(t) for t in plan["data"]]
    given = np.array(data) if plan["array"] else data
    lo, hi, crit = plan["sel"]
    with simfs.SimFS() as fs, seams.LogTrap(), seams.Steps(3000000):
        sess = ops.Session(plan, fs)
        obj, ref = sess.obj, sess.ref
        if sess.isdual:
            # A pair set that is empty when loaded ends every walk at once
            if (lo is not None or hi is not None or crit) and ref.pairs:
                ref.select((lo, hi, world.known(crit, ref.ocb.recs)),
                           (lo, hi, world.known(crit, ref.eab.recs)))
            times, good = ref.times, range(len(ref.times))
        else:
            times = [r["t"] for r in ref.recs]
            good = ref.good(lo, hi, world.known(crit, ref.recs))
        want = dict(model.match(times, list(good), data, plan["tol"]))
        kwargs = world.crit_kwargs(crit)
        skips = list(plan["skips"]) or [1]
        got = {}
        idat = 0
        calls = 0
        steps = 0
        while idat is not None and idat < len(data) \
                and obj.rec_ind < obj.records:
            asked = idat
            kws = world.without_defaults(
                calls % 2, dict(kwargs, idat=asked, max_tol=plan["tol"],
                                min_merit=lo, max_merit=hi), idat=0,
                max_tol=60, min_merit=None, max_merit=None)
            idat = ocbpy.match_data_ocb(obj, given, **kws)
            calls += 1
            check(calls <= 2 * len(data) + 5, "walk-does-not-advance", asked,
                  idat)
            due = [j for j in sorted(want) if j >= asked]
            if idat is None or idat >= len(data) or obj.rec_ind >= obj.records:
                check(not due, "missed", "from data", asked, "left", due[:3],
                      "records", [want[j] for j in due[:3]])
                break
            check(idat >= asked, "walk-went-back", asked, idat)
            rec = int(obj.rec_ind)
            tag = "data {:d} ({:}) tolerance {:}".format(idat, data[idat],
                                                         plan["tol"])
            check(idat in want, "pair-not-allowed", tag, "record", rec,
                  times[rec] if 0 <= rec < len(times) else None)
            check(rec == want[idat], "wrong-record", tag, "got", rec, "want",
                  want[idat])
            check(due and due[0] == idat, "skipped-data", tag, "expected",
                  due[:1])
            if sess.isdual:
                oind, eind = ref.pairs[rec]
                check((int(obj.ocb.rec_ind), int(obj.eab.rec_ind))
                      == (oind, eind), "pair-records", tag,
                      int(obj.ocb.rec_ind), int(obj.eab.rec_ind), "want",
                      oind, eind)
            got[idat] = rec
            gap = (times[rec] - data[idat]).total_seconds()
            dig.state(gap, plan["tol"], rec, plan["walk"])
            dig.add(idat, rec)
            steps += 1
            if plan["walk"] == "skip":
                idat += skips[steps % len(skips)]
            elif plan["walk"] == "pause" and steps % 2:
                obj.normal_coord(80.0 * obj.hemisphere, 3.0)
                # Asking again for the same observation gives the same pair
                again = ocbpy.match_data_ocb(
                    obj, given, idat=idat, max_tol=plan["tol"], min_merit=lo,
                    max_merit=hi, **kwargs)
                check(again == idat and int(obj.rec_ind) == rec, "not-resumed",
                      tag, again, int(obj.rec_ind))
                idat += 1
            else:
                idat += 1
        if plan["walk"] != "skip":
            check(got == want, "pairs", "got", got, "want", want)
        counts["calls"] = calls
        counts["pairs"] = len(got)
        check(given is data or list(given) == data, "data-changed")
    span = (data[-1] - data[0]).total_seconds() if data else 0.0
    return {"digest": dig.hex(), "nontrivial": 0 < len(want) < len(data),
            "states": dig.states, "counts": counts, "sim_s": span}
