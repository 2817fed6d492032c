"""C03: dual-boundary pairing and coupling.

One dual boundary under a history of selections (some of which fail part way),
steps, cursor assignments, listings and queries.  After every step the pairs
are the model's and both underlying cursors are where the dual cursor says.
"""
import numpy as np

from dst import core, ops, seams, simfs, world
from dst.core import check

RUNS = {"quick": 8000, "thorough": 250000}
BATCH = 150
LEVEL = "exploration"
RULE = ("seeded pairs of record series (0-20 records each) and histories of "
        "3-12 operations; non-trivial if some acceptable open-closed records "
        "are paired and some are not")
STATE_MEASURE = ("distinct (operation, cursor position class, pairs, gap of "
                 "the current pair) tuples")
REAL = ["ocbpy.DualBoundary/OCBoundary/EABoundary",
        "ocbpy.match_data_ocb and retrieve_all_good_indices", "numpy"]
STUB = ["file system (in memory)", "ocbpy log handler (recorded)"]
ASSUMES = ["record times of each boundary strictly increase"]
SHRINK = ["ops", "dual.ocb.rows", "dual.eab.rows", "ops.*.sel.2",
          "ops.*.sel_e.2"]


def gen(rng, tier, index):
    n = rng.choice([0, 1, 2, 3, 5, 9, 20])
    dual = world.gen_dual(rng, n, rf=rng.random() < .2)
    plan = {"dual": dual, "ops": []}
    if rng.random() < .25 and dual["ocb"]["rows"] and dual["eab"]["rows"]:
        times = [world.stamp(r["t"]) for r in world.parse(dual["ocb"])]
        win = sorted(rng.choice(times) for _ in range(2))
        if rng.random() < .4:
            win[rng.randrange(2)] = None
        dual["ocb"]["win"] = dual["eab"]["win"] = win
        plan["names"] = rng.random() < .7
    elif rng.random() < .2:
        plan["names"] = True
    if plan.get("names"):
        dual["ocb"]["rf"] = dual["eab"]["rf"] = None
        if abs(dual["eab"]["blat"]) >= abs(dual["ocb"]["blat"]):
            plan["names"] = False
    for _ in range(rng.randint(3, 12)):
        kind = core.pick(rng, {"select": 3, "next": 4, "set": 4, "list": 1,
                               "normal": 1, "failsel": 1.5, "refuse": .4,
                               "edge": .5})
        if kind == "failsel":
            op = {"op": kind, "who": rng.choice(["ocb", "eab"]),
                  "at": rng.choice([0, 1, rng.randint(0, max(1, n))]),
                  "exc": rng.choice(["value", "interrupt"])}
        elif kind == "refuse":
            op = {"op": kind, "what": rng.choice(["hemi", "lat", "delta",
                                                  "delta0"])}
        elif kind == "set":
            op = {"op": kind, "k": rng.choice(
                [-1, -1, -2, 0, n - 1, n, n + 1, n + 7, rng.randint(-1, n)])}
        else:
            op = ops.gen_op(rng, plan, {kind: 1})
        plan["ops"].append(op)
    return plan


class Bomb:
    """A record attribute that cannot be read from the k-th access on."""

    def __init__(self, at, exc):
        self.left, self.exc = at, exc

    def __getitem__(self, i):
        self.left -= 1
        if self.left < 0:
            raise self.exc
        return 1.0


def coupled(sess, where):
    obj = sess.obj
    k, ko, ke = int(obj.rec_ind), int(obj.ocb.rec_ind), int(obj.eab.rec_ind)
    if k < 0:
        check(ko < 0 and ke < 0, "not-before-first", where, k, ko, ke)
    elif k >= obj.records:
        check(ko >= obj.ocb.records and ke >= obj.eab.records,
              "not-past-last", where, k, ko, ke, "of", obj.ocb.records,
              obj.eab.records)
    else:
        check((ko, ke) == (int(obj.ocb_ind[k]), int(obj.eab_ind[k])),
              "uncoupled", where, k, ko, ke, "pair", obj.ocb_ind[k],
              obj.eab_ind[k])
    return k


def paired(sess, where):
    obj, ref = sess.obj, sess.ref
    got = []
    if obj.ocb_ind is not None:
        got = [(int(a), int(b)) for a, b in zip(obj.ocb_ind, obj.eab_ind)]
        check(len(obj.ocb_ind) == len(obj.eab_ind) == len(obj.dtime)
              == obj.records, "pair-lengths", where, len(obj.ocb_ind),
              len(obj.eab_ind), len(obj.dtime), obj.records)
        check(list(obj.dtime) == ref.times or got != ref.pairs, "pair-times",
              where, list(obj.dtime)[:5])
    check(obj.records == len(got), "pair-records", where, obj.records)
    check(got == ref.pairs, "wrong-pairs", where, "got", got, "want",
          ref.pairs)


def build(plan, sess):
    """The same dual boundary, constructed from file names."""
    import ocbpy
    dual = plan["dual"]
    ocb, eab = dual["ocb"], dual["eab"]
    return ocbpy.DualBoundary(
        eab_filename=sess.names[1], ocb_filename=sess.names[0],
        eab_instrument=eab["inst"], ocb_instrument=ocb["inst"],
        hemisphere=ocb["hemi"], eab_lat=eab["blat"], ocb_lat=ocb["blat"],
        stime=world.when(ocb["win"][0]), etime=world.when(ocb["win"][1]),
        max_delta=dual["delta"])


def refuse(plan, sess, what):
    import ocbpy
    try:
        if what == "hemi":
            other = dict(plan["dual"]["eab"], hemi=-sess.hemi)
            ocbpy.DualBoundary(ocb=world.load(plan["dual"]["ocb"],
                                              sess.names[0]),
                               eab=world.load(other, sess.names[1]))
        elif what == "lat":
            ocbpy.DualBoundary(eab_filename=None, ocb_filename=None,
                               eab_lat=74.0, ocb_lat=-74.0)
        else:
            ocbpy.DualBoundary(eab_filename=None, ocb_filename=None,
                               max_delta=-1 if what == "delta" else 0)
    except ValueError:
        return
    check(False, "accepted-bad-input", what)


def run(plan):
    dig = core.Digest()
    counts, fired = {}, {}
    nontrivial = False
    with simfs.SimFS() as fs, seams.LogTrap(), seams.Steps(3000000):
        sess = ops.Session(plan, fs)
        if plan.get("names"):
            sess.obj = build(plan, sess)
        obj, ref = sess.obj, sess.ref
        paired(sess, "start")
        check(obj.rec_ind == 0, "first-cursor", obj.rec_ind)
        coupled(sess, "start")
        nontrivial = 0 < len(ref.pairs) < len(ref.ocb.good())
        empty = obj.dtime is None
        for num, op in enumerate(plan["ops"]):
            kind = op["op"]
            where = "op {:d} {:s}".format(num, str(op)[:200])
            counts[kind] = counts.get(kind, 0) + 1
            k = int(obj.rec_ind)
            args = ops.Args()
            if kind == "select":
                sess.do(op, args=args)
                if not empty:
                    lims = [(s[0], s[1], world.known(s[2], b.recs))
                            for s, b in ((op["sel"], ref.ocb),
                                         (op["sel_e"], ref.eab))]
                    ref.select(*lims)
                paired(sess, where)
                check(obj.rec_ind == 0, "not-at-first-pair", where,
                      obj.rec_ind)
                good = len(ref.ocb.good(*lims[0])) if not empty else 0
                nontrivial |= 0 < len(ref.pairs) < good
            elif kind == "next":
                sess.do(op, args=args)
                if k < len(ref.pairs):
                    check(obj.rec_ind == k + 1 or (
                        not ref.pairs and obj.rec_ind in (k, k + 1)),
                        "wrong-next", where, "from", k, "to", obj.rec_ind)
                else:
                    check(obj.rec_ind >= len(ref.pairs), "left-the-end",
                          where, "from", k, "to", obj.rec_ind)
            elif kind == "set":
                obj.rec_ind = op["k"]
                check(obj.rec_ind == op["k"], "cursor-not-set", where,
                      obj.rec_ind)
            elif kind == "failsel":
                one = getattr(obj, op["who"])
                exc = ValueError("no data") if op["exc"] == "value" \
                    else seams.SimInterrupt()
                one.bomb = Bomb(op["at"], exc)
                key = op["who"] + "_kwargs"
                raised = False
                try:
                    obj.set_good_ind(**{key: {"bomb": ("min", 0.0)}})
                except (ValueError, seams.SimInterrupt) as err:
                    check(err is exc, "other-exception", where, err)
                    raised = True
                    fired["failing_selection:" + op["who"]] = fired.get(
                        "failing_selection:" + op["who"], 0) + 1
                del one.bomb
                if not raised:
                    if not empty:
                        ref.select()
                elif obj.records != len(ref.pairs) or int(obj.rec_ind) != k:
                    check(False, "failed-selection-changed-pairs", where)
                paired(sess, where)
            elif kind == "refuse":
                refuse(plan, sess, op["what"])
            elif kind == "edge":
                if ref.pairs:
                    sess.do(op, args=args)
                check(obj.rec_ind == k, "query-moved-cursor", where)
            elif kind in ("list", "normal"):
                if kind == "normal" or not empty:
                    sess.do(op, args=args)
                check(obj.rec_ind == k, "query-moved-cursor", where)
            args.verify(where)
            now = coupled(sess, where)
            gap = None
            if 0 <= now < len(ref.pairs):
                o, e = ref.pairs[now]
                gap = abs((ref.ocb.recs[o]["t"]
                           - ref.eab.recs[e]["t"]).total_seconds())
            dig.add(kind, now, ref.pairs)
            dig.state(kind, gap, len(ref.pairs), now < 0, now >= len(
                ref.pairs))
    span = 0.0
    if len(ref.ocb.recs) > 1:
        span = (ref.ocb.recs[-1]["t"] - ref.ocb.recs[0]["t"]).total_seconds()
    return {"digest": dig.hex(), "nontrivial": nontrivial,
            "states": dig.states, "counts": counts, "fired": fired,
            "sim_s": span}


__all__ = ["np"]
