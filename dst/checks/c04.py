"""C04: coordinate queries are functions of the record and the query.

A history of queries, cursor moves, boundary-location requests, selections and
failing calls on one boundary (or pair).  Every coordinate result is compared
with the documented formulas, element by element, and exactly with a freshly
loaded object that is asked only this; every stored boundary location must be
the boundary of its record.
"""
import numpy as np

from dst import core, judge, ops, seams, simfs, world
from dst.core import check

RUNS = {"quick": 12000, "thorough": 150000}
BATCH = 80
LEVEL = "exploration"
RULE = ("seeded boundaries (single or dual) and histories of 3-14 operations; "
        "non-trivial if a coordinate query on a record came after another "
        "query, boundary-location request or failed call")
STATE_MEASURE = ("distinct (operation, argument kind and shape, coordinates, "
                 "previous operation, cursor position class) tuples")
REAL = ["ocbpy.OCBoundary/EABoundary/DualBoundary", "ocbpy.ocb_correction",
        "ocbpy.ocb_time", "aacgmv2", "numpy"]
STUB = ["file system (in memory)", "ocbpy log handler (recorded)",
        "numpy memory allocator (seeded contents)"]
ASSUMES = ["aacgmv2 conversions are taken from the library itself"]
SHRINK = ["ops", "series.rows", "dual.ocb.rows", "dual.eab.rows"]
KINDS = {"normal": 5, "round": 3, "revert": 4, "edge": 2.5, "set": 4,
         "next": 1, "bad": 1, "list": .3, "show": .2}


def gen(rng, tier, index):
    wild = rng.choice([0, 0, 0, .4])
    n = rng.choice([1, 1, 2, 3, 5, 0])
    if rng.random() < .5:
        plan = {"dual": world.gen_dual(rng, n, wild=wild)}
        kinds = dict(KINDS, radii=1.5, select=.6)
        del kinds["list"]
    else:
        plan = {"series": world.gen_series(
            rng, n, bound=rng.choice(["ocb", "ocb", "eab"]), wild=wild)}
        kinds = KINDS
    plan["ops"] = [{"op": "set", "k": rng.randint(0, max(0, n - 1))}]
    plan["ops"] += [ops.gen_op(rng, plan, kinds)
                    for _ in range(rng.randint(3, 14))]
    plan["memseed"] = rng.getrandbits(30)
    return plan


def run(plan):
    dig = core.Digest()
    counts, fired = {}, {}
    nontrivial = False
    prev = "start"
    with simfs.SimFS() as fs, seams.LogTrap(), seams.Steps(3000000):
        sess = ops.Session(plan, fs)
        last_select = None
        for op in plan["ops"]:
            kind = op["op"]
            counts[kind] = counts.get(kind, 0) + 1
            if sess.isdual:
                sync(sess)
                if kind == "edge" and not sess.ref.pairs:
                    continue
                if kind == "select" and (sess.obj.dtime is None):
                    continue
            elif kind == "edge" and not sess.ref.recs:
                continue
            if kind in ("next", "list") and not (
                    sess.isdual or sess.ref.recs):
                continue
            before = judge.stored(sess)
            try:
                res = sess.do(op)
            except ValueError as err:
                check(may_fail(sess, op), "refused", op, err)
                res = ["ValueError"]
                check(judge_same(before, judge.stored(sess)),
                      "failed-query-stored", op)
                prev = kind
                continue
            if kind == "select":
                last_select = op
            if sess.isdual:
                sync(sess)
            if kind == "edge":
                judge.judge_edge(sess, op, res, before)
            elif kind in ("normal", "round", "revert", "radii"):
                check(not must_fail(sess, op), "not-refused", op)
                judge.judge(sess, op, res)
                judge.judge_kept(sess, op, res, before)
                other = sess.fresh()
                if last_select is not None:
                    sess.do(last_select, other)
                other.rec_ind = sess.cursor
                # Some failing calls are documented to raise; not these
                again = sess.do(op, other)
                check(core.exact(res, again), "history-dependent", op,
                      "cursor", sess.cursor, "got", res, "fresh object",
                      again)
                judge.judge_stored(sess, str(op))
                nontrivial |= prev in ("normal", "round", "revert", "edge",
                                       "radii", "bad") \
                    and judge.current(sess) is not None
            if kind == "bad":
                fired["failing_call:" + op["what"]] = fired.get(
                    "failing_call:" + op["what"], 0) + 1
            dig.add(kind, res)
            dig.state(kind, op.get("coords"), op.get("lat", {}).get("k"),
                      str(np.shape(op.get("lat", {}).get("v"))), prev,
                      judge.current(sess) is None, sess.isdual)
            prev = kind
    return {"digest": dig.hex(), "nontrivial": nontrivial,
            "states": dig.states, "counts": counts, "fired": fired}


def sync(sess):
    """Follow the real pairing (which C03 checks)."""
    obj = sess.obj
    if obj.records:
        sess.ref.pairs = [(int(a), int(b)) for a, b in
                          zip(obj.ocb_ind, obj.eab_ind)]
        sess.ref.times = list(obj.dtime)
    else:
        sess.ref.pairs, sess.ref.times = [], []


def must_fail(sess, op):
    """Dual latitudes outside the polar cap cannot be reverted without MLT."""
    if not sess.isdual or op["op"] != "revert" or "amlt" in op \
            or op["is_ocb"] or judge.current(sess) is None:
        return False
    return not all(abs(x) >= abs(sess.ref.ocb.blat)
                   for x in core.flat(op["lat"]["v"]))


def may_fail(sess, op):
    """aacgmv2 refuses to convert latitudes beyond the other pole."""
    if must_fail(sess, op):
        return True
    k = judge.current(sess)
    if op["op"] not in ("revert", "round") or k is None \
            or not judge.is_geo(op):
        return False
    if op["op"] == "round":
        return True
    base, rec = judge.base_model(sess, k)
    (lats, lts, cors, _), _ = judge.points(
        dict(op, cor=op.get("cor", {"v": 0.0})), "lat", "lt", "cor")
    return any(abs(base.revert(rec, *p)[0]) > 89.99
               for p in zip(lats, lts, cors))


def judge_same(a, b):
    return core.canon({str(k): v[:2] for k, v in a.items()}) == core.canon(
        {str(k): v[:2] for k, v in b.items()})
