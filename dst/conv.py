"""Shared body of C08 and C09: conversions of observation files.

A conversion runs without faults and is judged against the model; then again
with fresh objects under I/O faults, crashes, a full disk, interrupts or
failing allocations, and once more on whatever that left behind.
"""
import datetime as dt
import math

from dst import core, faults, model, obs, ops, seams, simfs, vecs, world
from dst.core import check, same_float

NAN = float("nan")
KINDS = {"errno": 5, "crash": 4, "short_read": 1, "short_write": 2,
         "torn_then_enospc": 2, "vanish": .5}
IN, OUT, BOUND = "/vsim/in/data.txt", "/vsim/out/result.txt", "/vsim/b.txt"
OLD = "#an older file\n2000-01-01 00:00:00 1 2 3\n"


def gen(rng, kind):
    n = rng.choice([0, 1, 2, 3, 5, 8, 14])
    plan = {"kind": kind}
    mode = core.pick(rng, {"one": 5, "dual": 3, "file": 2})
    if mode == "dual":
        plan["dual"] = world.gen_dual(rng, max(n, 1))
        ser = plan["dual"]["ocb"]
    else:
        ser = plan["series"] = world.gen_series(
            rng, n if mode == "one" else max(n, 1),
            rf=mode == "one")
        if mode == "file":
            ser["blat"] = 74.0
    plan["mode"] = mode
    hemi = ser["hemi"]
    plan["hemi"] = rng.choice([0, hemi])
    times = [r["t"] for r in world.parse(ser)]
    if kind == "vort":
        # Whole seconds of day survive in the decimal hours of the file
        times = [t for t in times]
    data = world.gen_data_times(
        rng, times, rng.choice([0, 1, 1, 3, 6, 12]), ties=rng.random() < .3,
        bases=rng.choice(world.BASES))
    data = [t.replace(microsecond=0) for t in data]
    mix = 0 if rng.random() < .3 and plan["hemi"] else hemi
    if kind == "smag":
        plan["obs"] = obs.gen_smag(rng, data, mix, rng.choice([1, 2, 4]))
    else:
        plan["obs"] = obs.gen_vort(rng, data, mix, rng.choice([1, 2, 4]))
        plan["save_all"] = rng.random() < .4
        if rng.random() < .1:
            # Unknown values of an observation
            for block in plan["obs"]["blocks"]:
                for entry in block["st"]:
                    if rng.random() < .3:
                        entry[rng.choice([0, 2])][rng.choice([5, 6, 1]) if 0
                                                  else 5] = "nan"
    plan["tol"] = rng.choice([600, 600, 60, 60, 0, 1, 61, 3600, 86400])
    plan["sel"] = world.gen_select(rng, ser) if rng.random() < .3 \
        else [None, None, []]
    plan["scale"] = rng.choice(["curl", "curl", "evar", None, "default"])
    plan["max_read"] = rng.choice([0, 0, 0, 0, 64, 4096])
    plan["block"] = rng.choice([0, 0, 32, 100, 300])
    plan["old"] = rng.random() < .4
    plan["trouble"] = gen_trouble(rng)
    plan["memseed"] = rng.getrandbits(30)
    return plan


def gen_trouble(rng):
    how = core.pick(rng, {"none": 2, "io": 6, "full": 1.5, "line": 2,
                          "memory": 1, "path": .4})
    if how == "io":
        return {"how": how, "faults": faults.gen(rng, KINDS, 2)}
    if how == "full":
        return {"how": how, "room": rng.random()}
    if how == "path":
        return {"how": how, "what": rng.choice(["indir", "outdir", "missing",
                                                "notstr"])}
    return {"how": how, "at": rng.random()}


# ------------------------------------------------------------------- the call
def convert(plan, bound, infile=IN, outfile=OUT, boundfile=BOUND):
    from ocbpy.instruments import supermag, vort
    lo, hi, crit = plan["sel"]
    kws = world.crit_kwargs(crit)
    kws.update(hemisphere=plan["hemi"], max_sdiff=plan["tol"], min_merit=lo,
               max_merit=hi)
    if plan["scale"] != "default":
        kws["scale_func"] = vecs.scale_func(plan["scale"])
    world.without_defaults(plan.get("memseed", 0) % 2, kws, hemisphere=0, max_sdiff=600,
                           min_merit=None, max_merit=None)
    if plan["mode"] == "file":
        kws.update(ocbfile=boundfile, instrument=plan["series"]["inst"])
    else:
        kws["ocb"] = bound
    if plan["kind"] == "smag":
        return supermag.supermag2ascii_ocb(infile, outfile, **kws)
    kws["save_all"] = plan["save_all"]
    return vort.vort2ascii_ocb(infile, outfile, **kws)


# ------------------------------------------------------------------- the model
class Answer:
    """What one conversion should do: error, silence or lines."""

    def __init__(self, plan, recs):
        self.plan = plan
        self.error = self.silent = False
        self.lines = []
        self.maybe = False
        self.recs = recs
        kind = plan["kind"]
        lat = "MLAT" if kind == "smag" else "CENTRE_MLAT"
        if kind == "vort" and not recs:
            self.error = True
            return
        hemi = plan["hemi"]
        if plan["mode"] == "file":
            if not recs:
                self.error = True
                return
            lats = [r[lat] for r in recs if r[lat] == r[lat]]
            if hemi == 0:
                if not lats:
                    self.maybe = True
                    return
                hemi = model.sgn(max(lats))
                if hemi == 0:
                    hemi = model.sgn(min(lats))
                elif hemi != model.sgn(min(lats)):
                    self.error = True
                    return
                if hemi == 0:
                    self.maybe = True
                    return
            ser = dict(plan["series"], hemi=hemi)
            pad = dt.timedelta(seconds=plan["tol"] + 1)
            ser["win"] = [world.stamp(recs[0]["DATETIME"] - pad),
                          world.stamp(recs[-1]["DATETIME"] + pad)]
            self.ref = world.build_model(ser)
            self.isdual = False
        else:
            self.isdual = plan["mode"] == "dual"
            self.ref = world.build_dual_model(plan["dual"]) if self.isdual \
                else world.build_model(plan["series"])
            hemi = self.ref.hemi if hemi == 0 else hemi
        ref = self.ref
        self.hemi = hemi
        if (not ref.pairs) if self.isdual else (not ref.recs):
            self.silent = True
            return
        if kind == "smag":
            use = [r for r in recs if all(
                math.isfinite(r[k]) for k in ("MLT", "MLAT", "BE", "BN", "BZ"))
                and model.sgn(r["MLAT"]) == hemi]
        else:
            use = [r for r in recs if model.sgn(r[lat]) == hemi]
            if not use:
                self.silent = True
                return
        lo, hi, crit = plan["sel"]
        if self.isdual:
            if lo is not None or hi is not None or crit:
                ref.select((lo, hi, world.known(crit, ref.ocb.recs)),
                           (lo, hi, world.known(crit, ref.eab.recs)))
            times, good = ref.times, list(range(len(ref.times)))
        else:
            times = [r["t"] for r in ref.recs]
            good = ref.good(lo, hi, world.known(crit, ref.recs))
        when = [r["DATETIME"] for r in use]
        for j, rec in model.match(times, good, when, plan["tol"]):
            num = sum(1 for t in when if t == when[j])
            self.lines.append((use[j], rec, num))


def scale_name(plan):
    return "curl" if plan["scale"] == "default" else plan["scale"]


def head_of(plan):
    if plan["kind"] == "smag":
        return ("#DATE TIME NST STID SML SMU SZA MLAT MLT BMAG BN BE BZ "
                "OCB_MLAT OCB_MLT OCB_BMAG OCB_BN OCB_BE OCB_BZ")
    keys = ""
    if plan["save_all"]:
        keys = " " + " ".join(k for k in obs.VALL if k != "DATETIME")
    return "#DATE TIME{:s} OCB_LAT OCB_MLT NORM_VORT".format(keys)


def near(tok, want, digits, slack=1e-6):
    """Whether a printed number is a value rounded to so many digits."""
    got = float(tok)
    if got != got or want != want:
        return got != got and want != want
    if len(tok.split(".")[-1]) != digits:
        return False
    return abs(got - want) <= .50001 * 10.0 ** -digits + slack * (
        1.0 + abs(want))


def near_place(plan, toks, want, where, hemi, digits, eps=1.0):
    lat, mlt = float(toks[0]), float(toks[1])
    if eps < 1e-6:
        return
    ok = near(toks[0], want[0], 2)
    if ok and want[0] == want[0]:
        off = abs(mlt - want[1]) % 24.0
        off = min(off, 24.0 - off)
        # Directions lose their meaning towards the pole
        room = .50001 * 10.0 ** -digits + 1e-6 / max(
            1e-9, 90.0 - abs(want[0]))
        ok = off <= room and 0.0 <= mlt <= 24.0
    check(ok, "location", where, toks, "want", want, lat, mlt)


def judge(plan, ans, text, notes):
    lines = text.split("\n")
    check(lines[-1] == "", "no-newline", lines[-1])
    lines.pop()
    head = head_of(plan)
    check(lines and lines[0].split() == head.split(), "header", lines[:1])
    got = lines[1:]
    for num, (line, item) in enumerate(zip(got, ans.lines)):
        where = "line {:d}: {:s}".format(num + 1, line[:300])
        judge_line(plan, ans, line.split(), item, where, notes)
    check(len(got) == len(ans.lines), "line-count", len(got), "want",
          len(ans.lines), "after", got[-1:])


def judge_line(plan, ans, toks, item, where, notes):
    rec, k, num = item
    ref = ans.ref
    check(toks[:2] == str(rec["DATETIME"]).split(), "time", where, "want",
          rec["DATETIME"])
    if plan["kind"] == "vort":
        at = 2
        if plan["save_all"]:
            keys = [x for x in obs.VALL if x != "DATETIME"]
            want = [repr(rec[x]) for x in keys]
            at += len(keys)
            check([_num(t) for t in toks[2:at]] == [_num(t) for t in want],
                  "input-values", where, want)
        check(len(toks) == at + 3, "columns", where)
        lat, lt = rec["CENTRE_MLAT"], rec["MLT"]
        if ans.isdual:
            olat, omlt, _, corr, eps = ref.normal(k, lat, lt)
            base, r = ref.ocb, ref.pairs[k][0]
        else:
            olat, omlt, corr = ref.normal(k, lat, lt)
            base, r, eps = ref, k, 1.0
        near_place(plan, toks[at:at + 2], (olat, omlt), where, ans.hemi, 6,
                   eps)
        ref_r = 90.0 - abs(base.blat)
        fun = vecs.SCALES[scale_name(plan)]
        want = fun(rec["VORTICITY"], base.recs[r]["r"] + corr, ref_r)
        if not near(toks[at + 2], want, 6, 1e-9) and ans.isdual:
            other = fun(rec["VORTICITY"], base.recs[k]["r"] + corr, ref_r)
            if near(toks[at + 2], other, 6, 1e-9):
                notes.add("dual-radius-record")
                return
        check(near(toks[at + 2], want, 6, 1e-9), "vorticity", where, "want",
              want)
        return
    want = [str(num), rec["STID"], str(rec["SML"]), str(rec["SMU"])]
    want += ["{:.2f}".format(rec[x]) for x in ("SZA", "MLAT", "MLT")]
    check(toks[2:9] == want, "input-values", where, "want", want)
    check(len(toks) == 19, "columns", where)
    vec = {"shape": "s", "coord": "magnetic", "ocb": [k], "dat": [0],
           "scale": scale_name(plan),
           "vals": {"lat": [rec["MLAT"]], "lt": [rec["MLT"]],
                    "n": [rec["BN"]], "e": [rec["BE"]], "z": [rec["BZ"]]}}
    mag = math.sqrt(rec["BN"] ** 2 + rec["BE"] ** 2 + rec["BZ"] ** 2)
    check(near(toks[9], mag, 2), "input-magnitude", where, mag)
    check(toks[10:13] == ["{:.2f}".format(rec[x]) for x in
                          ("BN", "BE", "BZ")], "input-values", where)
    out = vecs.expect(ref, ans.isdual, vec, 0, k)
    if out is None:
        notes.add("")
        return
    eps = ref.normal(k, rec["MLAT"], rec["MLT"])[4] if ans.isdual else 1.0
    near_place(plan, toks[13:15], (out["olat"], out["omlt"]), where, ans.hemi,
               2, eps)
    if eps < 1e-6 or out["n"] != out["n"]:
        if out["n"] != out["n"] and eps >= 1e-6:
            flat = rec["BN"] == 0.0 and rec["BE"] == 0.0
            check(flat or all(t == "nan" for t in toks[15:18]), "not-nan",
                  where)
        return
    check(near(toks[18], out["z"], 2), "vector", where, "want", out)
    total = math.sqrt(sum(out[x] ** 2 for x in "nez"))
    check(near(toks[15], total, 2, 2e-6), "magnitude", where, "want", total)
    pair = (out["n"], out["e"])
    size = math.hypot(*pair) + 1.0
    good = any(all(same_float(float(t), w, 0, .00501 + 2e-6 * size)
                   for t, w in zip(toks[16:18], cand))
               for cand in (pair, out.get("south", pair)))
    check(good, "vector", where, "want", out)


def _num(tok):
    try:
        x = float(tok)
    except ValueError:
        return tok
    return "nan" if x != x else x


# --------------------------------------------------------------------- one run
def run(plan):
    dig = core.Digest()
    counts, fired = {}, {}
    notes = set()
    kind = plan["kind"]
    if kind == "vort":
        # A file's times rise: keep decimal hours in order
        plan["obs"]["blocks"].sort(key=lambda b: (b["t"], float(b["uth"])))
    else:
        plan["obs"]["blocks"].sort(key=lambda b: b["t"])
    text = obs.smag_text(plan["obs"]) if kind == "smag" else obs.vort_text(
        plan["obs"])
    text = text or "\n"
    if kind == "smag":
        recs = obs.parse_smag(text)[1]
    else:
        status, recs = obs.parse_vort(text, plan["save_all"])
        if not recs:
            text = "# nothing\n"
    ans = Answer(plan, recs)
    if ans.maybe:
        return {"digest": "maybe", "nontrivial": False, "states": [],
                "counts": {}}
    trouble = plan["trouble"]
    with simfs.SimFS({IN: text}, max_read=plan["max_read"],
                     block=plan["block"]) as fs, \
            seams.LogTrap() as logs:
        fs.mkdirs("/vsim/out")
        if plan["mode"] == "file":
            fs.put(BOUND, world.text(plan["series"]))

            def bound():
                return None
        else:
            sess = ops.Session({k: plan[k] for k in ("series", "dual")
                                if k in plan}, fs)

            def bound():
                return sess.fresh()
        # -------------------------------------------------- without faults
        dest = {}
        fs.events = 0
        made = bound()
        fs.events = 0
        first = attempt(plan, made, "plain", seams.Steps(8000000))
        events, lines = fs.events, first["lines"]
        full = fs.get(OUT)
        settle(ans, first, full, logs, "plain", None)
        if full is not None:
            judge(plan, ans, full.decode(), notes)
        faults.closed(fs, "plain")
        keep_in = {p: d for p, d in fs.snapshot().items() if p != OUT}
        check(fs.get(IN) == text.encode(), "input-changed", "plain")
        counts["conversions"] = 1
        counts["lines"] = len(ans.lines)
        dig.add(full)
        dig.state(kind, plan["mode"], plan["scale"], min(3, len(ans.lines)),
                  ans.error, ans.silent, len(recs) > len(ans.lines))
        hit = False
        # ----------------------------------------------------- with trouble
        if trouble["how"] != "none":
            if plan["old"]:
                fs.put(OUT, OLD)
            else:
                fs.nodes.pop(OUT, None)
            before = fs.get(OUT)
            made = bound()
            where = "trouble {:}".format(trouble)
            del logs.lines[:]
            second = with_trouble(plan, trouble, made, fs, events, lines,
                                  text, full, dest)
            got = fs.get(OUT)
            hit = second["hit"]
            if second["crash"]:
                fs.revive()
            elif trouble["how"] == "line":
                # May fall between opening a file and guarding it
                fs.handles.clear()
                del fs.leaks[:]
                check(not fs.escapes, "escaped", where, fs.escapes)
            else:
                faults.closed(fs, where)
            faults.tally(fs, fired)
            if second["extra"]:
                fired[second["extra"]] = fired.get(second["extra"], 0) + 1
            gone = any(k.startswith("vanish") for k in fs.fired)
            fs.faults, fs.capacity = [], None
            if second["error"] is None:
                check(not second["must_fail"] or ans.silent or (
                    plan["mode"] == "file" and len(logs.warnings()) > 0),
                    "fault-ignored", where, dict(fs.fired))
                if not gone and not (plan["mode"] == "file" and fs.fired
                                     and logs.warnings()):
                    want = before if full is None else full
                    check(got == want, "incomplete-unreported", where, got,
                          "want", full)
                elif not gone and got != full:
                    check(got == before, "incomplete-unreported", where, got)
            else:
                check(hit or ans.error, "failed-without-fault", where,
                      second["error"])
                ok = got == before or (got is None and gone) or (
                    got is not None and full is not None
                    and full.startswith(got))
                check(ok, "not-a-prefix", where, got, "want", full)
            dig.add(got, second["error"])
            for key in sorted(fs.fired) or [trouble["how"]]:
                dig.state(kind, plan["mode"], key, second["error"],
                          got is None, got == full, got == before)
            counts["conversions_under_trouble"] = 1
            fs.fired = {}
            for path, data in keep_in.items():
                if fs.get(path) != data:
                    check(gone, "input-changed", where, path)
                    fs.put(path, data)
            # ------------------------------------------------------- again
            del logs.lines[:]
            old = fs.get(OUT)
            third = attempt(plan, bound(), "again", seams.Steps(8000000))
            got = fs.get(OUT)
            settle(ans, third, got, logs, "again", old)
            if full is not None:
                check(got == full, "rerun-differs", where, got, "want", full)
            faults.closed(fs, "again")
            counts["reruns"] = 1
        names = set(fs.listing()) - {"out/result.txt"}
        check(names == {p[len("/vsim/"):] for p in keep_in}, "stray-files",
              sorted(names))
    span = 0.0
    if recs:
        span = abs((recs[-1]["DATETIME"] - recs[0]["DATETIME"]
                    ).total_seconds())
    out = {"digest": dig.hex(), "nontrivial": bool(ans.lines) and (
        hit or len(ans.lines) < len(recs)), "states": dig.states,
        "counts": counts, "fired": fired, "sim_s": span}
    notes.discard("")
    if notes:
        out["late"] = (sorted(notes)[0], "scaled by the radius of another "
                       "record than the pair's")
    return out


def attempt(plan, made, where, steps, **kwargs):
    """Run a conversion; returns how it ended."""
    out = {"error": None, "lines": 0}
    try:
        with steps:
            res = convert(plan, made, **kwargs)
        check(res is None, "result", where, res)
    except (core.Violation, seams.HarnessError):
        raise
    except Exception as err:
        out["error"] = type(err).__name__
        out["message"] = str(err)
    out["lines"] = steps.used
    return out


def settle(ans, out, text, logs, where, before):
    """Judge the ending of a conversion without faults."""
    if ans.error:
        check(out["error"] is not None, "no-error", where, text)
        check(text == before, "output-touched", where, text)
        return
    check(out["error"] is None, "failed-without-fault", where, out)
    if ans.silent:
        check(text == before, "output-touched", where, text)
        check(len(logs.warnings()) > 0, "unreported", where)
        return
    check(text is not None, "no-output", where)


def with_trouble(plan, trouble, made, fs, events, lines, text, full, dest):
    how = trouble["how"]
    out = {"error": None, "hit": False, "crash": False, "must_fail": False,
           "extra": None}
    kwargs = {}
    steps = seams.Steps(8000000)
    memory = None
    fs.events = 0
    fs.op_counts = {}
    fs.fired = {}
    if how == "io":
        fs.faults = faults.place(trouble["faults"], events)
    elif how == "full":
        fs.capacity = fs.used() - len(fs.get(OUT) or b"") + int(
            trouble["room"] * 1.05 * (len(full or b"") + 1))
    elif how == "line":
        steps = seams.Steps(8000000, trip_at=1 + int(trouble["at"] * lines))
    elif how == "path":
        what = trouble["what"]
        kwargs = {"indir": {"infile": "/vsim/in"}, "outdir":
                  {"outfile": "/vsim/out"}, "missing":
                  {"infile": "/vsim/in/none"}, "notstr": {"outfile": 3}}[what]
        out["hit"] = out["must_fail"] = True
        out["extra"] = "path:" + what
    try:
        if how == "memory":
            with seams.Memory(7, 1, int(trouble["at"] * 60 * 4)) as memory, \
                    steps:
                convert(plan, made, **kwargs)
        else:
            with steps:
                convert(plan, made, **kwargs)
    except seams.HarnessError:
        raise
    except (Exception, seams.SimInterrupt, seams.SimCrash) as err:
        out["error"] = type(err).__name__
        out["crash"] = isinstance(err, seams.SimCrash)
    if memory is not None and memory.hits:
        out["hit"] = True
        out["extra"] = "allocation"
    if how == "line" and steps.tripped:
        out["hit"] = True
        out["extra"] = "interrupt"
        out["must_fail"] = True
    if fs.fired:
        out["hit"] = True
        # A failing look-up may be made up for by another one
        out["must_fail"] |= any(k.startswith(("errno:", "torn_then_enospc:",
                                              "crash:")) or k == "disk_full"
                                for k in fs.fired if k != "errno:stat")
    return out


__all__ = ["gen", "run", "NAN"]
