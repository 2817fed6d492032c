"""C07: loading observation files.

A seeded SuperMAG, vorticity or generic column file is loaded whole, then
damaged (cut, spans lost or zeroed, lines lost, repeated or joined), or read
under I/O faults, and afterwards loaded whole again.  What a loader returns is
compared with an independent strict reading of the bytes on the disk.
"""
import datetime as dt

import numpy as np

from dst import core, faults, obs, seams, simfs, world
from dst.core import check

RUNS = {"quick": 40000, "thorough": 600000}
BATCH = 120
LEVEL = "exploration"
RULE = ("seeded files of 0-30 blocks or rows, 0-3 damages, 0-3 faults; "
        "non-trivial if observations were loaded and a damage or fault hit")
STATE_MEASURE = ("distinct (file kind, damage kinds, fault kind and operation, "
                 "strict reading, outcome) tuples")
REAL = ["load_supermag_ascii_data", "load_vorticity_ascii_data",
        "load_ascii_data", "test_file", "numpy.genfromtxt"]
STUB = ["file system (in memory, with faults and damage)", "log handler"]
ASSUMES = ["generic column files keep as many values per row as the header "
           "names, unless cut"]
SHRINK = ["obs.blocks", "obs.rows", "damage", "faults"]
KINDS = {"errno": 6, "vanish": 1, "short_read": 2}
LAYOUTS = ["none", "YEAR SOY", "%Y %j SOD", "%Y-%m-%d %H:%M:%S",
           "%Y%m%d %H:%M", "YYDDD %H:%M:%S", "YYDDD SOD"]
# Names of the time stamps of a generic file
STAMPS = ["datetime", "DATETIME", "DT", "dt"]


def gen(rng, tier, index):
    kind = rng.choice(["smag", "smag", "vort", "vort", "ascii"])
    n = rng.choice([0, 1, 1, 2, 2, 3, 5, 12])
    times = world.gen_times(rng, "image", n)
    if rng.random() < .1:
        rng.shuffle(times)
    plan = {"kind": kind, "max_read": rng.choice([0, 0, 0, 1, 37, 4096]),
            "state": core.pick(rng, {"good": 14, "missing": .4, "dir": .3,
                                     "empty": .4, "huge": .4})}
    if kind == "smag":
        plan["obs"] = obs.gen_smag(rng, times, 0, rng.choice([1, 2, 4, 9]))
    elif kind == "vort":
        plan["obs"] = obs.gen_vort(rng, times, 0, rng.choice([1, 2, 4]))
        plan["save_all"] = rng.random() < .5
    else:
        plan["obs"] = gen_ascii(rng, times)
    plan["damage"] = []
    plan["faults"] = []
    if plan["state"] == "good":
        if rng.random() < .6:
            plan["damage"] = [gen_damage(rng, kind)
                              for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < .4:
            plan["faults"] = faults.gen(rng, KINDS, 3)
    return plan


def gen_damage(rng, kind):
    how = core.pick(rng, {"cut": 4, "lose": 2, "zero": 1, "drop": 1.5,
                          "again": 1, "join": 1.5, "token": 1.5})
    if kind == "ascii":
        how = core.pick(rng, {"cut": 4, "token": 1})
    out = {"how": how, "at": rng.random(), "n": rng.choice([1, 3, 40, 400])}
    if rng.random() < .4:
        out["late"] = True
    return out


def gen_ascii(rng, times):
    layout = rng.choice(LAYOUTS)
    tcols = [] if layout == "none" else layout.split()
    ncol = rng.choice([0, 1, 2, 4]) + (0 if tcols else 1)
    kinds = [rng.choice("fffis") for _ in range(ncol)]
    at = rng.randint(0, ncol)
    kinds[at:at] = ["t"] * len(tcols)
    names = ["C{:d}".format(i) for i in range(len(kinds))]
    if rng.random() < .15:
        taken = STAMPS[:rng.choice([1, 1, 1, 2, 3])]
        spots = rng.sample(range(len(names)), min(len(taken), len(names)))
        for spot, name in zip(spots, taken):
            names[spot] = name
    rows = []
    for when in times:
        row = []
        for kind in kinds:
            if kind == "f":
                row.append(rng.choice([world.fnum(rng, -99, 99),
                                       "{:e}".format(rng.gauss(0, 1)),
                                       rng.choice(["nan", "inf", "-0"])]))
            elif kind == "i":
                row.append(str(rng.randint(-9, 10 ** 6)))
            elif kind == "s":
                row.append(rng.choice(["a", "AB-1", "x" * 60, "3.0"]))
        row[at:at] = stamp_tokens(rng, layout, when)
        rows.append(row)
    return {"layout": layout, "kinds": kinds, "names": names, "rows": rows,
            "at": at, "comma": rng.random() < .2,
            "given": rng.random() < .3,
            "heads": rng.randint(1 if rows else 2, 3),
            "hash": rng.random() < .4, "strlen": rng.choice([50, 50, 10])}


def stamp_tokens(rng, layout, when):
    sec = (when - when.replace(hour=0, minute=0, second=0)).total_seconds()
    if layout == "none":
        return []
    if layout == "YEAR SOY":
        year, soy = world.model.year_soy(when)
        return [str(year), "{:.0f}".format(soy)]
    if layout == "%Y %j SOD":
        return [str(when.year), when.strftime("%j"), "{:.0f}{:s}".format(
            sec, rng.choice(["", ".0", ".5", ".1", ".25", ".999"]))]
    frac = rng.choice(["", ".0", ".5", ".1", ".25", ".001", ".999"])
    fmts = layout.split()
    if fmts[0] == "YYDDD":
        day = "{:d}{:s}".format(when.year - 1900, when.strftime("%j"))
        return [day, "{:.0f}{:s}".format(sec, frac) if fmts[1] == "SOD"
                else when.strftime(fmts[1])]
    return [when.strftime(fmts[0]), when.strftime(fmts[1])]


# ------------------------------------------------------------------ the file
def text_of(plan):
    if plan["kind"] == "smag":
        return obs.smag_text(plan["obs"])
    if plan["kind"] == "vort":
        return obs.vort_text(plan["obs"])
    o = plan["obs"]
    sep = "," if o["comma"] else " "
    names = sep.join(o["names"])
    head = "# text\n" * (o["heads"] - 1)
    if not o["given"]:
        head += ("#" if o["hash"] else "") + names + "\n"
    return head + "".join(sep.join(row) + "\n" for row in o["rows"])


def harm(plan, text):
    """The damaged text."""
    for dam in plan["damage"]:
        size = len(text)
        at = dam["at"]
        if dam.get("late"):
            at = 1.0 - at * min(1.0, 300.0 / max(size, 1))
        pos = min(size - 1, int(at * size)) if size else 0
        lines = text.split("\n")
        row = text.count("\n", 0, pos)
        glue = " " if dam["n"] == 1 else ""
        if dam["how"] == "cut":
            text = text[:pos]
        elif dam["how"] == "lose":
            text = text[:pos] + text[pos + dam["n"]:]
        elif dam["how"] == "zero":
            text = text[:pos] + "\0" * min(dam["n"], size - pos) + text[
                pos + dam["n"]:]
        elif dam["how"] == "drop":
            text = "\n".join(lines[:row] + lines[row + 1:])
        elif dam["how"] == "again":
            text = "\n".join(lines[:row + 1] + lines[row:])
        elif dam["how"] == "join" and row + 1 < len(lines):
            text = "\n".join(lines[:row] + [lines[row] + glue + lines[row + 1]]
                             + lines[row + 2:])
        elif dam["how"] == "token":
            tok = lines[row].split()
            if len(tok) > 1:
                k = dam["n"] % len(tok)
                lines[row] = " ".join(tok[:k] + tok[k + 1:])
            text = "\n".join(lines)
    return text


def load(plan, path):
    import ocbpy.instruments.general as gen_mod
    import ocbpy.instruments.supermag as smag
    import ocbpy.instruments.vort as vort
    if plan["kind"] == "smag":
        return smag.load_supermag_ascii_data(path)
    if plan["kind"] == "vort":
        return vort.load_vorticity_ascii_data(path, plan["save_all"])
    o = plan["obs"]
    tcols = [i for i, k in enumerate(o["kinds"]) if k == "t"]
    kwargs = {"max_str_length": o["strlen"]}
    if tcols:
        kwargs.update(datetime_cols=tcols, datetime_fmt=o["layout"])
    for key, kind in (("int_cols", "i"), ("str_cols", "s")):
        cols = [i for i, k in enumerate(o["kinds"]) if k == kind]
        if cols:
            kwargs[key] = cols
    hlines = o["heads"]
    if o["comma"]:
        kwargs.update(hsplit=",", gft_kwargs={"delimiter": ","})
    if o["given"]:
        hlines -= 1
        kwargs["header"] = [("," if o["comma"] else " ").join(o["names"])]
    return gen_mod.load_ascii_data(path, hlines, **kwargs)


# --------------------------------------------------------------- judgements
def strict(plan, text):
    """Strict reading: (status, records)."""
    if plan["kind"] == "smag":
        return obs.parse_smag(text)
    if plan["kind"] == "vort":
        return obs.parse_vort(text, plan["save_all"])
    o = plan["obs"]
    heads = o["heads"] - (1 if o["given"] else 0)
    lines = text.split("\n")
    names = o["names"]
    if not o["given"]:
        got = lines[heads - 1].replace("#", "").split(
            "," if o["comma"] else None) if len(lines) >= heads else []
        if [x.strip() for x in got] != names:
            return "head", []
    recs = []
    for line in lines[heads:]:
        line = line.split("#")[0]
        tok = line.split(",") if o["comma"] else line.split()
        if line.strip() == "":
            continue
        if len(tok) != len(names):
            return "bad", recs
        rec = {}
        try:
            for name, kind, one in zip(names, o["kinds"], tok):
                rec[name] = {"f": float, "i": int, "s": str, "t": str}[kind](
                    one)
                if kind == "s":
                    rec[name] = one[:max(o["strlen"], tlen(o))]
            at = o["at"]
            if o["layout"] != "none":
                when = parse_time(o["layout"], tok[at:at + len(
                    o["layout"].split())])
                fmts = o["layout"].split()
                for j, name in enumerate(names[at:at + len(fmts)]):
                    if fmts[j] in ("YEAR", "SOY"):
                        rec[name] = int(rec[name])
                    elif fmts[j] == "SOD":
                        rec[name] = float(rec[name])
                rec[stamp_name(names)] = when
        except (ValueError, OverflowError):
            return "bad", recs
        recs.append(rec)
    return "ok", recs


def column(plan, text):
    """Rows cut to one value each read as one row of that many values."""
    if plan["kind"] != "ascii":
        return False
    o = plan["obs"]
    rows = text.split("\n")[o["heads"] - (1 if o["given"] else 0):]
    rows = [r for r in rows if r.split("#")[0].strip()]
    if len(o["names"]) == 1 and len(rows) == 1:
        return True
    return len(rows) == len(o["names"]) and not any(
        ("," in r) if o["comma"] else len(r.split()) > 1 for r in rows)


def stamp_name(names):
    """The name of the time stamps: the first the file does not use itself."""
    return next(name for name in STAMPS if name not in names)


def tlen(o):
    """Room needed by the time columns."""
    return {"none": 0, "YEAR SOY": 8, "%Y %j SOD": 12,
            "%Y-%m-%d %H:%M:%S": 19, "%Y%m%d %H:%M": 14,
            "YYDDD %H:%M:%S": 14, "YYDDD SOD": 9}[o["layout"]]


def parse_time(layout, tok):
    if layout == "YEAR SOY":
        return dt.datetime(int(tok[0]), 1, 1) + dt.timedelta(
            seconds=int(tok[1]))
    if layout == "%Y %j SOD":
        return dt.datetime.strptime(tok[0] + " " + tok[1], "%Y %j"
                                    ) + dt.timedelta(seconds=float(tok[2]))
    if layout.startswith("YYDDD"):
        day = dt.datetime.strptime(str(int(tok[0][:-3]) + 1900) + " "
                                   + tok[0][-3:], "%Y %j")
        if layout.endswith("SOD"):
            return day + dt.timedelta(seconds=float(tok[1]))
        return dt.datetime.combine(day.date(), dt.datetime.strptime(
            tok[1], "%H:%M:%S").time())
    return dt.datetime.strptime(" ".join(tok), layout)


def same(want, got):
    if hasattr(got, "item"):
        got = got.item()
    if isinstance(want, float):
        return isinstance(got, float) and core.same_float(want, got, 1e-15, 0)
    return got == want


def compare(plan, out, recs, where, text, some=False):
    """Whether a returned result is exactly these records."""
    if plan["kind"] == "vort":
        data = out
        keys = obs.VALL if plan["save_all"] else obs.VBASE
        head = None
    else:
        head, data = out
        keys = obs.SMAG_KEYS
    if plan["kind"] == "smag":
        mark = text.split("\n")
        at = next(i for i, line in enumerate(mark) if "=" * 41 in line)
        check([h.rstrip("\n") for h in head] == mark[:at + 1], "header", where,
              head[:3])
    elif plan["kind"] == "ascii":
        o = plan["obs"]
        keys = list(o["names"])
        if o["layout"] != "none":
            keys.append(stamp_name(keys))
        lines = text.split("\n")
        size = o["heads"] - (1 if o["given"] else 0)
        want = [x.strip() for x in (lines + [""] * size)[:size]]
        if o["given"]:
            want.insert(0, ("," if o["comma"] else " ").join(o["names"]))
        check(head == want, "header", where, head, want)
    check(sorted(data) == sorted(keys), "names", where, sorted(data))
    for key in keys:
        col = data[key]
        check(len(col) == len(recs), "count", where, key, len(col), "want",
              len(recs))
        if recs:
            check(isinstance(col, np.ndarray) and col.ndim == 1, "not-array",
                  where, key, type(col))
        for i, rec in enumerate(recs):
            check(same(rec[key], col[i]), "value", where, key, i, col[i],
                  "want", rec[key])


def empty_result(plan, out):
    if plan["kind"] == "vort":
        return out is None
    return out[1] == {}


def attempt(plan, path):
    """(result, error name)"""
    try:
        return load(plan, path), None
    except seams.HarnessError:
        raise
    except Exception as err:
        return None, type(err).__name__ + ": " + str(err)


def run(plan):
    dig = core.Digest()
    counts, fired = {"load": 0}, {}
    text = text_of(plan)
    if not text:
        raise core.Unsupported("an empty file")
    path = "/vsim/in/obs.txt"
    late = None
    with simfs.SimFS({path: text}, max_read=plan["max_read"]) as fs, \
            seams.LogTrap() as logs, seams.Steps(6000000):
        if plan["state"] != "good":
            name = path
            if plan["state"] == "missing":
                name = "/vsim/in/other.txt"
            elif plan["state"] == "dir":
                name = "/vsim/in"
            elif plan["state"] == "empty":
                fs.put(path, "")
            else:
                fs.nodes[path].fake_size = 2 * 10 ** 9 + 1
            out = load(plan, name)
            check(empty_result(plan, out), "claims-data", plan["state"])
            check(len(logs.warnings()) > 0, "unreported", plan["state"])
            faults.closed(fs, plan["state"])
            return {"digest": plan["state"], "nontrivial": False,
                    "states": [plan["kind"] + plan["state"]],
                    "counts": {"load": 1}}
        status, recs = strict(plan, text)
        whole(plan, path, text, status, recs, "whole file", fs)
        counts["load"] += 1
        dig.add(status, len(recs))
        dig.state(plan["kind"], status, min(len(recs), 3))
        loaded = len(recs)
        hit = False
        if plan["damage"]:
            worse = harm(plan, text)
            where = "damaged file {:}".format(plan["damage"])
            if worse and worse != text:
                hit = True
                fs.put(path, worse)
                bad, part = strict(plan, worse)
                del logs.lines[:]
                out, err = attempt(plan, path)
                counts["load_damaged"] = 1
                if bad in ("ok", "empty"):
                    whole(plan, path, worse, bad, part, where, fs)
                elif bad == "odd":
                    pass
                elif err is None and not empty_result(plan, out):
                    if bad == "short":
                        compare(plan, out, part, where, worse)
                        late = ("truncated-supermag",
                                "the file ends inside a block")
                    elif bad == "head" or bad == "bad" and column(plan, worse):
                        pass
                    else:
                        check(False, "silently-wrong", where, bad, worse[-300:])
                elif err is None:
                    check(len(logs.warnings()) > 0 or plan["kind"] == "vort"
                          or bad == "head", "unreported", where)
                dig.add(bad, len(part), err)
                dig.state(plan["kind"], [d["how"] for d in plan["damage"]],
                          bad, err is None)
                faults.closed(fs, where)
                for dam in plan["damage"]:
                    key = "damage:" + dam["how"]
                    fired[key] = fired.get(key, 0) + 1
                fs.put(path, text)
        if plan["faults"]:
            keep = fs.events
            fs.events = 0
            load(plan, path)
            fs.faults = faults.place(plan["faults"], fs.events)
            fs.events = 0
            fs.op_counts = {}
            where = "load under {:}".format(fs.faults)
            del logs.lines[:]
            out, err = None, None
            try:
                out = load(plan, path)
            except seams.HarnessError:
                raise
            except Exception as exc:
                err = type(exc).__name__
            check(err is None or fs.fired, "failed-without-fault", where, err)
            if err is None:
                hard = [k for k in fs.fired if k.startswith("errno:")]
                at_stat = all(k.endswith(":stat") for k in hard)
                check(not hard or at_stat, "fault-ignored", where,
                      dict(fs.fired))
                gone = any(k.startswith("vanish") for k in fs.fired)
                if status != "empty" and empty_result(plan, out) and (
                        hard or gone):
                    check(len(logs.warnings()) > 0, "unreported", where)
                else:
                    judge(plan, out, text, status, recs, where)
            faults.closed(fs, where)
            faults.tally(fs, fired)
            hit |= bool(fs.fired)
            for key in fs.fired:
                dig.state(plan["kind"], key, err)
            dig.add(err)
            counts["load_under_faults"] = 1
            fs.faults = []
            fs.fired = {}
            fs.put(path, text)
            fs.events = keep
        whole(plan, path, text, status, recs, "whole file again", fs)
        counts["load"] += 1
        check(fs.snapshot() == {path: text.encode()}, "files-changed")
    span = 0.0
    if loaded > 1 and plan["kind"] != "ascii" and "DATETIME" in recs[0]:
        span = abs((recs[-1]["DATETIME"] - recs[0]["DATETIME"]
                    ).total_seconds())
    out = {"digest": dig.hex(), "nontrivial": bool(loaded and hit),
           "states": dig.states, "counts": counts, "fired": fired,
           "sim_s": span}
    if late is not None:
        out["late"] = late
    return out


def whole(plan, path, text, status, recs, where, fs):
    out = load(plan, path)
    judge(plan, out, text, status, recs, where)
    faults.closed(fs, where)


def judge(plan, out, text, status, recs, where):
    if plan["kind"] == "vort" and status == "empty":
        check(out is None, "claims-data", where)
        return
    if plan["kind"] == "vort":
        check(out is not None, "lost", where, len(recs))
    compare(plan, out, recs, where, text)
