"""C17: every operation ends, in work bounded by the size of its input.

Seeded work is done on damaged files full of undefined, infinite, huge and
fill values, with such numbers as arguments, and times in any order.  It must
end with a result or an exception, within a budget of executed lines of ocbpy,
and of memory asked for at once, in proportion to the size of its input.
"""
import datetime as dt
import os
import random

import numpy as np

from dst import core, jobs, ops, seams, simfs, world
from dst.core import check
from dst.seams import HarnessError

RUNS = {"quick": 16000, "thorough": 400000}
BATCH = 50
LEVEL = "exploration"
RULE = ("one seeded piece of work on damaged and extreme input; non-trivial "
        "if something in its input was damaged or extreme")
STATE_MEASURE = ("distinct (kind of work, kinds of damage, extreme values, "
                 "steps and how they ended) tuples")
REAL = ["all of ocbpy except downloads", "numpy", "aacgmv2", "pandas",
        "xarray", "pysat"]
STUB = ["file system (in memory)", "numpy allocator (counts, refuses more "
        "than the budget)", "clock", "ocbpy log handler"]
ASSUMES = ["AACGMV2 ends for the heights it is given (it does not for heights "
           "far inside the Earth, which are not generated)"]
SHRINK = ["harm", "swap", "work.ops", "work.series.rows", "work.inputs",
          "work.conv.obs.blocks", "work.calls", "work.vec", "calls"]
KINDS = {"session": 5, "vectors": 3, "smag": 2, "vort": 2, "pysat": 1.5,
         "ascii": 2, "format": 2, "read": 3, "funcs": 4, "cycle": 4,
         "times": 2, "track": .5}
TOKENS = ["nan", "inf", "-inf", "1e308", "-1e308", "1e17", "-1e9", "999999",
          "-999999", "0", "-1", "5e-324", "1e5", "99999999999999999999",
          "2147483648", "-2147483649", "1000000000", "1e400", "360", "24",
          "9999", "1", "x", "9999-12-31", "0001-01-01", "23:59:59", "--",
          "4294967296", "59.9999999", "0x10", "\x00", "é", "1_000"]
NUMBERS = [float("nan"), float("inf"), float("-inf"), 1e308, -1e308, 1e17,
           -1e17, 1e9, -1e9, 1e5, -1e5, 0.0, -0.0, -1.0, 5e-324, 90.0, -90.0,
           360.0, 24.0, 1e20, 180.0, 999999.0, 4e15]
KEYS = {"v", "vals", "tol", "cor", "height", "given", "lat", "lt", "sel",
        "sel_e", "tols", "nums"}
# Executed lines and bytes at once per token of the input
LINES, BYTES = (20000, 1000), (1 << 20, 1 << 15)


def gen(rng, tier, index):
    kind = core.pick(rng, KINDS)
    plan = {"harm": [], "swap": []}
    if kind == "cycle":
        plan["work"] = gen_cycle(rng)
    elif kind == "times":
        plan["work"] = {"job": "times", "calls": [gen_time(rng) for _ in range(
            rng.randint(1, 6))]}
    elif kind == "track":
        plan["work"] = {"job": "track", "n": rng.choice([1, 2, 5]),
                        "nums": [rng.uniform(-90, 90) for _ in range(9)]}
    else:
        plan["work"] = jobs.gen(rng, kind)
    if rng.random() < .8:
        plan["harm"] = [gen_harm(rng) for _ in range(rng.choice(
            [1, 1, 2, 3, 6]))]
    if rng.random() < .8:
        plan["swap"] = [[rng.random(), rng.randrange(len(NUMBERS))]
                        for _ in range(rng.choice([1, 1, 2, 4, 8]))]
    plan["memseed"] = rng.getrandbits(30)
    plan["memmode"] = rng.choice([1, 1, 2, 3, 4])
    return plan


def gen_harm(rng):
    how = core.pick(rng, {"token": 6, "cut": 1, "line-lost": 1, "line-twice":
                          1, "swap": 1, "byte": .7, "column": .7, "split": .7,
                          "all": .7})
    return [how, rng.random(), rng.random(), rng.choice(TOKENS)]


def gen_cycle(rng):
    work = {"job": "cycle"}
    n = rng.choice([1, 2, 3, 6, 12])
    if rng.random() < .5:
        work["dual"] = world.gen_dual(rng, n)
        times = [r["t"] for r in world.parse(work["dual"]["ocb"])]
    else:
        work["series"] = world.gen_series(rng, n)
        times = [r["t"] for r in world.parse(work["series"])]
    data = world.gen_data_times(rng, times, rng.choice([0, 1, 3, 8]))
    if rng.random() < .5:
        rng.shuffle(data)
    work["times"] = [world.stamp(t) for t in data]
    for _ in range(rng.choice([0, 0, 1, 2])):
        work["times"].insert(rng.randint(0, len(work["times"])), rng.choice(
            ["min", "max", "none", "nat"]))
    work["tols"] = [rng.choice([0.0, 60.0, 600.0, 1e6]) for _ in range(3)]
    work["start"] = rng.choice([-1, 0, 0, n - 1, n, n + 3])
    work["idat"] = rng.choice([0, 0, 0, 1, len(data), len(data) + 2])
    ser = work["dual"]["ocb"] if "dual" in work else work["series"]
    work["sel"] = world.gen_select(rng, ser)
    return work


def gen_time(rng):
    return {"f": rng.choice(["year_soy", "yyddd", "fmt_len", "convert",
                             "convert", "range", "range", "hr2deg", "hr2rad",
                             "slt", "glon"]),
            "nums": [rng.choice([2000.0, 365.0, 0.0, 1.0, 86400.0, 12.5])
                     for _ in range(3)],
            "txt": rng.choice(["%Y-%m-%d %H:%M:%S", "YEAR SOY", "SOD", "%y",
                               "%Y%j", "%%", "%", "", "99366", "00000",
                               "-0001", "123", "99999999", "%Y" * 30]),
            "n": rng.randint(0, 5), "txt2": rng.choice(
                ["2000-01-01 00:00:00", "2000-366", "", "00", "x" * 50])}


# ------------------------------------------------------------------- the input
class Rough(simfs.SimFS):
    """Files reach this disk damaged as the plan has it."""
    harm = ()
    size = 0

    def put(self, path, data):
        if isinstance(data, str):
            data = data.encode()
        for item in self.harm:
            data = damage(data, item)
        self.size += len(data.split()) + data.count(b"\n") + data.count(b",")
        super().put(path, data)


def damage(data, item):
    how, x, y, tok = item
    lines = data.split(b"\n")
    at = int(x * len(lines))
    if how == "cut":
        return data[:int(x * len(data))]
    if how == "byte":
        out = bytearray(data)
        if out:
            out[int(x * len(out))] = int(y * 256)
        return bytes(out)
    if how == "line-lost":
        del lines[at]
    elif how == "line-twice":
        lines.insert(int(y * len(lines)), lines[at])
    elif how == "swap":
        other = int(y * len(lines))
        lines[at], lines[other] = lines[other], lines[at]
    elif how == "column":
        for i, line in enumerate(lines):
            lines[i] = one_token(line, y, tok)
    elif how == "all":
        num = random.Random(int(y * 1e9))
        lines = [one_token(line, num.random(), num.choice(TOKENS))
                 for line in lines]
    elif how == "split":
        lines.insert(at, b" ".join(lines[at].split()[:1]))
    else:
        lines[at] = one_token(lines[at], y, tok)
    return b"\n".join(lines)


def one_token(line, y, tok):
    sep = b"," if line.count(b",") > 2 else None
    toks = line.split(sep)
    if not toks:
        return line
    toks[int(y * len(toks))] = tok.encode()
    return (sep or b" ").join(toks)


def swap(work, swaps):
    """The work with extreme numbers at seeded places; how many there are."""
    work = core.jround(work)
    spots = []

    def walk(node, inside, high=False):
        # The order in a replay file may be another
        items = sorted(node.items()) if isinstance(node, dict) else \
            enumerate(node)
        for key, val in items:
            deep = inside or key in KEYS
            tall = high or key in ("height", "alt")
            if isinstance(val, (dict, list)):
                walk(val, deep and key != "series" and key != "dual", tall)
            elif deep and isinstance(val, (int, float)) and not isinstance(
                    val, bool):
                spots.append((node, key, tall))
    walk({k: v for k, v in work.items()
          if k not in ("series", "dual", "conv")}, False)
    if "conv" in work:
        sub = work["conv"]
        spots.append((sub, "tol", False))
        spots += [(sub["sel"], i, False) for i in (0, 1) if sub["sel"][i] is not None]
    if spots:
        for frac, num in swaps:
            node, key, tall = spots[int(frac * len(spots))]
            # AACGMV2 does not end for heights far inside the Earth
            node[key] = abs(NUMBERS[num]) if tall else NUMBERS[num]
    return work, len(spots)


# ------------------------------------------------------------------------ runs
def run(plan):
    import ocbpy
    real = os.path.dirname(os.path.realpath(ocbpy.boundaries.__file__))
    dig = core.Digest()
    work, spots = swap(plan["work"], plan["swap"])
    fs = Rough(mounts=[(real, "/vsim/b")])
    fs.harm = plan["harm"]
    ended = []
    steps, mem = seams.Steps(), None

    def note(step, got):
        ended.append([step, got[0] if got and got[0] in ("ok", "raised")
                      else "done", got[1] if got and got[0] == "raised"
                      else ""])
    # The input is known by the time it is used up
    budget = Budget(fs, leaves(work))
    with fs, seams.LogTrap(), seams.Clock(1.6e9):
        mem = seams.Memory(plan["memseed"], plan["memmode"], cap=1 << 30)
        with mem, seams.Steps(hook=budget) as steps:
            try:
                if work["job"] in ("cycle", "times", "track"):
                    globals()["do_" + work["job"]](work, fs, note)
                else:
                    fs.mkdirs("/vsim/t")
                    jobs.script(work, fs, "/vsim/t", note)
            except (HarnessError, core.Violation):
                raise
            except Exception as err:
                ended.append(["script", "raised", type(err).__name__])
    most = BYTES[0] + BYTES[1] * budget.size()
    check(mem.largest <= most, "memory", work["job"], mem.largest,
          "bytes at once for", budget.size(), "tokens", ended)
    dig.add(ended, steps.used)
    kinds = sorted(set(h[0] for h in plan["harm"]))
    dig.state(work["job"], kinds, sorted(set(n for _, n in plan["swap"])),
              ended)
    fired = {}
    for how, _, _, _ in plan["harm"]:
        if fs.size:
            fired["damage:" + how] = fired.get("damage:" + how, 0) + 1
    if plan["swap"] and spots:
        fired["extreme argument"] = len(plan["swap"])
    return {"digest": dig.hex(), "nontrivial": bool(fired), "states":
            dig.states, "fired": fired, "counts": {
                work["job"]: 1, "lines": steps.used}}


class Budget:
    """Ends the run when it has used more lines than its input allows."""

    def __init__(self, fs, base):
        self.fs, self.base, self.n = fs, base, 0

    def size(self):
        return self.base + self.fs.size

    def __call__(self, code, line):
        self.n += 1
        if self.n > LINES[0] + LINES[1] * self.size():
            raise seams.StepLimit("{:d} lines for {:d} tokens, in {:s}".format(
                self.n, self.size(), code.co_name))


def leaves(node):
    if isinstance(node, dict):
        return sum(leaves(v) for v in node.values())
    if isinstance(node, list):
        return sum(leaves(v) for v in node)
    return 1


def do_cycle(work, fs, note):
    import ocbpy
    from ocbpy import cycle_boundary
    got = []

    def load():
        got.append(ops.Session(jobs.world_of(work), fs, "/vsim/s").obj)
        return [got[0].records]
    note("load", jobs.outcome(load))
    if not got:
        return
    obj = got[0]
    times = [{"min": dt.datetime.min, "max": dt.datetime.max, "none": None,
              "nat": np.datetime64("NaT")}.get(t) if t in (
                  "min", "max", "none", "nat") else world.when(t)
             for t in work["times"]]
    lo, hi, crit = work["sel"]
    kws = dict(world.crit_kwargs(crit), min_merit=lo, max_merit=hi)
    one = obj.ocb if hasattr(obj, "ocb") else obj
    note("list", jobs.outcome(
        lambda: cycle_boundary.retrieve_all_good_indices(one, **kws)))
    for num, tol in enumerate(work["tols"]):
        obj.rec_ind = work["start"]
        note("match{:d}".format(num), jobs.outcome(
            lambda: ocbpy.match_data_ocb(obj, times, idat=work["idat"],
                                         max_tol=tol, **kws)))
    for num in range(3):
        note("next{:d}".format(num), jobs.outcome(
            lambda: obj.get_next_good_ind() if hasattr(obj, "ocb")
            else obj.get_next_good_ocb_ind(**kws)))


def do_times(work, fs, note):
    from ocbpy import ocb_time as ot
    when = dt.datetime(2003, 2, 28, 23, 59, 59)
    for num, call in enumerate(work["calls"]):
        a, b, c = call["nums"]
        txt, txt2 = call["txt"], call["txt2"]
        todo = {
            "year_soy": lambda: ot.year_soy_to_datetime(a, b),
            "yyddd": lambda: ot.yyddd_to_date(txt),
            "fmt_len": lambda: ot.get_datetime_fmt_len(txt),
            "convert": lambda: ot.convert_time(
                **[{"year": a, "soy": b}, {"yyddd": txt, "sod": b},
                   {"date": txt2, "datetime_fmt": txt}, {"date": txt2,
                                                         "sod": b},
                   {"yyddd": txt, "tod": txt2}, {"date": txt2[:10], "tod":
                                                 txt2[11:]}][call["n"]]),
            "range": lambda: ot.fix_range([a, b, c][:1 + call["n"] % 3], 0.0,
                                          *[[24.0], [360.0], [c], [b, a],
                                            [24.0, b], [0.0]][call["n"]]),
            "hr2deg": lambda: ot.hr2deg([a, b], b, c),
            "hr2rad": lambda: ot.hr2rad(a, b),
            "slt": lambda: ot.slt2glon([a, b], when),
            "glon": lambda: ot.glon2slt([a, b], when)}[call["f"]]
        note("{:d}:{:s}".format(num, call["f"]), jobs.outcome(todo))


def do_track(work, fs, note):
    from ocbpy import cycle_boundary
    n = work["nums"]
    rep = work["n"]

    def go():
        return cycle_boundary.satellite_track(
            np.array([n[0]] * rep), np.array([n[1]] * rep), n[2], n[3], n[4],
            n[5], 1, del_x=n[6], del_y=n[7], past_bound=n[8])
    note("track", jobs.outcome(go))


def prepare():
    jobs.preload()
