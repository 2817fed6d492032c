"""Seeded observation files (SuperMAG and vorticity) and their strict model.

`parse_*` reads the text of a file as its header declares the layout and says
whether the text fits it; it shares no code with the loaders.
"""
import datetime as dt
import math

from dst import world

NAN = float("nan")
FILL = 999999
MARK = "=" * 60
STIDS = ["ABK", "ALE", "THL", "SVS", "M01", "B23", "FCC", "NAL", "KUV", "123",
         "A-1"]
VKEYS = [["R1BM1", "R1BM2", "R2BM1", "R2BM2", "AREA", "VORTICITY", "MLT"],
         ["GFLG", "CENTRE_GLAT", "CENTRE_GLON", "C1_GLAT", "C1_GLON",
          "C2_GLAT", "C2_GLON", "C3_GLAT", "C3_GLON", "C4_GLAT", "C4_GLON"],
         ["MFLG", "CENTRE_MLAT", "CENTRE_MLON", "C1_MLAT", "C1_MLON",
          "C2_MLAT", "C2_MLON", "C3_MLAT", "C3_MLON", "C4_MLAT", "C4_MLON"]]
VBASE = ["YEAR", "MONTH", "DAY", "UTH", "VORTICITY", "MLT", "CENTRE_MLAT",
         "DATETIME"]
VALL = VBASE + ["R1BM1", "R1BM2", "R2BM1", "R2BM2", "AREA", "CENTRE_GLAT",
                "CENTRE_GLON", "C1_GLAT", "C1_GLON", "C2_GLAT", "C2_GLON",
                "C3_GLAT", "C3_GLON", "C4_GLAT", "C4_GLON", "CENTRE_MLON",
                "C1_MLAT", "C1_MLON", "C2_MLAT", "C2_MLON", "C3_MLAT",
                "C3_MLON", "C4_MLAT", "C4_MLON"]


# ------------------------------------------------------------------ SuperMAG
def gen_lat(rng, hemi):
    """Magnetic latitude text of one observation."""
    kind = rng.random()
    if kind < .04:
        return "0.00"
    lat = rng.uniform(55, 89.9) if kind < .8 else rng.uniform(.1, 90)
    if hemi == 0:
        lat *= rng.choice([1, -1])
    else:
        lat *= hemi if rng.random() < .9 else -hemi
    return "{:.{:d}f}".format(lat, rng.choice([2, 2, 4]))


def gen_smag(rng, times, hemi=0, most=4, fills=.06, index=.8):
    blocks = []
    both = rng.random() < index
    for when in times:
        stations = []
        for stid in rng.sample(STIDS, rng.choice(list(range(1, most + 1)))):
            row = [stid]
            for _ in range(3):
                row.append(str(FILL) if rng.random() < fills else
                           world.fnum(rng, -900, 900, rng.choice([1, 1, 3])))
            row.append(str(FILL) if rng.random() < fills / 3 else
                       "{:.2f}".format(rng.uniform(0, 23.99)))
            row.append(str(FILL) if rng.random() < fills / 3
                       else gen_lat(rng, hemi))
            row.append("{:.2f}".format(rng.uniform(-40, 40)))
            row.append(str(FILL) if rng.random() < fills else
                       "{:.2f}".format(rng.uniform(0, 180)))
            stations.append(row)
        inds = [["SML", str(rng.randint(-1500, 10))],
                ["SMU", str(rng.randint(-10, 900))]]
        if not both:
            inds = rng.sample(inds, rng.choice([0, 1, 2]))
        blocks.append({"t": world.stamp(when), "ind": inds, "st": stations})
    return {"head": rng.choice([0, 1, 5]), "sep": rng.choice(["\t", " ", "  "]),
            "blocks": blocks}


def smag_text(obs):
    out = ["", " made-up data", "<yr> <mo> <dy>", "", "more"][:obs["head"]]
    out.append(MARK)
    for block in obs["blocks"]:
        when = world.when(block["t"])
        out.append(obs["sep"].join(
            [str(when.year)] + ["{:02d}".format(x) for x in (
                when.month, when.day, when.hour, when.minute, when.second)]
            + [str(len(block["st"]))]))
        out += [" ".join(pair) for pair in block["ind"]]
        out += [obs["sep"].join(row) for row in block["st"]]
    return "\n".join(out) + "\n"


def value(tok):
    x = float(tok)
    return NAN if x == FILL else x


def parse_smag(text):
    """(status, records): 'none' no data section, 'bad', 'short', 'ok'.

    'short' is a file that ends inside a block that has started; the records
    are all those read until then.
    """
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    try:
        at = next(i for i, line in enumerate(lines) if "=" * 41 in line) + 1
    except StopIteration:
        return "none", []
    recs = []
    left = 0
    for line in lines[at:]:
        tok = line.split()
        try:
            if left == 0:
                if len(tok) < 6:
                    return "bad", recs
                num = [int(x) for x in tok]
                when = dt.datetime(*num[:6])
                if len(num) != 7 or num[6] < 1:
                    if line is lines[-1] and len(num) == 6:
                        return "short", recs
                    return "bad", recs
                left, count = num[6], num[6]
                ind = {"SML": FILL, "SMU": FILL}
                started = False
            elif len(tok) == 2:
                if tok[0] not in ind or started:
                    if line is lines[-1] and int(tok[1]) is not None:
                        return "short", recs
                    # Between stations it may be read in more than one way
                    return "odd" if tok[0] in ind else "bad", recs
                ind[tok[0]] = int(tok[1])
            else:
                if len(tok) != 8:
                    return "bad", recs
                vals = [value(x) for x in tok[1:]]
                rec = {"YEAR": when.year, "MONTH": when.month, "DAY": when.day,
                       "HOUR": when.hour, "MIN": when.minute,
                       "SEC": when.second, "DATETIME": when, "NST": count,
                       "STID": tok[0].rstrip("\0")}
                rec.update(ind)
                rec.update(zip(["BN", "BE", "BZ", "MLT", "MLAT", "DEC",
                                "SZA"], vals))
                recs.append(rec)
                started = True
                left -= 1
        except (ValueError, OverflowError):
            return "bad", recs
    return ("short" if left else "ok"), recs


SMAG_KEYS = ["YEAR", "MONTH", "DAY", "HOUR", "MIN", "SEC", "DATETIME", "NST",
             "SML", "SMU", "STID", "BN", "BE", "BZ", "MLT", "MLAT", "DEC",
             "SZA"]


# ----------------------------------------------------------------- vorticity
def gen_vort(rng, times, hemi=0, most=4, empties=.08):
    blocks = []
    for when in times:
        day = when.replace(hour=0, minute=0, second=0, microsecond=0)
        sec = (when - day).total_seconds()
        uth = "{:.{:d}f}".format(sec / 3600.0, rng.choice([3, 3, 4, 6]))
        if float(uth) >= 24.0:
            uth = "23.999"
        entries = []
        count = 0 if rng.random() < empties else rng.randint(1, most)
        for _ in range(count):
            lat = gen_lat(rng, hemi)
            row = [str(rng.randint(0, 2)) for _ in range(2)]
            row += [str(rng.randint(1, 15)) for _ in range(2)]
            row += ["{:.1f}".format(rng.uniform(4000, 8000)),
                    rng.choice(["{:.7f}", "{:.7f}", "{:.7e}"]).format(
                        rng.uniform(-.01, .01)),
                    "{:.4f}".format(rng.uniform(0, 23.999))]
            geo = ["0"] + ["{:.3f}".format(rng.uniform(-180, 180))
                           for _ in range(10)]
            mag = ["1", lat] + ["{:.3f}".format(rng.uniform(-180, 180))
                                for _ in range(9)]
            entries.append([row, geo, mag])
        blocks.append({"t": day.strftime("%Y-%m-%d"), "uth": uth,
                       "st": entries})
    return {"head": rng.choice([0, 0, 1, 3]) if blocks else 1,
            "blocks": blocks}


def vort_text(obs):
    out = ["# header"] * obs["head"]
    for block in obs["blocks"]:
        day = dt.datetime.strptime(block["t"], "%Y-%m-%d")
        out.append("{:d} {:d} {:d} {:s}".format(day.year, day.month, day.day,
                                                block["uth"]))
        out.append(str(len(block["st"])))
        for entry in block["st"]:
            out += ["  ".join(row) for row in entry]
    return "".join(line + "\n" for line in out)


def vort_time(year, month, day, uth):
    """The whole second a decimal hour stands for."""
    near = round(uth * 3600.0, 6)
    return dt.datetime(year, month, day) + dt.timedelta(
        seconds=math.floor(near))


def parse_vort(text, save_all=False):
    """(status, records): 'bad', 'empty' or 'ok'."""
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    recs = []
    at = 0
    while at < len(lines) and lines[at].split()[:1] == ["#"]:
        at += 1
    try:
        while at < len(lines):
            tok = lines[at].split()
            if len(tok) != 4 or len(tok[0]) != 4:
                return "bad", recs
            year, month, day = [int(x) for x in tok[:3]]
            uth = float(tok[3])
            when = vort_time(year, month, day, uth)
            if at + 1 >= len(lines) or len(lines[at + 1].split()) != 1:
                return "bad", recs
            count = int(lines[at + 1].split()[0])
            at += 2
            for _ in range(count):
                rec = {"YEAR": year, "MONTH": month, "DAY": day, "UTH": uth,
                       "DATETIME": when}
                for names in VKEYS:
                    if at >= len(lines):
                        return "bad", recs
                    tok = lines[at].split()
                    if len(tok) != len(names):
                        return "bad", recs
                    for name, one in zip(names, tok):
                        if name in (VALL if save_all else VBASE):
                            rec[name] = float(one)
                    at += 1
                recs.append(rec)
    except (ValueError, OverflowError):
        return "bad", recs
    return ("ok" if recs else "empty"), recs
