"""Fault plans: positions are fractions of the events of a fault-free run."""
from dst import core

ERRNOS = ["EIO", "EIO", "ENOSPC", "EACCES", "EMFILE", "ENOMEM", "ENOENT"]


def gen(rng, kinds, most=2):
    out = []
    for _ in range(rng.choice([1] * 3 + list(range(1, most + 1)))):
        kind = core.pick(rng, kinds)
        fault = {"frac": rng.random(), "kind": kind}
        if kind == "errno":
            fault["errno"] = rng.choice(ERRNOS)
            if rng.random() < .15:
                fault["sticky"] = True
        elif kind in ("truncate", "crash"):
            fault["part"] = rng.random()
        elif kind in ("short_write", "short_read", "torn_then_enospc"):
            fault["size"] = rng.choice([1, 2, 7, 100, 4096])
        out.append(fault)
    return out


def place(faults, events):
    """Absolute positions in a run of `events` I/O events."""
    out = []
    for fault in faults:
        fault = dict(fault)
        fault["at"] = min(events - 1, int(fault.pop("frac") * events)) \
            if events else 0
        out.append(fault)
    return out


def tally(fs, fired):
    for key, val in fs.fired.items():
        fired[key] = fired.get(key, 0) + val


def closed(fs, where):
    """Every file opened by the code is closed, without help of the GC."""
    core.check(not fs.handles, "file-left-open", where,
               sorted(h.path for h in fs.handles.values()))
    core.check(not fs.leaks, "file-closed-by-gc", where, fs.leaks)
    core.check(not fs.escapes, "escaped", where, fs.escapes)
