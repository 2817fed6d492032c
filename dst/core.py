"""Shared pieces of the checks: violations, digests, comparisons, seeds."""
import ctypes
import hashlib
import json
import math
import os
import pickle
import random
import traceback

import numpy as np

from dst.seams import HarnessError


class Violation(Exception):
    """The property is broken; `kind` is a stable short name."""

    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = str(detail)[:2000]


class Unsupported(Exception):
    """A shrunk plan no longer makes sense; never raised by generated ones."""


def rng_for(prop, seed, index):
    return random.Random("{:s}|{:d}|{:d}".format(prop, int(seed), int(index)))


class Digest:
    """Running hash of everything observable in a run, plus distinct states."""

    def __init__(self):
        self.hash = hashlib.blake2b(digest_size=12)
        self.states = set()

    def add(self, *items):
        for item in items:
            self.hash.update(canon(item))

    def state(self, *items):
        h = hashlib.blake2b(digest_size=8)
        for item in items:
            h.update(canon(item))
        self.states.add(h.hexdigest())

    def hex(self):
        return self.hash.hexdigest()


def canon(obj):
    """Bytes that represent a value exactly (NaN included)."""
    if obj is None or isinstance(obj, (bool, int, str)):
        return (type(obj).__name__ + repr(obj)).encode() + b";"
    if isinstance(obj, float):
        return b"nan;" if obj != obj else float(obj).hex().encode() + b";"
    if isinstance(obj, bytes):
        return b"b" + obj + b";"
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind == "f":
            arr = np.array(obj, dtype=float)
            arr[np.isnan(arr)] = np.nan
            return str(arr.shape).encode() + arr.tobytes() + b";"
        return canon([str(obj.shape), obj.tolist()])
    if isinstance(obj, np.generic):
        return canon(obj.item())
    if isinstance(obj, dict):
        return b"{" + b"".join(canon(k) + canon(v) for k, v in
                               sorted(obj.items(), key=lambda x: str(x[0]))
                               ) + b"}"
    if isinstance(obj, (list, tuple)):
        return b"[" + b"".join(canon(x) for x in obj) + b"]"
    return (type(obj).__name__ + str(obj)).encode() + b";"


def public(obj):
    """The attributes an object shows to its users, by name."""
    out = {}
    for key in sorted(vars(obj)):
        if not key.startswith("_"):
            out[key] = getattr(obj, key)
        elif isinstance(getattr(type(obj), key[1:], None), property):
            out[key[1:]] = getattr(obj, key[1:])
    return out


def check(cond, kind, *detail):
    if not cond:
        raise Violation(kind, " ".join(show(d) for d in detail))


def show(obj):
    if isinstance(obj, str):
        return obj
    out = repr(obj)
    return out if len(out) < 400 else out[:400] + "..."


def same_float(a, b, rtol=1e-9, atol=1e-9):
    """Equal up to rounding; NaN equals NaN, infinities equal themselves."""
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same_hour(a, b, atol=1e-6):
    """Equal local times, modulo 24 h."""
    if a != a or b != b:
        return a != a and b != b
    d = math.fmod(abs(a - b), 24.0)
    return min(d, 24.0 - d) <= atol


def flat(obj):
    """Floats of a scalar or array result, in order."""
    arr = np.asarray(obj)
    if arr.dtype == object:
        arr = arr.astype(float)
    return [float(x) for x in arr.ravel()]


def exact(a, b):
    """Bit-level equality of two results (NaN equals NaN), shapes included."""
    return canon(_norm(a)) == canon(_norm(b))


def _norm(obj):
    if isinstance(obj, (tuple, list)):
        return [_norm(x) for x in obj]
    if isinstance(obj, (np.generic,)):
        return obj.item()
    return obj


def jround(plan):
    """The plan as the replay file will carry it."""
    return json.loads(json.dumps(plan))


def forked(work):
    """Result of `work()` in a forked process of its own."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            # Die with the parent, whatever ends it
            ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
            os.close(rfd)
            with os.fdopen(wfd, "wb") as fout:
                fout.write(packed(work))
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as fin:
        data = fin.read()
    os.waitpid(pid, 0)
    return unpack(data)


def packed(work):
    """Outcome of `work()` as bytes, for `unpack` in another process."""
    try:
        out = ("ok", work())
    except Violation as err:
        out = ("violation", (err.kind, err.detail))
    except BaseException:
        out = ("error", traceback.format_exc())
    return pickle.dumps(out)


def unpack(data):
    if not data:
        raise Violation("died", "the process of a part died")
    how, out = pickle.loads(data)
    if how == "violation":
        raise Violation(*out)
    if how == "error":
        raise RuntimeError(out)
    return out


def pick(rng, weighted):
    """Choose from {value: weight} or [(value, weight)]."""
    items = list(weighted.items()) if isinstance(weighted, dict) else weighted
    total = sum(w for _, w in items)
    x = rng.random() * total
    for val, wgt in items:
        x -= wgt
        if x < 0:
            return val
    return items[-1][0]


__all__ = ["Violation", "Unsupported", "HarnessError", "Digest", "canon",
           "check", "show", "same_float", "same_hour", "flat", "exact",
           "jround", "pick", "rng_for"]
