"""Show that every seam works before any check relies on it."""
import datetime as dt
import os

import numpy as np

from dst import seams, simfs


def main():
    with seams.Clock(86400.0 * 365 + 5):
        assert dt.datetime.now() == dt.datetime(1971, 1, 1, 0, 0, 5)
    with seams.Memory(7, 4):
        assert np.empty(5)[3] == 1000.0
    with seams.Memory(7, 1, 0) as mem:
        try:
            np.empty(2000)
            raise SystemExit("allocation did not fail")
        except MemoryError:
            assert mem.failed() == 1
    with simfs.SimFS({"/vsim/a": "text"},
                     faults=[{"at": 2, "kind": "errno"}]) as fs:
        with open("/vsim/a") as fin:
            try:
                fin.read()
                fin.read()
                raise SystemExit("read did not fail")
            except OSError:
                pass
        try:
            os.remove("/etc/hostname")
            raise SystemExit("escaped")
        except PermissionError:
            assert fs.escapes
    from ocbpy import ocb_time
    with seams.Steps(10 ** 6) as steps:
        ocb_time.deg2hr(15.0)
    assert steps.used > 0
    print("seams work")
    return 0
