"""C08: conversion of smag files (the shared body is dst/conv.py)."""
from dst import conv

RUNS = {"quick": 12000, "thorough": 150000}
BATCH = 60
LEVEL = "exploration"
RULE = ("seeded boundaries, observation files of 0-12 times and one trouble "
        "(I/O faults, crash, full disk, interrupt, failing allocation); "
        "non-trivial if lines were due and some observation was not or the "
        "trouble hit")
STATE_MEASURE = ("distinct (boundary kind, scaling, lines due, trouble, "
                 "ending, state of the output) tuples")
REAL = ["conversion and loader of the instrument", "ocbpy boundaries, matching"
        " and scaling", "numpy"]
STUB = ["file system (in memory, with faults)", "ocbpy log handler",
        "numpy allocator"]
ASSUMES = ["observation times do not go back within a file",
           "the boundary passed in is freshly loaded"]
SHRINK = ["obs.blocks", "series.rows", "dual.ocb.rows", "dual.eab.rows",
          "trouble.faults"]
run = conv.run


def gen(rng, tier, index):
    return conv.gen(rng, "smag")
