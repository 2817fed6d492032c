"""Write /verif/MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("every run is a pure function of its plan; inputs, operation order, "
          "faults, clock, file system, fresh numpy memory come from the plan. ")
NOTES = {
    "C01": "Cursor and listings against a brute-force model after every step "
           "of seeded histories, listings failing midway included.",
    "C02": "Every pair of walks over seeded time series against the "
           "brute-force nearest-in-tolerance model, with pauses and skips.",
    "C03": "Pairs, pair times and coupled cursors against the model after "
           "every step, failing re-selections included.",
    "C04": "Every coordinate result against independent formulas and, bit by "
           "bit, against a fresh object; stored boundary locations too.",
    "C05": "Arguments, loaded records, pairs and stored boundary locations "
           "compared bit by bit around every call, undisturbed, interrupted "
           "at a seeded line or out of memory at a seeded allocation.",
    "C06": "Every loaded attribute against the model's reading of the file; "
           "I/O faults at seeded events, damaged files, a retry, and objects "
           "that load again.",
    "C07": "Loaded observations against an independent strict reading of the "
           "bytes on the disk: whole, cut, torn or damaged files, I/O faults.",
    "C08": "Every output line against the model's matching, location, rotation "
           "and scaling; then the same conversion under I/O faults, crashes, "
           "a full disk, interrupts or failing allocations, and a rerun.",
    "C09": "Every output line against the model's matching, location and "
           "scaling; then the same conversion under I/O faults, crashes, a "
           "full disk, interrupts or failing allocations, and a rerun.",
    "C10": "Every value of every added column against the model for that "
           "sample alone; calls under I/O faults, interrupts or failing "
           "allocations, then repeated.",
    "C11": "The real downloader against a simulated archive: whenever a fetch "
           "returns, the directory holds exactly the requested members; "
           "attempts in trouble follow each other, then one without.",
    "C12": "Every line of every output against the passes of the plan, placed "
           "by an independent calculation, and loaded back; formatting alone "
           "or right after a simulated fetch, under faults and retries.",
    "C13": "Every answer against an independent selection over seeded "
           "directories, listing orders and times of day; unreadable "
           "directories must not look empty.",
    "C14": "Sessions as simulated threads under seeded schedules against the "
           "same sessions alone, each in a fresh process, bit by bit.",
    "C15": "The same work in processes with other hash seeds, time zones, "
           "directories, listing orders, times of day and fresh memory, "
           "earlier or failed work before it: results compared bit by bit.",
    "C16": "Each operation under one I/O fault at a seeded event: it raises "
           "or its result is the undisturbed one; nothing else on the disk "
           "changes; a retry amid the leftovers gives the right result.",
    "C17": "Seeded work on damaged files, extreme numbers and unordered "
           "times ends within budgets of executed lines and memory in "
           "proportion to its input.",
    "C18": "Every converted element against an independent rotation and "
           "scaling and against a fresh vector.",
}
NOTES["C19"] = ("Boundaries printed along seeded, disturbed histories and "
                "rebuilt in this or another process, under I/O faults too: "
                "records, limits, corrections, pairs and places compared bit "
                "by bit.")
NA = {
    "C20": "Pure functions of their arguments: no state, schedule, time, I/O "
           "or party for a simulator to control or a fault to hit; their use "
           "inside loading and matching is exercised by C02, C06 and C12.",
    "C21": "A pure function of its arguments: nothing for a simulator to "
           "schedule or a fault to hit.",
}
NOT_YET = "No check yet in this version."


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as fin:
        pids = [json.loads(line)["id"] for line in fin]
    checks, rest = [], []
    for pid in pids:
        path = os.path.join(HERE, "dst", "checks", pid.lower() + ".py")
        if pid in NA or not os.path.exists(path) or pid not in NOTES:
            rest.append({"property": pid, "reason": NA.get(pid, NOT_YET)})
            continue
        checks.append({
            "property": pid, "quick_cmd": "sh check.sh {:s} quick".format(pid),
            "thorough_cmd": "sh check.sh {:s} thorough".format(pid),
            "technique": "deterministic simulation with fault injection "
            "(seeded search, reference model)",
            "level": "exploration", "level_note": COMMON + NOTES[pid]})
    out = {"version": 1, "setup_cmd": "sh check.sh selftest",
           "checks": checks, "not_applicable": rest,
           "notes": "No hooks in /repo: the seams are Python's file API, "
           "numpy's allocator, CLOCK_REALTIME, requests, sys.monitoring line "
           "events and the logger. Replay a failure: "
           "sh check.sh replay FILE"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fout:
        json.dump(out, fout, indent=1)
        fout.write("\n")


main()
