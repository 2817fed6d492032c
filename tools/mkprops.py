"""Write /verif/properties.jsonl (one place to edit the property texts)."""
import json
import os

P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, state=(),
         observe=(), hook=None):
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s))
                                    for s in state],
                          "mechanism": [dict(zip(("name", "where"), m))
                                        for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})


B = "ocbpy/_boundary.py"
CB = "ocbpy/cycle_boundary.py"

prop("C01", "Quality cycling visits exactly the acceptable boundary records",
     "From any cursor position (on a record, before the first or past the "
     "last), asking a loaded boundary for its next good record moves the cursor to the first later record whose figure of merit "
     "lies within the (default or requested, inclusive) merit limits and that "
     "meets every extra selection criterion ('min'/'max' exclusive, "
     "'mineq'/'maxeq' inclusive, 'equal'), or past the last record if none is "
     "left; criteria naming unknown attributes are ignored. Listing all good "
     "records returns exactly that set in record order, whatever the cursor, "
     "and leaves the cursor where it was, even when the listing fails part way.",
     ["histories", "inputs", "fault_sequences"],
     "every boundary file, every mix of merit limits and criteria, every "
     "history of cursor moves, listings and failing or interrupted calls",
     "tests step a handful of records of three sample files with one or two "
     "criteria; they never interleave listings with stepping, hit NaN or limit "
     "values exactly, or fail a listing midway",
     [B, CB], [("get_next_good_ocb_ind", B), ("retrieve_all_good_indices", CB)],
     [("rec_ind", "record cursor", B), ("min_fom/max_fom",
                                        "instrument merit limits", B)],
     ["rec_ind after each call", "returned index list"])

prop("C02", "Time matching pairs data with the closest good boundary in tolerance",
     "Walking time-sorted data against a freshly loaded boundary (or dual "
     "boundary) that holds records (or pairs) at strictly increasing times pairs every data time that has an acceptable "
     "record within the tolerance (inclusive) with the acceptable record "
     "closest in time (the earlier one on a tie), and skips every other data "
     "time. No pair ever lies outside the tolerance or uses an unacceptable "
     "record, no matter where the walk is paused, resumed or skips ahead, and "
     "the walk ends with an exhausted index or cursor, never an exception.",
     ["inputs", "histories", "schedules"],
     "all strictly increasing record times, all non-decreasing data times "
     "(gaps, bursts, clock jumps), tolerances, merit limits and criteria, all "
     "ways of stepping the walk",
     "tests match a few stamps against one sample file; the guarantee is about "
     "every relative layout of two time series and every walk over them",
     [CB], [("match_data_ocb", CB)],
     [("rec_ind", "boundary cursor", B)],
     ["returned data index and rec_ind per call"])

prop("C03", "Dual boundaries pair only good, simultaneous records and stay coupled",
     "A dual boundary holds, in time order, one pair for each acceptable "
     "open-closed record that has an acceptable equatorward record within the "
     "allowed separation (inclusive), namely with the equatorward record "
     "closest in time, and no other pair; re-selecting with other limits "
     "rebuilds exactly that set and starts at the first pair. Whenever the "
     "dual cursor is on a pair, both underlying boundaries are on that pair's "
     "records, and when the cursor is before the first or past the last pair, "
     "so are both of theirs.",
     ["inputs", "histories"],
     "all pairs of record series and quality limits, all histories of "
     "re-selection, stepping and direct cursor assignment",
     "tests build pairs from one EAB and one OCB file with identical times and "
     "a cadence coarser than the separation",
     [B, CB], [("set_good_ind", B), ("rec_ind setter", B),
               ("match_data_ocb", CB)],
     [("ocb_ind/eab_ind/dtime", "paired indices and times", B)],
     ["ocb_ind, eab_ind, dtime, records, sub-object cursors"])

prop("C04", "Coordinate queries depend only on the selected record and the query",
     "At any point of any history, converting positions to or from boundary "
     "coordinates (open-closed, equatorward or dual), locating the boundary at "
     "given local times, and computing the normalisation radii give the values "
     "of the documented formulas for the record under the cursor, identical to "
     "a freshly loaded object asked the same thing, element by element for "
     "array input, and the latitudes, local times and longitudes stored for a "
     "record belong to the same request. With the cursor off the records every result is NaN, points "
     "converted to boundary coordinates from the other hemisphere give NaN "
     "while the rest are unaffected, and converting a position forth and back "
     "returns it wherever its boundary coordinate stays in the hemisphere.",
     ["histories", "inputs", "schedules"],
     "all boundary records, correction functions, scalar/array/integer query "
     "points in both hemispheres, and histories of queries, cursor moves, "
     "boundary-location calls, failed calls",
     "tests check a few points on a few records of pristine objects; the "
     "effect of previous calls, failed calls and mixed inputs is unexplored",
     [B, "ocbpy/ocb_correction.py", "ocbpy/ocb_time.py"],
     [("normal_coord", B), ("revert_coord", B), ("get_aacgm_boundary_lat", B),
      ("calc_r", B)],
     [("aacgm_boundary_lat/mlt", "stored boundary locations", B)],
     ["returned arrays and stored boundary locations"])

prop("C05", "Operations never alter the caller's data or the loaded boundary",
     "No cycling, matching, pairing, coordinate, boundary-location, vector or "
     "instrument-conversion call changes the arrays, lists, dictionaries or "
     "observation values the caller passed in, nor any loaded boundary record "
     "value. Stored boundary locations change only in the records a "
     "boundary-location request names (and only if unset or overwriting was "
     "asked for): a dual-boundary query without overwriting leaves earlier "
     "ones as they were, also when the query fails or is interrupted part way.",
     ["histories", "inputs", "fault_sequences"],
     "all argument kinds (float/integer/read-only arrays, lists, dicts), all "
     "histories of calls, exceptions, allocation failures and interrupts at "
     "any point",
     "tests compare returned values only and never look at their own inputs "
     "again, nor inject failures",
     [B, CB, "ocbpy/ocb_time.py", "ocbpy/ocb_scaling.py",
      "ocbpy/instruments/pysat_instruments.py",
      "ocbpy/instruments/general.py"],
     [("normal_coord", B), ("get_aacgm_boundary_lat", B),
      ("fix_range", "ocbpy/ocb_time.py"),
      ("add_ocb_to_data", "ocbpy/instruments/pysat_instruments.py")],
     [("aacgm_boundary_*", "stored boundary locations", B)],
     ["snapshots of inputs and records before/after each call"])

prop("C06", "Boundary files load faithfully in full or not at all",
     "Loading a boundary file (IMAGE, AMPERE or DMSP layout, or a custom "
     "column list) yields one record per data line inside the requested "
     "(inclusive, either end optional) time window, in file order, with its "
     "time and every column as written, pole location derived where the file "
     "gives x/y, instrument merit limits and correction set, and the cursor "
     "before the first record. An unreadable, missing, empty or oversized file "
     "yields a boundary with no file and no records, and a read that fails "
     "part way raises rather than leaving an object that claims partial data. "
     "Loading again on the same object (another period, another file) gives "
     "what a new object would hold, or raises and changes nothing.",
     ["inputs", "fault_sequences", "configurations", "histories"],
     "all record contents and counts (one included), windows, instruments, "
     "hemispheres, and storage faults (short reads, I/O errors, truncation, "
     "files vanishing between calls)",
     "tests load three small healthy files",
     [B, "ocbpy/instruments/general.py", "ocbpy/ocb_time.py"],
     [("load", B), ("inst_defaults", B),
      ("test_file", "ocbpy/instruments/general.py")], (),
     ["all record attributes after construction"])

prop("C07", "Observation files load every value exactly or fail loudly",
     "The SuperMAG, vorticity and generic column loaders return every "
     "observation of the file, in order, under its own name and time stamp, "
     "with documented fill values replaced, for any block structure and "
     "number of rows (one included). A file cut or damaged so that its "
     "declared structure no longer fits its contents, or a read error, is "
     "reported by an "
     "exception or an empty/none result, never by silently wrong, shifted or "
     "missing observations.",
     ["inputs", "fault_sequences"],
     "all well-formed files, and truncation or I/O faults at every position",
     "tests read four sample files with a fixed structure and no damage",
     ["ocbpy/instruments/supermag.py", "ocbpy/instruments/vort.py",
      "ocbpy/instruments/general.py"],
     [("load_supermag_ascii_data", "ocbpy/instruments/supermag.py"),
      ("load_vorticity_ascii_data", "ocbpy/instruments/vort.py"),
      ("load_ascii_data", "ocbpy/instruments/general.py")], (),
     ["returned dictionaries"])

prop("C08", "SuperMAG conversion writes exactly the matchable observations",
     "The output of a SuperMAG conversion is a header plus one line, in input "
     "order, for each finite observation of the processed hemisphere whose "
     "time has an acceptable boundary within the tolerance, carrying the "
     "input values and the boundary-relative location and scaled vector "
     "for the closest such boundary of the freshly loaded (or rewound) "
     "boundary object, and nothing else; no match at all gives a "
     "header-only file, and a boundary without records is reported in the "
     "log and leaves the output alone. After any I/O error or crash the output file "
     "is a prefix of that text, the failure reaches the caller, and a rerun "
     "produces the complete file.",
     ["inputs", "crash_points", "fault_sequences", "configurations"],
     "all observation/boundary layouts in time, hemispheres, merit limits, "
     "single or dual boundaries, scaling choices; write/read faults and "
     "crashes at any I/O step",
     "tests compare one sample file per hemisphere with stored output",
     ["ocbpy/instruments/supermag.py", "ocbpy/ocb_scaling.py", CB],
     [("supermag2ascii_ocb", "ocbpy/instruments/supermag.py")], (),
     ["bytes of the output file"])

prop("C09", "Vorticity conversion writes exactly the matchable observations",
     "The output of a vorticity conversion is a header plus one line, in input "
     "order, for each observation of the processed hemisphere whose time has "
     "an acceptable boundary within the tolerance, giving its time, "
     "(optionally) all its input values, its location relative to the closest "
     "such boundary of the freshly loaded (or rewound) boundary object and "
     "the vorticity scaled by it, and nothing else; no match at all gives a "
     "header-only file, and a boundary without records or input without the "
     "hemisphere's data is reported in the log and leaves the output alone. "
     "After any I/O error or crash the output file is a prefix of that text, the failure reaches the "
     "caller, and a rerun produces the complete file.",
     ["inputs", "crash_points", "fault_sequences", "configurations"],
     "all observation/boundary layouts in time, hemispheres, merit limits, "
     "single or dual boundaries, scaling choices; write/read faults and "
     "crashes at any I/O step",
     "tests compare one sample file per hemisphere with stored output",
     ["ocbpy/instruments/vort.py", CB],
     [("vort2ascii_ocb", "ocbpy/instruments/vort.py")], (),
     ["bytes of the output file"])

prop("C10", "Boundary columns added to a pysat dataset match each sample's own time",
     "Adding boundary coordinates to a pysat dataset (tabular or "
     "multi-dimensional) stores, at each sample of the processed hemisphere "
     "with finite inputs whose time has an acceptable boundary within the "
     "tolerance, the location, correction and scaled scalar and vector values "
     "that the closest such boundary gives for that sample alone, and NaN at "
     "every other sample. Every requested output gets a column with metadata "
     "(a vector whose components share no set of dimensions may be refused), "
     "existing data are untouched, and variables never influence one another.",
     ["inputs", "configurations", "histories"],
     "all sample/boundary layouts in time, missing values, dimensions, sets "
     "of scalar and vector variables, single and dual boundaries",
     "tests use one pysat test instrument with a fixed layout and mostly check "
     "column names and a few values",
     ["ocbpy/instruments/pysat_instruments.py", "ocbpy/ocb_scaling.py", CB],
     [("add_ocb_to_data", "ocbpy/instruments/pysat_instruments.py"),
      ("reshape_pad_mask_flatten", "ocbpy/instruments/pysat_instruments.py")],
     (), ["added columns and metadata"])

prop("C11", "Fetching DMSP boundaries reports only complete, requested files",
     "A successful DMSP fetch returns exactly the archive members for the "
     "requested satellites whose date lies in [start, end), each present in "
     "the output directory with the archive's exact bytes, and leaves no "
     "temporary archive or checksum file when clean-up is on. Any download, "
     "checksum, archive or disk failure raises instead of returning, the "
     "standard output and error streams are always put back as they were, and "
     "a later retry succeeds whatever a failed or crashed attempt left behind.",
     ["fault_sequences", "crash_points", "configurations"],
     "all archive contents, request windows and satellite lists, all "
     "network/disk fault sequences, crashes at any step, retries",
     "tests need the live Zenodo service, are skipped offline, and inject no "
     "faults",
     ["ocbpy/boundaries/dmsp_ssj_files.py"],
     [("fetch_ssj_boundary_files", "ocbpy/boundaries/dmsp_ssj_files.py"),
      ("evaluate_dmsp_boundary_file", "ocbpy/boundaries/dmsp_ssj_files.py")],
     [("sys.stdout/sys.stderr", "captured during download",
       "ocbpy/boundaries/dmsp_ssj_files.py")],
     ["returned list, directory contents, streams, exceptions"])

prop("C12", "DMSP formatting puts every pass once in the right boundary file",
     "Formatting DMSP daily files writes, next to the inputs, four boundary "
     "files (open-closed/equatorward, north/south) in which every satellite "
     "pass of every readable input appears exactly once, in input order, in "
     "its own hemisphere and boundary, with its spacecraft, mid-pass time, "
     "merit and the circle through its two boundary points; missing input "
     "files and files without the expected columns are logged and contribute "
     "nothing, any other failure raises. The files load back as boundaries "
     "with those values, and when fetching and formatting in one step with "
     "clean-up on, only these files remain, while a failure never deletes "
     "unprocessed daily files.",
     ["inputs", "fault_sequences", "crash_points"],
     "all numbers of passes and input files, satellites, dates, directory "
     "names, bad files in any position, I/O faults",
     "tests format one real file in the test directory",
     ["ocbpy/boundaries/dmsp_ssj_files.py", B],
     [("format_ssj_boundary_files", "ocbpy/boundaries/dmsp_ssj_files.py"),
      ("fetch_format_ssj_boundary_files",
       "ocbpy/boundaries/dmsp_ssj_files.py")], (),
     ["file contents, directory listing, reloaded boundaries"])

prop("C13", "Default boundary file choice is a function of the request alone",
     "Choosing a default boundary file gives a file of the requested boundary "
     "type, hemisphere and instrument family whose period overlaps the "
     "requested one, following the documented instrument preference, or none "
     "if there is no such file. The choice does not depend on directory "
     "listing order, on other files in the directory (badly named ones "
     "included) or on the time of day the question is asked.",
     ["configurations", "schedules", "fault_sequences"],
     "all directory contents and listing orders, requests, and system clock "
     "values",
     "tests see one fixed directory in one listing order at one clock",
     ["ocbpy/boundaries/files.py"],
     [("get_boundary_files", "ocbpy/boundaries/files.py"),
      ("get_default_file", "ocbpy/boundaries/files.py")], (),
     ["returned path and instrument"])

prop("C14", "Independent boundary sessions do not affect each other",
     "Sessions that use separate boundary, vector and output objects give "
     "the same results and the same output files whether run alone, one after "
     "the other, or interleaved at any point by threads, and creating, moving "
     "or querying one object never changes another.  (AACGMV2 itself is "
     "taken to be a function of its arguments; its longitude from magnetic "
     "local time depends, by up to 0.005 degrees, on the dates of earlier "
     "calls.)",
     ["schedules", "histories"],
     "all interleavings of several sessions' operations at source-line "
     "granularity",
     "tests run one object at a time on one thread",
     [B, CB, "ocbpy/ocb_scaling.py", "ocbpy/ocb_correction.py",
      "ocbpy/instruments/supermag.py", "ocbpy/instruments/vort.py"],
     [("per-object state, no module-level caches", B)], (),
     ["results of each session vs. its solo run"])

prop("C15", "Results are reproducible regardless of memory contents and hashing",
     "The same calls on the same inputs give bit-identical values, text "
     "representations, warnings and output files in every process: nothing "
     "depends on the previous contents of memory, on hash seeds, on directory "
     "order or on what was computed before.  (AACGMV2 itself is taken to be "
     "a function of its arguments.)",
     ["schedules", "configurations", "inputs"],
     "all inputs with NaNs and masks, all prior memory contents, all hash "
     "seeds",
     "tests run once with one hash seed and whatever memory they happen to get",
     [B, "ocbpy/vectors.py", "ocbpy/ocb_time.py", "ocbpy/ocb_scaling.py",
      "ocbpy/instruments/vort.py"],
     [("masked numpy operations", "ocbpy/vectors.py"),
      ("fix_range", "ocbpy/ocb_time.py"), ("__str__", B)], (),
     ["values, str/repr, log output"])

prop("C16", "Storage errors always surface and files are always closed",
     "When opening, reading, writing, flushing, closing, listing or removing "
     "a file fails during a load, conversion, formatting or fetch, the call "
     "raises (or, where documented, logs and returns an empty result) "
     "and never reports success; after "
     "success or failure every file it opened is closed and files it did not "
     "have to write are unchanged.",
     ["fault_sequences", "crash_points"],
     "one or more errors at every I/O step of every file-using entry point",
     "tests never make an I/O call fail",
     [B, "ocbpy/instruments/supermag.py", "ocbpy/instruments/vort.py",
      "ocbpy/instruments/general.py", "ocbpy/boundaries/dmsp_ssj_files.py"],
     [("with-blocks around file use", "ocbpy/instruments/supermag.py")], (),
     ["exceptions, open handles, file contents"])

prop("C17", "Every operation finishes in bounded work on any stored data",
     "Loading, cycling, matching, pairing, converting and formatting all "
     "terminate, with a result or an exception, in work bounded by the size "
     "of their inputs, whatever numbers (NaN, infinite, huge, fill values) or "
     "damage the input files or arguments contain.",
     ["inputs", "fault_sequences", "histories"],
     "all file contents including corrupt and extreme values, all cursor "
     "positions and argument values",
     "tests use physically sensible values only",
     [CB, "ocbpy/ocb_time.py", "ocbpy/vectors.py", "ocbpy/instruments/vort.py",
      B],
     [("while loops", CB), ("fix_range", "ocbpy/ocb_time.py"),
      ("load_vorticity_ascii_data", "ocbpy/instruments/vort.py")], (),
     ["executed source lines per call"])

prop("C18", "Vector conversion rotates and scales, and only that",
     "Converting vectors (not in line with both poles) into boundary "
     "coordinates rotates their horizontal "
     "components about the vertical by the angle at the vector between the "
     "magnetic and boundary poles and applies the scaling function with the "
     "record's radii: without scaling magnitude and vertical component are "
     "preserved, and each array element equals its scalar conversion. "
     "Geographic locations or components, in any combination with magnetic "
     "ones, are first brought to magnetic coordinates with the requested "
     "tracing at the vector's height. The "
     "result depends only on the vector's current components, location and "
     "boundary record, whatever indices or components were set, converted or "
     "cleared before, and repeating the conversion changes nothing.",
     ["histories", "inputs"],
     "all vector locations and directions relative to both poles, both "
     "hemispheres, scalar/array shapes, index re-assignments, repeated and "
     "interleaved conversions",
     "tests check stored numbers for a few vectors on pristine objects",
     ["ocbpy/ocb_scaling.py", "ocbpy/vectors.py"],
     [("set_ocb", "ocbpy/ocb_scaling.py"),
      ("scale_vector", "ocbpy/ocb_scaling.py"),
      ("adjust_vector", "ocbpy/vectors.py")],
     [("ocb_n/e/z/mag", "converted vector", "ocbpy/ocb_scaling.py")],
     ["ocb_n, ocb_e, ocb_z, ocb_mag"])

prop("C19", "The printed form of a boundary rebuilds the same boundary",
     "Evaluating the printed representation of a loaded boundary or dual "
     "boundary in a process that sees the same files, at any time in its "
     "history, constructs an object with the same records, limits, "
     "corrections and (for dual boundaries) pairs of the default selection; "
     "an object without data can be printed and rebuilt as well.",
     ["histories", "configurations"],
     "all instruments, windows, hemispheres, correction settings, and "
     "histories before printing; restart in between",
     "tests rebuild one or two default-constructed objects",
     [B], [("__repr__", B)], (), ["attributes of the rebuilt object"])

# Not claimed (pure functions)
prop("C20", "Calendar and angle conversions are exact",
     "Converting year/second-of-year, year-day, date/time strings and "
     "seconds-of-day to time stamps gives the instant they denote, and "
     "degree/hour/radian conversions are exact up to rounding and wrap into "
     "their documented range.",
     ["inputs"], "all argument values",
     "tests sample a few values",
     ["ocbpy/ocb_time.py"], [("convert_time", "ocbpy/ocb_time.py")], (),
     ["returned values"])
prop("C21", "Satellite-track test accepts exactly points near the pass",
     "A location is reported as on the satellite track exactly when it lies "
     "within the allowed distance of the line through the two boundary "
     "crossings and is not further equatorward than the allowed buffer.",
     ["inputs"], "all argument values", "tests sample a few values",
     [CB], [("satellite_track", CB)], (), ["returned mask"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fout:
    for p in P:
        fout.write(json.dumps(p) + "\n")
