"""Runs seeded plans in forked children, minimises failures, writes evidence.

A run is a pure function of its plan: the plan fixes inputs, operations,
schedule and faults.  Batches of runs execute in children forked from one
process that has only imported the code, so no batch sees another's effects.
"""
import gc
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

from dst import core, seams
from dst.core import HarnessError, Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("DST_WORKERS", "0")) or min(
    8, len(os.sched_getaffinity(0)))
CHILD_LIMIT = 240        # wall seconds for one batch: beyond it, a hang
WALL_LIMIT = {"quick": 780, "thorough": 6 * 3600}


def load_check(prop):
    return importlib.import_module("dst.checks." + prop.lower())


def one_run(mod, plan):
    """Execute one plan; returns a dict of what happened."""
    seams.Meter.active = False
    seams.Meter.hook = None
    out = {"ok": True}
    try:
        with seams.Memory(plan.get("memseed", 1), plan.get("memmode", 1)):
            out["stats"] = mod.run(plan) or {}
        late = out["stats"].pop("late", None)
        if late is not None:
            # A finding that did not stop the run from being judged
            out.update(ok=False, kind=late[0], detail=late[1], where="")
    except Violation as err:
        out = {"ok": False, "kind": err.kind, "detail": err.detail,
               "where": _where()}
    except core.Unsupported as err:
        out = {"ok": True, "unsupported": str(err), "stats": {}}
    except HarnessError:
        out = {"ok": False, "harness": traceback.format_exc()}
    except seams.StepLimit as err:
        out = {"ok": False, "kind": "hang", "detail": str(err),
               "where": _where()}
    except MemoryError:
        out = {"ok": False, "kind": "exception:MemoryError",
               "detail": traceback.format_exc()[-1500:]}
    except BaseException as err:
        out = {"ok": False, "kind": "exception:" + type(err).__name__,
               "detail": traceback.format_exc()[-1500:]}
    finally:
        seams.Meter.active = False
        seams.Meter.hook = None
    return out


def _where():
    return traceback.format_exc()[-1200:]


def _child(mod, plans, wfd):
    """Body of a forked child: run the plans, send one pickle per run."""
    code = 0
    try:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("DST_DEBUG"):
            os.dup2(devnull, 2)
        with os.fdopen(wfd, "wb") as out:
            for plan in plans:
                out.write(_frame(one_run(mod, plan)))
                out.flush()
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        os._exit(code)


def _frame(obj):
    data = pickle.dumps(obj)
    return len(data).to_bytes(8, "big") + data


def _unframe(buf):
    out = []
    pos = 0
    while pos + 8 <= len(buf):
        size = int.from_bytes(buf[pos:pos + 8], "big")
        if pos + 8 + size > len(buf):
            break
        out.append(pickle.loads(bytes(buf[pos + 8:pos + 8 + size])))
        pos += 8 + size
    return out


class Job:
    """One forked batch."""

    def __init__(self, mod, key, plans, limit=CHILD_LIMIT):
        self.key, self.plans = key, plans
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            _child(mod, plans, wfd)
        os.close(wfd)
        self.pid, self.fd = pid, rfd
        self.buf = bytearray()
        self.start = time.monotonic()
        self.limit = limit

    def finish(self, killed=False):
        os.close(self.fd)
        if killed:
            os.kill(self.pid, signal.SIGKILL)
        _, status = os.waitpid(self.pid, 0)
        runs = _unframe(self.buf)
        if len(runs) < len(self.plans):
            runs.append({"ok": False, "kind": "hang" if killed else "died",
                         "detail": "status {:d} after {:d} of {:d}".format(
                             status, len(runs), len(self.plans))})
        return runs


def pool(mod, batches, stop, limit=CHILD_LIMIT):
    """Run (key, plans) batches, WORKERS at a time; yields (key, plans, runs).

    `stop()` is asked before each new batch; running ones are always finished.
    """
    live = []
    batches = iter(batches)
    more = True
    while more or live:
        while more and len(live) < WORKERS:
            if stop():
                more = False
                break
            try:
                key, plans = next(batches)
            except StopIteration:
                more = False
                break
            live.append(Job(mod, key, plans, limit))
        if not live:
            break
        ready, _, _ = select.select([j.fd for j in live], [], [], 1.0)
        now = time.monotonic()
        for job in list(live):
            done = killed = False
            if job.fd in ready:
                chunk = os.read(job.fd, 1 << 20)
                job.buf += chunk
                done = not chunk
            elif now - job.start > job.limit:
                done = killed = True
            if done:
                live.remove(job)
                yield job.key, job.plans, job.finish(killed)


def run_alone(mod, plans, limit=60):
    """Run plans in one fresh child; returns the last run's outcome."""
    for _, _, runs in pool(mod, [(0, plans)], lambda: False, limit):
        for run in runs:
            if not run["ok"]:
                return run
        return runs[-1]
    raise HarnessError("no result")


# ------------------------------------------------------------------ shrinking
def _variants(plan, paths):
    """Smaller plans: drop chunks of listed lists, then simplify values."""
    for path in paths:
        for holder, key in _find(plan, path.split(".")):
            seq = holder[key]
            if not isinstance(seq, list) or not seq:
                continue
            size = len(seq)
            step = size
            while step >= 1:
                for lo in range(0, size, step):
                    new = seq[:lo] + seq[lo + step:]
                    holder[key] = new
                    yield core.jround(plan)
                    holder[key] = seq
                step //= 2


def _find(node, parts):
    if len(parts) == 1:
        if parts[0] == "*":
            if isinstance(node, list):
                for i in range(len(node)):
                    yield node, i
        elif isinstance(node, dict) and parts[0] in node:
            yield node, parts[0]
        return
    head, rest = parts[0], parts[1:]
    if head == "*":
        if isinstance(node, list):
            for item in node:
                yield from _find(item, rest)
        elif isinstance(node, dict):
            for key in sorted(node):
                yield from _find(node[key], rest)
    elif isinstance(node, dict) and head in node:
        yield from _find(node[head], rest)


def shrink(mod, plan, kind, budget_s=90):
    """Greedy minimisation; every accepted step reproduces the same kind."""
    start = time.monotonic()
    tried = 0
    paths = getattr(mod, "SHRINK", [])
    custom = getattr(mod, "shrink", None)
    improved = True
    while improved and time.monotonic() - start < budget_s:
        improved = False

        def cands():
            if custom is not None:
                yield from (core.jround(p) for p in custom(core.jround(plan)))
            yield from _variants(core.jround(plan), paths)

        # Speculative parallel evaluation: accept the earliest that works
        todo = []
        gen = cands()
        done = False
        while not done and time.monotonic() - start < budget_s:
            todo = []
            for cand in gen:
                if cand != plan:
                    todo.append(cand)
                if len(todo) >= WORKERS:
                    break
            if not todo:
                break
            res = {}
            for key, _, runs in pool(
                    mod, [(i, [c]) for i, c in enumerate(todo)],
                    lambda: False, 40):
                res[key] = runs[-1]
                tried += 1
            for i, cand in enumerate(todo):
                run = res[i]
                if not run["ok"] and run.get("kind") == kind:
                    plan = cand
                    improved = done = True
                    break
    return plan, tried


# ------------------------------------------------------------------- findings
def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    try:
        with open(path) as fin:
            data = json.load(fin)
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == prop]


def match_finding(findings, run):
    import re
    for item in findings:
        if item["kind"] == run.get("kind") and re.search(
                item["detail"], run.get("detail", "")):
            return item
    return None


# ----------------------------------------------------------------------- main
def plan_for(mod, prop, seed, index, tier):
    plan = mod.gen(core.rng_for(prop, seed, index), tier, index)
    return core.jround(plan)


def execute(prop, tier, seed, runs=None, only=None):
    start = time.monotonic()
    mod = load_check(prop)
    total = runs or mod.RUNS[tier]
    size = getattr(mod, "BATCH", 25)
    if hasattr(mod, "prepare"):
        mod.prepare()
    gc.collect()
    gc.freeze()
    findings = known_findings(prop)
    found_known = {}
    first = [None]          # lowest failing run index and its outcome
    timed_out = [False]

    def stop():
        if time.monotonic() - start > WALL_LIMIT[tier]:
            timed_out[0] = True
            return True
        return first[0] is not None

    indices = list(range(total)) if only is None else only
    chunks = [indices[i:i + size] for i in range(0, len(indices), size)]
    batches = ((chunk, [plan_for(mod, prop, seed, i, tier) for i in chunk])
               for chunk in chunks)
    agg = Stats(mod)
    harness = None
    digests = {}
    for chunk, plans, outs in pool(mod, batches, stop):
        for n, run in enumerate(outs):
            if run["ok"]:
                if "unsupported" in run:
                    harness = "generated plan refused: " + run["unsupported"]
                agg.add(run["stats"], plans[n])
                if len(digests) < 4000:
                    digests[chunk[n]] = run["stats"].get("digest")
                continue
            if run.get("harness"):
                harness = run["harness"]
                continue
            item = match_finding(findings, run)
            if item is not None:
                found_known[item["id"]] = item
                if "stats" in run:
                    agg.add(run["stats"], plans[n])
                    agg.known_runs += 1
                continue
            if first[0] is None or chunk[n] < first[0][0]:
                first[0] = (chunk[n], run, plans[:n + 1])
    for item in found_known.values():
        print("KNOWN-FINDING: property={:s} {:s}".format(prop, item["what"]))
    if first[0] is None and harness is not None:
        print("HARNESS ERROR\n" + harness, file=sys.stderr)
        return 2
    mismatch = None
    if first[0] is None and not timed_out[0] and only is None:
        sample = sorted(digests)[::max(1, len(digests) // 24)][:24]
        mismatch = repeat_elsewhere(prop, tier, seed, sample, digests)
        if mismatch and getattr(mod, "REPEAT_IS_VIOLATION", False):
            index = mismatch[0]
            first[0] = (index, {"kind": "not-reproducible", "detail":
                                "run {:d} differs in another process".format(
                                    index)},
                        [plan_for(mod, prop, seed, index, tier)])
    wall = time.monotonic() - start
    code = 0
    if first[0] is not None:
        index, run, plans = first[0]
        path, info = report(mod, prop, tier, seed, index, run, plans)
        print("VIOLATION property={:s} replay={:s}".format(prop, path))
        print("  kind: {:s}\n  {:s}".format(info["kind"], info["detail"]))
        code = 1
    elif timed_out[0]:
        print("wall limit reached before the search was complete",
              file=sys.stderr)
        code = 2
    wall = time.monotonic() - start
    agg.write(prop, tier, seed, mod, wall, 1 if code == 1 else 0, mismatch,
              len(found_known))
    if code == 0:
        print("OK property={:s} runs={:d} wall={:.1f}s".format(
            prop, agg.runs, wall))
    return code


def repeat_elsewhere(prop, tier, seed, sample, digests):
    """Re-run some seeds in a new process with another hash seed."""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "4242"
    cmd = [sys.executable, "-m", "dst.again", prop, tier, str(seed),
           ",".join(str(i) for i in sample)]
    res = subprocess.run(cmd, env=env, cwd=HERE, stdout=subprocess.PIPE,
                         timeout=600)
    try:
        again = json.loads(res.stdout.decode().strip().splitlines()[-1])
    except (ValueError, IndexError):
        raise HarnessError("repeat process failed: {:d}".format(
            res.returncode))
    return sorted(i for i in sample if again.get(str(i)) != digests[i])


def report(mod, prop, tier, seed, index, run, plans):
    """Minimise, confirm in a fresh child and write the replay file."""
    kind = run["kind"]
    history = [plans[-1]]
    tried = 0
    if kind == "not-reproducible":
        alone = run
    else:
        alone = run_alone(mod, history, 120)
    if alone["ok"]:
        # Needs the runs before it in the same process
        history = list(plans)
        alone = run_alone(mod, history, CHILD_LIMIT)
        if not alone["ok"]:
            lo = len(history) - 1
            while lo > 0 and len(history) > 1:
                cand = history[1:]
                res = run_alone(mod, cand, CHILD_LIMIT)
                if res["ok"] or res.get("kind") != kind:
                    break
                history = cand
                lo -= 1
    if not alone["ok"] and len(history) == 1 and kind != "not-reproducible" \
            and not alone.get("harness"):
        kind = alone["kind"]
        small, tried = shrink(mod, history[0], kind)
        history = [small]
        final = run_alone(mod, history, 120)
        if not final["ok"] and final.get("kind") == kind:
            alone = final
        else:
            history = [plans[-1]]
    info = dict(run)
    if not alone["ok"] and not alone.get("harness"):
        info.update(alone)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "{:s}-{:d}-{:d}.json".format(
        prop, seed, index))
    with open(path, "w") as fout:
        json.dump({"property": prop, "tier": tier, "seed": seed,
                   "index": index, "kind": info["kind"],
                   "detail": info["detail"], "where": info.get("where", ""),
                   "shrink_candidates": tried,
                   "reproduced_alone": len(history) == 1,
                   "plans": history}, fout, indent=1, sort_keys=True)
    return path, info


def replay(path):
    with open(path) as fin:
        data = json.load(fin)
    mod = load_check(data["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    if data["kind"] == "not-reproducible":
        a = one_digest(data["property"], data["tier"], data["seed"],
                       data["index"])
        bad = repeat_elsewhere(data["property"], data["tier"], data["seed"],
                               [data["index"]], {data["index"]: a})
        run = {"ok": not bad, "kind": data["kind"], "detail": ""}
    else:
        run = run_alone(mod, data["plans"], CHILD_LIMIT)
    if run["ok"]:
        print("replay: no violation")
        return 0
    if run.get("harness"):
        print(run["harness"], file=sys.stderr)
        return 2
    print("VIOLATION property={:s} replay={:s}".format(data["property"], path))
    print("  kind: {:s}\n  {:s}".format(run["kind"], run["detail"]))
    print("  same as recorded: {:}".format(
        (run["kind"], run["detail"]) == (data["kind"], data["detail"])))
    return 1


def one_digest(prop, tier, seed, index):
    mod = load_check(prop)
    run = run_alone(mod, [plan_for(mod, prop, seed, index, tier)], 120)
    return run.get("stats", {}).get("digest")


class Stats:
    """Aggregated coverage of a check."""

    def __init__(self, mod):
        self.mod = mod
        self.runs = 0
        self.nontrivial = set()
        self.states = set()
        self.fired = {}
        self.counts = {}
        self.sim_s = 0.0
        self.known_runs = 0
        self.samples = []

    def add(self, stats, plan):
        self.runs += 1
        if stats.get("nontrivial"):
            self.nontrivial.add(stats.get("digest"))
        self.states.update(stats.get("states", ()))
        for key, val in stats.get("fired", {}).items():
            self.fired[key] = self.fired.get(key, 0) + val
        for key, val in stats.get("counts", {}).items():
            self.counts[key] = self.counts.get(key, 0) + val
        self.sim_s += stats.get("sim_s", 0.0)
        if len(self.samples) < 2 and stats.get("nontrivial"):
            text = json.dumps(plan)
            if len(text) < 4000:
                self.samples.append(plan)
            elif not self.samples and self.runs > 40:
                self.samples.append(text[:1500])

    def write(self, prop, tier, seed, mod, wall, violations, mismatch, known):
        cov = {"evaluations": self.runs,
               "distinct_nontrivial": len(self.nontrivial),
               "rule": mod.RULE,
               "samples": self.samples or ["none"],
               "runs_per_hour": int(self.runs / max(wall, 1e-3) * 3600),
               "seeds": {"base": seed, "first_index": 0, "count": self.runs},
               "simulated_time_covered_s": round(self.sim_s, 1),
               "faults_injected": dict(sorted(self.fired.items())),
               "operations": dict(sorted(self.counts.items())),
               "distinct_states": len(self.states),
               "state_measure": getattr(mod, "STATE_MEASURE",
                                        "see the check's module docstring"),
               "real_components": mod.REAL,
               "stubbed_components": mod.STUB,
               "repeat_process_mismatches": mismatch or [],
               "known_findings_seen": known,
               "runs_that_met_a_known_finding": self.known_runs}
        out = {"property": prop, "tier": tier, "seed": seed,
               "level": mod.LEVEL, "coverage": cov,
               "assumptions": getattr(mod, "ASSUMES", []),
               "wall_s": round(wall, 2), "violations": violations}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", prop + ".json")
        with open(path, "w") as fout:
            json.dump(out, fout, indent=1, default=str)
