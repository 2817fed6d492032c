"""plant.py [--no-tests] ID...: confirm planted bugs of /verif/seeded in copies.

For each: the demo passes on the unchanged tree and fails with the patch, the
stable tests still pass, and whether the property's check reports it.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, limit=900):
    full = dict(os.environ)
    full.update(env or {})
    try:
        res = subprocess.run(cmd, cwd=cwd, env=full, shell=True, timeout=limit,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace")
        return res.returncode, res.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(bug, tests=True):
    src = os.path.join(HERE, "seeded", bug)
    with open(os.path.join(src, "meta.json")) as fin:
        prop = json.load(fin)["property"]
    copy = "/tmp/pb_" + bug
    home = copy + "_home"
    demo = copy + "_demo"
    out = {"bug": bug, "prop": prop}
    for path in (copy, home, demo):
        shutil.rmtree(path, ignore_errors=True)
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        os.makedirs(home + "/pysatData")
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns(
            "*.diff", "*.patch", "meta.json"))
        env = {"HOME": home, "PYTHONPATH": copy, "PYTHONHASHSEED": "0",
               "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1",
               "http_proxy": "http://127.0.0.1:9",
               "https_proxy": "http://127.0.0.1:9", "OMP_NUM_THREADS": "1",
               "OPENBLAS_NUM_THREADS": "1"}
        code, text = sh("bash {:s}/demo.sh".format(demo), copy, env, 300)
        out["demo_clean"] = code
        if code:
            out["log"] = text[-1500:]
            return out
        code, text = sh("git apply {:s}/patch.diff".format(src), copy)
        if code:
            out["apply"] = text
            return out
        code, text = sh("bash {:s}/demo.sh".format(demo), copy, env, 300)
        out["demo_bug"] = code
        out["demo_says"] = text[-200:].strip()
        if tests:
            sh(PY + " -c \"import pysat; pysat.params['data_dirs'] = "
               "'{:s}/pysatData'\"".format(home), copy, env)
            xml = home + "/junit.xml"
            sh(PY + " -m pytest -q -p no:cacheprovider --timeout=300 "
               "--continue-on-collection-errors -o junit_family=xunit2 "
               "--junitxml={:s} ocbpy/tests".format(xml), copy, env)
            sh("python3 /opt/vp/results.py {0:s}/out.json junit:{0:s}/"
               "junit.xml".format(home), copy)
            with open(home + "/out.json") as fin:
                got = set(json.load(fin)["passed"])
            with open("/opt/vp/BASELINE.json") as fin:
                base = json.load(fin)["stable"]
            out["tests_broken"] = [t for t in base if t not in got][:5]
            sh("git stash -q -u; git stash apply -q", copy)
        code, text = sh("sh check.sh {:s} quick".format(prop), HERE,
                        {"DST_REPO": copy})
        out["check"] = code
        out["says"] = [line for line in text.split("\n") if "VIOLATION" in line
                       or "kind:" in line][:2]
        if code not in (0, 1):
            out["says"] = text[-600:]
    finally:
        for path in (copy, home, demo):
            shutil.rmtree(path, ignore_errors=True)
    return out


def main():
    args = sys.argv[1:]
    tests = "--no-tests" not in args
    args = [a for a in args if not a.startswith("--")]
    with ThreadPoolExecutor(4) as pool:
        for res in pool.map(lambda b: one(b, tests), args):
            print(json.dumps(res), flush=True)


main()
