"""Start a check: build the shim, fix the environment, import the code."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")


def launch(argv):
    """Re-run this program under the simulator's environment."""
    scratch = tempfile.mkdtemp(prefix="dst-")
    try:
        so_path = os.path.join(scratch, "shim.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-o", so_path,
                        os.path.join(HERE, "dst", "shim.c"), "-ldl"],
                       check=True)
        home = os.path.join(scratch, "home")
        os.makedirs(os.path.join(home, "pysat_data"))
        env = {k: v for k, v in os.environ.items()
               if not k.startswith("PYTHON")}
        env.update(DST_BOOTED=scratch, DST_SHIM=so_path, LD_PRELOAD=so_path,
                   HOME=home, PYTHONHASHSEED="0", TZ="UTC", LC_ALL="C.UTF-8",
                   PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
                   TMPDIR=scratch, PYTHONPATH=REPO + os.pathsep + HERE)
        return subprocess.call([sys.executable, "-m", "dst"] + argv, env=env,
                               cwd=HERE)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load(prop):
    """Import everything under test into this process."""
    import io
    import warnings
    from dst import seams
    keep = sys.stdout
    sys.stdout = io.StringIO()
    try:
        import ocbpy
        import ocbpy.boundaries.dmsp_ssj_files
        import ocbpy.instruments.general
        import ocbpy.instruments.supermag
        import ocbpy.instruments.vort
        import ocbpy.instruments.pysat_instruments
        import ocbpy.vectors
        if prop in ("C05", "C10", "C14", "C15", "C16", "C17", "all"):
            import pysat
            pysat.params["data_dirs"] = [os.path.join(
                os.environ["HOME"], "pysat_data")]
    finally:
        sys.stdout = keep
    root = os.path.realpath(REPO)
    if not os.path.realpath(ocbpy.__file__).startswith(root + os.sep):
        raise seams.HarnessError("ocbpy imported from " + ocbpy.__file__)
    warnings.simplefilter("ignore")
    seams.Shim.load()
    seams.settle_aacgmv2()
    seams.Meter.install()
