"""Process set-up shared by run.py and replay.py.

* pins numerical threads / hash seed so a run is a function of code and seed;
* makes /repo's working tree the imported `direpack` (never a copy);
* makes `hypothesis` importable from the sandbox's tool venv without shadowing
  the numerical stack of the project's own environment.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROJECT_PY = "/opt/venv/bin/python"
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "PYTHONWARNINGS": "ignore",
}


def reexec(argv):
    """Re-exec under the project's interpreter with a pinned environment."""
    want = os.path.exists(PROJECT_PY)
    changed = any(os.environ.get(k) != v for k, v in ENV.items())
    here = os.path.realpath(sys.prefix)
    if changed or (want and here != "/opt/venv" and not os.environ.get("VERIF_NOEXEC")):
        os.environ.update(ENV)
        os.environ["VERIF_NOEXEC"] = "1"
        py = PROJECT_PY if want else sys.executable
        os.execv(py, [py] + argv)


def setup_path():
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    sys.path.insert(0, VERIF)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # appended last: everything the project's venv has wins
        sys.path.append(TOOL_SITE)
        import hypothesis  # noqa: F401
    trace_lines()
    import direpack

    got = os.path.realpath(os.path.dirname(direpack.__file__))
    want = os.path.realpath(os.path.join(src, "direpack"))
    if got != want:
        raise RuntimeError("imported direpack from %s, expected %s" % (got, want))


def trace_lines():
    """Record first executions of source lines of the package (VERIF_COV=FILE)."""
    path = os.environ.get("VERIF_COV")
    if not path:
        return
    mon = sys.monitoring
    root = os.path.join(REPO, "src", "direpack") + os.sep
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    mon.use_tool_id(mon.COVERAGE_ID, "verif")

    def line(code, n):
        if code.co_filename.startswith(root):
            os.write(fd, ("%s:%d\n" % (code.co_filename[len(root):], n)).encode())
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
