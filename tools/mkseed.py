"""mkseed.py [ID ...] : (re)build seeded/<id>/ from tools/seeds.py and validate.

For every seed: patch applies, demo passes on the unchanged tree and fails with
the patch, the stable tests still pass, and which checks notice it. Works in a
scratch copy under /tmp; /repo is never touched."""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1")

DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH="$PWD/src${PYTHONPATH:+:$PYTHONPATH}"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def load():
    spec = importlib.util.spec_from_file_location("seeds", os.path.join(V, "tools/seeds.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for s in m.SEEDS:
        s["own"] = s["id"] in m.OWN_LINES
    return m.SEEDS


def copy():
    d = tempfile.mkdtemp(prefix="seedw-")
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + d, shell=True)
    return d


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True)


def one(s, check=True, tests=True):
    sid = s["id"]
    out = os.path.join(V, "seeded", sid)
    if s["own"]:
        out = tempfile.mkdtemp(prefix="seedw-out-")
    os.makedirs(out, exist_ok=True)
    d = copy()
    log = []
    ok = True
    try:
        for (f, old, new) in s["edits"]:
            p = os.path.join(d, "src/direpack", f)
            t = open(p).read()  # line endings as \n here
            if t.count(old) != 1:
                return sid, False, "edit target occurs %d times in %s: %r" % (t.count(old), f, old[:60])
        # diff
        g = copy()
        subprocess.check_call("git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x", shell=True, cwd=g)
        for (f, old, new) in s["edits"]:
            p = os.path.join(g, "src/direpack", f)
            raw = open(p, newline="").read()
            t = raw.replace("\r\n", "\n").replace(old, new)
            if "\r\n" in raw:  # keep the file's line endings
                t = t.replace("\n", "\r\n")
            open(p, "w", newline="").write(t)
        diff = subprocess.run(["git", "diff"], cwd=g, capture_output=True).stdout
        shutil.rmtree(g)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = run(["bash", os.path.join(out, "demo.sh")], d)
        if r.returncode != 0:
            ok = False
            log.append("demo fails on clean tree: " + (r.stderr or r.stdout)[-300:])
        r = run(["git", "apply", os.path.join(out, "patch.diff")], d)
        if r.returncode:
            ok = False
            log.append("patch does not apply " + r.stderr)
        r = run(["bash", os.path.join(out, "demo.sh")], d)
        if r.returncode == 0:
            ok = False
            log.append("demo passes with the patch")
        if tests:
            r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "src/direpack/test"], d,
                    PYTHONPATH=os.path.join(d, "src"))
            tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
            if "12 passed" not in tail:
                ok = False
                log.append("tests: " + tail)
        if check:
            r = run([PY, os.path.join(V, "pbt/run.py"), s["property"], "--tier", "quick", "--jobs", "4"], V, VERIF_REPO=d, VERIF_SEED="1")
            caught = r.returncode == 1
            msg = [l for l in r.stdout.splitlines() if l.startswith(s["property"] + "/")]
            log.append("%s rc=%d %s" % ("CAUGHT" if caught else "MISSED", r.returncode, (msg[0][:140] if msg else r.stderr[-200:])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if s["own"]:
            shutil.rmtree(out, ignore_errors=True)
    return sid, ok, "; ".join(log)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    seeds = [s for s in load() if not args or s["id"] in args or s["property"] in args]
    with cf.ThreadPoolExecutor(3) as ex:
        for sid, ok, log in ex.map(lambda s: one(s, "--nocheck" not in sys.argv, "--notests" not in sys.argv), seeds):
            print(sid, "ok" if ok else "BAD", log, flush=True)
