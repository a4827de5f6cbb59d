"""Clause runner: hypothesis-driven search, shrinking, replay files, evidence."""
import faulthandler
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

from . import bootstrap

REPO_SRC = os.path.realpath(os.path.join(bootstrap.REPO, "src"))
CASE_CPU_LIMIT = 60.0  # CPU seconds granted to a single generated case


class Violation(Exception):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never a pass)."""


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


class Clause:
    def __init__(self, name, strategy, check, rule, quick=100, thorough=2000, known=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.rule = rule
        self.quick = quick
        self.thorough = thorough
        self.known = known


class Registry(list):
    def clause(self, name, strategy, rule, quick=100, thorough=None):
        def deco(fn):
            self.append(
                Clause(name, strategy, fn, rule, quick, thorough or quick * 20)
            )
            return fn

        return deco


# ----------------------------------------------------------------- helpers
def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not bool(cond):
        raise Violation(msg % args if args else msg)


def skip(cond=True, msg=""):
    if cond:
        raise Skip(msg)


def att(obj, name):
    """A documented attribute; its absence is a violation, not a crash."""
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Violation("%s has no attribute %r" % (type(obj).__name__, name))


def arr(x, what="result", shape=None, size=None, finite=True):
    """float ndarray view of an output; wrong kind/shape/NaN is a violation."""
    try:
        a = np.asarray(x, dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation("%s is not numeric: %r (%s)" % (what, type(x), e))
    if shape is not None and a.shape != tuple(shape):
        raise Violation("%s has shape %s, expected %s" % (what, a.shape, tuple(shape)))
    if size is not None and a.size != size:
        raise Violation("%s has %d elements, expected %d" % (what, a.size, size))
    if finite and not np.all(np.isfinite(a)):
        raise Violation("%s has non-finite entries: %s" % (what, short(a)))
    return a


def vec(x, what="result", size=None, finite=True):
    return arr(x, what, size=size, finite=finite).reshape(-1)


def scalar(x, what="result", finite=True):
    return float(arr(x, what, size=1, finite=finite).reshape(-1)[0])


def short(a, k=8):
    a = np.asarray(a)
    s = np.array2string(a.reshape(-1)[:k], precision=8, separator=",")
    return s if a.size <= k else s[:-1] + ",...] (%d values)" % a.size


def close(got, want, what, rtol=1e-7, atol=None, scale=None, finite=True):
    """Element-wise agreement up to rtol times the magnitude of the data."""
    g = np.asarray(got, dtype=float) if finite is False else arr(got, what)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation("%s has shape %s, expected %s" % (what, g.shape, w.shape))
    if g.size == 0:
        return
    if scale is None:
        scale = np.nanmax(np.abs(w)) if np.any(np.isfinite(w)) else 1.0
    tol = rtol * max(float(scale), 0.0) + (atol if atol is not None else 1e-12)
    nan_mis = np.isnan(g) != np.isnan(w)
    d = np.abs(g - w)
    d = np.where(np.isnan(g) & np.isnan(w), 0.0, d)
    d = np.where((g == w), 0.0, d)
    bad = nan_mis | ~(d <= tol)
    if np.any(bad):
        i = int(np.flatnonzero(bad.reshape(-1))[0])
        raise Violation(
            "%s differs at flat index %d: got %.12g, expected %.12g (max abs diff %.3g, tol %.3g)"
            % (what, i, g.reshape(-1)[i], w.reshape(-1)[i], float(np.nanmax(d)), tol)
        )


def raises(fn, what, exc=Exception):
    """fn must be refused with an exception."""
    try:
        r = fn()
    except CaseTimeout:
        raise
    except exc as e:
        return e
    except Exception as e:
        raise Violation("%s: raised %s instead of an error of kind %s" % (what, type(e).__name__, exc))
    raise Violation("%s: accepted silently (returned %r)" % (what, type(r).__name__))


class quiet:
    """Silence stdout/warnings of the code under test."""

    def __enter__(self):
        self._w = warnings.catch_warnings()
        self._w.__enter__()
        warnings.simplefilter("ignore")
        self._e = np.errstate(all="ignore")
        self._e.__enter__()
        self._out, self._err = sys.stdout, sys.stderr
        self._null = open(os.devnull, "w")
        sys.stdout = self._null
        sys.stderr = self._null
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self._out, self._err
        self._null.close()
        self._e.__exit__(*a)
        self._w.__exit__(*a)
        return False


# ------------------------------------------------------------ case execution
def _through_repo(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.path.realpath(f).startswith(REPO_SRC) or f == "<string>":
            return True
        tb = tb.tb_next
    return False


_INTERPRET = (ValueError, TypeError, IndexError, AttributeError, KeyError,
              np.linalg.LinAlgError, ZeroDivisionError, OverflowError)


def _on_prof(signum, frame):
    raise CaseTimeout()


def execute(clause, case):
    """Run one case. Returns info dict; raises Violation / Skip / HarnessError."""
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        with quiet():
            info = clause.check(case)
        return info or {}
    except (Violation, Skip):
        raise
    except CaseTimeout:
        raise Violation("no result within %.0f CPU seconds" % CASE_CPU_LIMIT)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = sys.exc_info()[2]
        last = traceback.format_exception_only(type(e), e)[-1].strip()
        where = traceback.extract_tb(tb)
        loc = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in where][-4:]
        if _through_repo(tb):
            raise Violation("valid use failed with %s [%s]" % (last, " < ".join(reversed(loc))))
        if isinstance(e, _INTERPRET):
            raise Violation("output cannot be interpreted: %s [%s]" % (last, " < ".join(reversed(loc))))
        raise HarnessError("%s\n%s" % (last, "".join(traceback.format_tb(tb))))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]


def derive_seed(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


def run_shard(prop, clause, seed, n_examples, budget, workdir, shard):
    """Search one shard of a clause. Returns a JSON-able report."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    try:
        # Hypothesis mutates cases by copying choices between equally labelled
        # draws; with many sampled options that turns most of them into the
        # first option (measured: 60% instead of 5%).  Independent draws here.
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        ConjectureRunner.generate_mutations_from = lambda self, data: None
    except Exception:
        pass

    t0 = time.time()
    rep = {
        "clause": clause.name, "shard": shard, "evaluations": 0, "skipped": 0,
        "nontrivial": [], "samples": [], "tags": {}, "failure": None,
        "error": None, "stopped_early": False,
    }
    seen = set()
    state = {"fail": None, "fail_t": None, "err": None}
    path = os.path.join(workdir, "%s.%s.%d.json" % (prop, clause.name, shard))

    def test(case):
        now = time.time()
        if state["err"]:
            return
        if state["fail"] is None and now - t0 > budget:
            rep["stopped_early"] = True
            return
        if state["fail"] is not None and now - state["fail_t"] > 40:
            return  # stop shrinking
        try:
            info = execute(clause, case)
        except Skip:
            rep["skipped"] += 1
            hypothesis.reject()
        except Violation as v:
            if state["fail"] is None:
                state["fail_t"] = now
            state["fail"] = (case, str(v))
            with open(path, "w") as f:
                json.dump({"property": prop, "clause": clause.name, "case": case,
                           "message": str(v)}, f, indent=1)
            raise
        except HarnessError as e:
            state["err"] = str(e)
            return
        if state["fail"] is not None:
            return
        rep["evaluations"] += 1
        for t in info.get("tags", ()):
            rep["tags"][t] = rep["tags"].get(t, 0) + 1
        if info.get("nontrivial", True):
            h = digest(case)
            if h not in seen:
                seen.add(h)
                if len(rep["samples"]) < 2:
                    rep["samples"].append({"clause": clause.name, "case": case,
                                           "observed": info.get("obs")})

    wrapped = hypothesis.given(clause.strategy)(test)
    wrapped = settings(
        max_examples=n_examples, deadline=None, database=None,
        suppress_health_check=list(HealthCheck), derandomize=False,
        phases=(Phase.explicit, Phase.generate, Phase.shrink),
        report_multiple_bugs=False, print_blob=False,
    )(wrapped)
    wrapped = hypothesis.seed(seed)(wrapped)
    try:
        with quiet():
            wrapped()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if state["fail"] is None and state["err"] is None:
            if type(e).__name__ in ("Unsatisfiable",):
                rep["stopped_early"] = True
            else:
                rep["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if state["err"]:
        rep["error"] = state["err"]
    if state["fail"]:
        rep["failure"] = {"case": state["fail"][0], "message": state["fail"][1]}
    rep["nontrivial"] = sorted(seen)
    rep["wall"] = time.time() - t0
    return rep


# ---------------------------------------------------------------- scheduling
def _child(conn_w, fn):
    try:
        out = fn()
    except BaseException as e:
        out = {"error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}
    data = json.dumps(out).encode()
    with os.fdopen(conn_w, "wb") as f:
        f.write(data)
    os._exit(0)


def run_tasks(tasks, jobs, grace, on_fail_stop=True):
    """tasks: list of (name, fn, budget). Forked one per task; yields reports.

    A child that outlives its budget by `grace` is killed: inconclusive."""
    import selectors

    pending = list(tasks)
    running = {}
    sel = selectors.DefaultSelector()
    reports = []
    stop_at = None
    while pending or running:
        while pending and len(running) < jobs and stop_at is None:
            name, fn, budget = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(w, fn)
            os.close(w)
            running[r] = {"name": name, "pid": pid, "buf": b"", "t": time.time(), "limit": budget + grace}
            sel.register(r, selectors.EVENT_READ)
        if not running:
            break
        for key, _ in sel.select(timeout=0.5):
            fd = key.fd
            chunk = os.read(fd, 1 << 20)
            if chunk:
                running[fd]["buf"] += chunk
                continue
            sel.unregister(fd)
            os.close(fd)
            info = running.pop(fd)
            _, status = os.waitpid(info["pid"], 0)
            try:
                rep = json.loads(info["buf"].decode())
            except ValueError:
                rep = {"error": "worker for %s died (status %s)" % (info["name"], status), "died": True}
            rep["task"] = info["name"]
            reports.append(rep)
            if rep.get("failure") and on_fail_stop and stop_at is None:
                stop_at = time.time() + 5.0
                pending = []
        now = time.time()
        for fd, info in list(running.items()):
            over = now - info["t"] > info["limit"]
            if over or (stop_at is not None and now > stop_at):
                try:
                    os.kill(info["pid"], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(info["pid"], 0)
                sel.unregister(fd)
                os.close(fd)
                running.pop(fd)
                reports.append({"task": info["name"], "killed": True})
    return reports
