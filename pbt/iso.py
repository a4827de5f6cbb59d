"""Run a function in a forked child of a process that has not used the library
yet, so that no earlier fit can have left anything behind."""
import os
import pickle
import signal
import sys
import traceback


class ChildFailed(Exception):
    pass


def isolated(fn, limit=60):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                out = (True, fn())
            except BaseException as e:  # noqa
                tb = sys.exc_info()[2]
                out = (False, (type(e).__name__, str(e), traceback.extract_tb(tb)[-1].filename + ":%d" % traceback.extract_tb(tb)[-1].lineno,
                               isinstance(e, AssertionError) or type(e).__name__ == "Violation"))
            try:
                data = pickle.dumps(out)
            except Exception as e:
                data = pickle.dumps((False, ("Unpicklable", str(e), "", False)))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    import select
    import time
    buf, t0 = b"", time.time()
    with os.fdopen(r, "rb") as f:
        while True:
            left = limit * 3 - (time.time() - t0)
            if left <= 0 or not select.select([f], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                break
            chunk = os.read(f.fileno(), 1 << 20)
            if not chunk:
                break
            buf += chunk
    os.waitpid(pid, 0)
    if not buf:
        raise ChildFailed("no answer from the child")
    return pickle.loads(buf)
