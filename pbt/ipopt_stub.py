"""Stand-in for the interior point library (not installed here)."""
import sys
import types

import numpy as np


class Problem:
    """Stand-in for cyipopt.Problem: records the problem, answers as told."""
    log = []
    answer = None  # callable(problem, x0) -> x

    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None, **kw):
        self.n, self.m, self.obj = n, m, problem_obj
        self.lb, self.ub, self.cl, self.cu = lb, ub, cl, cu
        self.options = {}
        Problem.log.append(self)

    def add_option(self, key, value):
        k = key.decode() if isinstance(key, bytes) else key
        self.options[k] = value.decode() if isinstance(value, bytes) else value

    addOption = add_option
    add_option_str = add_option

    def solve(self, x0, *a, **k):
        self.x0 = np.array(x0, dtype=float)
        x = np.array(Problem.answer(self, self.x0.copy()), dtype=float)
        self.x = x
        return x.copy(), {"status": 0, "status_msg": b"done", "obj_val": float(np.ravel(self.obj.objective(x.copy()))[0]), "x": x.copy(), "g": None}


def install():
    stub = types.ModuleType("cyipopt")
    stub.Problem = Problem
    stub.problem = Problem
    stub.__version__ = "0"
    sys.modules["cyipopt"] = stub
    return stub


def connect():
    """Make the package use the stand-in, whichever of both was imported first."""
    stub = sys.modules["cyipopt"] if getattr(sys.modules.get("cyipopt"), "Problem", None) is Problem else install()
    import direpack.ipopt_temp.ipopt_wrapper  # noqa: F401
    w = sys.modules["direpack.ipopt_temp.ipopt_wrapper"]
    if getattr(w, "cyipopt", None) is not stub:
        w.cyipopt = stub
        w.CYIPOPT_INSTALLED = True
    return stub
