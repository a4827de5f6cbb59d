"""C23: a fit depends only on its parameters and its data (stateful histories)."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import clone

from .c22 import Problem  # installs the stand-in before the library is imported
from direpack import (GenSpatialSignPreProcessor, VersatileScaler, Wrapper, capi, dicomo, ppdire, rm, snipls, sprm, sudire)
from ..core import Registry, Violation, require, short, skip
from .. import gen, iso

CLAUSES = Registry()
ASSUMPTIONS = ["the model is a new object, fitted once, in a child forked from a process that never used the library",
               "the interior point library is replaced by a stand-in that returns its start",
               "results are compared to 1e-6 of their magnitude; with copy=False the caller's arrays may be changed"]


class Spread:
    """User-defined projection index."""

    def __init__(self, power=2):
        self.power = power

    def fit(self, x, **kwargs):
        return float(np.mean(np.abs(np.ravel(x)) ** self.power))


def spatial(X, trimming=0):
    return np.median(X, axis=0) + 0.1


def shrink(x, *args):
    X, y, h = args[0], np.ravel(args[1]), args[2]
    return -float(np.sum((X @ np.reshape(x, (-1, h), order="F")).T @ y) ** 2)


# name -> (class, parameter variants, attributes after fit, needs y, operations)
G = {"maxiter": 3, "ndir": 8}
SPECS = {
    "scaler": (VersatileScaler, [{}, {"center": "median", "scale": "mad"}, {"center": "l1median", "scale": "None"}, {"center": "kstepLTS", "scale": "std", "trimming": 0.1},
                                 {"center": spatial, "scale": "std"}, {"center": "None", "scale": "mad"}],
               ["center_", "scale_", "col_loc_", "col_sca_"], 0, ["transform", "predict", "inverse_transform", "fit_transform"]),
    "wrapper": (Wrapper, [{}], ["center_", "scale_"], 0, ["transform", "predict", "fit_transform"]),
    "gsspp": (GenSpatialSignPreProcessor, [{}, {"center": "mean", "fun": "ss"}, {"center": "median", "fun": "ball"}, {"center": "kstepLTS", "fun": "winsor"}, {"fun": "quad"}, {"fun": "shell"}],
              ["gss_", "Xm_"], 0, ["fit_transform"]),
    "snipls": (snipls, [{"verbose": False}, {"eta": 0.2, "n_components": 2, "verbose": False}, {"eta": 0.0, "scale": "std", "verbose": False},
                        {"eta": 0.6, "n_components": 2, "centre": "median", "scale": "mad", "verbose": False}, {"columns": True, "verbose": False, "eta": 0.3},
                        {"columns": ["a", "b", "c"], "verbose": False, "eta": 0.3}],
               ["coef_", "intercept_", "x_scores_", "x_loadings_", "fitted_", "x_ev_", "y_ev_", "colret_"], 1, ["predict", "transform"]),
    "rm": (rm, [{"verbose": False}, {"fun": "Huber", "verbose": False}, {"fun": "Fair", "centre": "mean", "scale": "std", "verbose": False},
                {"probp1": 0.8, "probp2": 0.9, "probp3": 0.95, "verbose": False}, {"scale": "None", "verbose": False}, {"start_cutoff_mode": "x", "maxit": 20, "verbose": False}, {"copy": False, "verbose": False}],
           ["coef_", "intercept_", "caseweights_", "fitted_", "residuals_"], 1, ["predict"]),
    "sprm": (sprm, [{"verbose": False}, {"n_components": 2, "eta": 0.2, "verbose": False}, {"fun": "Huber", "eta": 0.0, "verbose": False},
                    {"fun": "Fair", "start_X_init": "raw", "eta": 0.4, "verbose": False}, {"centre": "mean", "scale": "std", "eta": 0.3, "verbose": False, "n_components": 2},
                    {"scale": "None", "eta": 0.1, "verbose": False}, {"columns": True, "eta": 0.2, "verbose": False}, {"scale": "scaleTau2", "eta": 0.2, "verbose": False}, {"copy": False, "eta": 0.2, "verbose": False}],
             ["coef_", "intercept_", "caseweights_", "fitted_", "x_scores_", "coef_scaled_", "intercept_scaled_"], 1, ["predict", "transform", "weightnewx", "valscore"]),
    "ppdire": (ppdire, [{"projection_index": dicomo, "pi_arguments": {"mode": "var"}, "verbose": False},
                        {"projection_index": dicomo, "pi_arguments": {"mode": "cov"}, "n_components": 2, "optimizer": "grid", "optimizer_options": dict(G), "verbose": False},
                        {"projection_index": dicomo, "pi_arguments": {"mode": "var", "center": "median"}, "optimizer": "grid", "optimizer_options": dict(G), "verbose": False, "center": "median"},
                        {"projection_index": Spread, "pi_arguments": {"power": 3}, "n_components": 2, "verbose": False, "scale_data": False},
                        {"projection_index": dicomo, "pi_arguments": {"mode": "var"}, "n_components": 2, "whiten_data": True, "verbose": False},
                        {"projection_index": capi, "pi_arguments": {"max_degree": 3, "projection_index": dicomo, "pi_arguments": {"mode": "cov"}}, "verbose": False},
                        {"projection_index": dicomo, "pi_arguments": {"mode": "cov"}, "regopt": "robust", "verbose": False, "square_pi": True},
                        {"projection_index": dicomo, "pi_arguments": {"mode": "continuum"}, "alpha": 0.5, "regopt": "quantile", "verbose": False, "center_data": False, "scale_data": False}],
               ["x_weights_", "x_scores_", "x_loadings_", "x_rotations_", "coef_", "intercept_", "fitted_", "x_loc_", "x_sca_"], 1, ["predict", "transform"]),
    "sudire": (sudire, [{"sudiremeth": "sir", "verbose": False, "n_slices": 3}, {"sudiremeth": "save", "n_components": 1, "n_slices": 2, "verbose": False},
                        {"sudiremeth": "dr", "center": "median", "n_components": 1, "n_slices": 3, "verbose": False}, {"sudiremeth": "phd", "scale_data": False, "n_components": 1, "verbose": False},
                        {"sudiremeth": "sir", "whiten_data": True, "n_components": 1, "n_slices": 3, "verbose": False}, {"sudiremeth": "iht", "center_data": False, "n_components": 1, "verbose": False},
                        {"sudiremeth": "sir", "copy": False, "n_slices": 3, "verbose": False}],
               ["x_loadings_", "x_scores_", "proj_mat_", "x_loc_", "y_loc_"], 1, ["predict", "transform"]),
    "sudire_opt": (sudire, [{"verbose": False, "n_components": 1}, {"sudiremeth": "mdd-sdr", "verbose": False, "n_components": 1},
                            {"sudiremeth": shrink, "verbose": False, "n_components": 1, "optimizer_options": {"max_iter": 7}},
                            {"verbose": False, "n_components": 2, "scale_data": False}],
                   ["x_loadings_", "x_scores_", "proj_mat_"], 1, ["predict", "transform"]),
    "dicomo": (dicomo, [{}, {"mode": "var"}, {"mode": "cov"}, {"mode": "corr"}, {"mode": "kurt"}, {"mode": "cos"}, {"mode": "com"}, {"mode": "continuum"},
                        {"mode": "var", "center": "median"}, {"mode": "cov", "center": "median"}, {"est": "distance", "mode": "var"}, {"est": "distance", "mode": "cov"},
                        {"est": "distance", "mode": "corr"}, {"est": "distance", "mode": "mdd"}, {"mode": "std"}, {"mode": "skew"}, {"mode": "cok"}, {"mode": "M3"}],
               ["moment_"], 2, []),
    "capi": (capi, [{}, {"max_degree": 3}, {"max_degree": 4, "scaling": False}, {"max_degree": 4, "weights": [1, 2, 0, -1, 0.5, 1]}, {"pi_arguments": {"center": "median"}}, {"max_degree": 3, "centring": True}],
             ["capi_index_", "moments_"], 2, []),
}
PPKW = [{}, {"h": 1}, {}, {"h": 2}, {"quantile": 0.3}]
FITKW = [{}, {"biascorr": True}, {"trimming": 0.1}, {"order": 3, "option": 2}, {"alpha": 2}]


CONST = {"scaler": "constant", "wrapper": "constant", "sprm": "spike"}  # one data set has a column of zero spread


def default_params():
    out = {}
    for k, (cls, variants, *_r) in SPECS.items():
        out[k] = copy.deepcopy({a: b for a, b in cls(**copy.deepcopy(variants[0])).get_params(deep=False).items() if not callable(b)})
    return out


DEFAULTS = default_params()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    try:
        return bool(a == b)
    except Exception:
        return False


def same_array(a, b):
    return a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind == "f" and b.dtype.kind == "f" else np.array_equal(a, b))


def dataset(seed, i, n, p, frame, const=None):
    rng = np.random.default_rng([seed, i])
    n = n + 3 * (i % 2)
    X = rng.standard_normal((n, p)) * rng.uniform(0.5, 5, p) + rng.uniform(-5, 5, p)
    y = X @ rng.uniform(-1, 1, p) + 0.5 * rng.standard_normal(n) + 3
    if i == 2:
        y[0] += 30
    if i == 1:
        X[1] = X[1] + 40
        if const == "constant":
            X[:, 1] = 3.0
        elif const == "spike":  # zero median absolute deviation
            X[4:, 1] = 3.0
    if frame:
        return pd.DataFrame(X, columns=list("abcdef")[:p]), (pd.Series(y) if i % 2 else pd.DataFrame({"y": y}))
    return X, (y if i % 2 else y.reshape(-1, 1))


def grab(obj, attrs):
    out = {}
    for a in attrs:
        v = getattr(obj, a, None)
        if v is None:
            continue
        v = np.asarray(v)
        out[a] = np.array(v, dtype=float) if v.dtype.kind in "fiub" else v.astype(str)
    return out


def do_fit(name, obj, X, y, kw):
    need = SPECS[name][3]
    if need == 0:
        r = obj.fit(X)
    elif need == 1:
        r = obj.fit(X, y, **kw)
    else:
        A = np.asarray(X, float)[:, 0]
        r = obj.fit(A, y=np.asarray(y, float).ravel(), **kw) if name == "dicomo" else obj.fit(A, np.asarray(y, float).ravel(), **{k: v for k, v in kw.items() if k in ("biascorr", "trimming")})
        return {"returned": np.asarray(r, float)}
    require(r is obj or r is None, "fit returns neither the object nor nothing: %r", type(r))
    return {}


def do_op(op, obj, X, y):
    if op == "inverse_transform":
        return np.asarray(obj.inverse_transform(obj.transform(X)), float)
    if op == "valscore":
        return np.asarray(obj.valscore(X, np.ravel(np.asarray(y, float)), "normal"), float)
    return np.asarray(getattr(obj, op)(X), float)


OP = gen.D({"op": st.sampled_from(["new", "fit", "fit", "fit", "use", "use", "set", "clone", "copy"]), "o": gen.ints(0, 3), "v": gen.ints(0, 17),
            "i": gen.ints(0, 2), "j": gen.ints(0, 3), "frame": st.sampled_from([False, False, True]), "k": gen.ints(0, 4)})


def hist(names, ops):
    return gen.D({"names": names, "seed": gen.seeds(), "n": gen.ints(14, 20), "p": gen.ints(3, 4),
                  "first": st.tuples(gen.ints(0, 17), gen.ints(0, 2)).map(list), "ops": st.lists(OP, min_size=ops[0], max_size=ops[1])})


def usable(name, params, frame):
    if name in ("snipls", "sprm") and params.get("columns") is True:
        return frame
    return True


def history(c):
    """Runs in a child: returns the observations, raises Violation for changed inputs or parameters."""
    Problem.answer = staticmethod(lambda pb, x0: x0)
    objs, obs = [], []

    def make(name, v):
        cls, variants = SPECS[name][:2]
        par = copy.deepcopy(variants[v % len(variants)])
        if name in ("snipls",) and isinstance(par.get("columns"), list):
            par["columns"] = list("abcdef")[:c["p"]]
        ob = cls(**par)
        objs.append({"name": name, "obj": ob, "par": copy.deepcopy(par), "fit": None})
        checkpar(objs[-1], "after construction")

    def checkpar(o, when):
        got = o["obj"].get_params(deep=False)
        want = dict(DEFAULTS[o["name"]])
        base = SPECS[o["name"]][1][0]
        for k in base:  # parameters of the reference variant are not defaults
            if k in want:
                want.pop(k)
        want.update(o["par"])
        for k, v in want.items():
            if k in got and (k in o["par"] or True):
                g = got[k]
                if isinstance(v, (int, float)) and isinstance(g, (int, float)) and not isinstance(v, bool):
                    ok = float(v) == float(g)
                else:
                    ok = same(g, v)
                require(ok, "%s: parameter %s is %r instead of %r %s", o["name"], k, g, v, when)

    def guarded(o, fn, X, y, when):
        Xb, yb = copy.deepcopy(X), copy.deepcopy(y)
        err, r = None, None
        try:
            r = fn()
        except (Violation, KeyboardInterrupt):
            raise
        except Exception as e:
            err = type(e).__name__ + ": " + str(e)[:200]
        if o["par"].get("copy", True):
            for a, b, nm in ((X, Xb, "predictors"), (y, yb, "response")):
                eq = a.equals(b) if isinstance(a, (pd.DataFrame, pd.Series)) else np.array_equal(a, b, equal_nan=True)
                require(eq, "%s: %s changed the caller's %s", o["name"], when, nm)
                if isinstance(a, pd.DataFrame):
                    require(list(a.columns) == list(b.columns), "%s: %s changed column names", o["name"], when)
        return r, err

    make(c["names"][0], c["first"][0])
    ops = [{"op": "fit", "o": 0, "v": 0, "i": c["first"][1], "j": 0, "frame": False, "k": c["first"][0] % 5}] + c["ops"]
    for step, q in enumerate(ops):
        if q["op"] == "new":
            make(c["names"][q["o"] % len(c["names"])], q["v"])
            continue
        o = objs[q["o"] % len(objs)]
        name = o["name"]
        cls, variants, attrs, need, uses = SPECS[name]
        if q["op"] == "set":
            par = copy.deepcopy(variants[q["v"] % len(variants)])
            if name in ("snipls",) and isinstance(par.get("columns"), list):
                par["columns"] = list("abcdef")[:c["p"]]
            if name == "capi" or name == "dicomo":
                par = dict(par)
            o["obj"].set_params(**copy.deepcopy(par))
            o["par"].update(copy.deepcopy(par))
            checkpar(o, "after set_params")
            o["stale"] = True
        elif q["op"] == "clone":
            n = clone(o["obj"])
            objs.append({"name": name, "obj": n, "par": copy.deepcopy(o["par"]), "fit": None})
            checkpar(objs[-1], "after clone")
        elif q["op"] == "copy":
            objs.append({"name": name, "obj": copy.deepcopy(o["obj"]), "par": copy.deepcopy(o["par"]), "fit": o["fit"], "fitpar": o.get("fitpar"), "fkw": o.get("fkw"), "stale": o.get("stale")})
        elif q["op"] == "fit":
            frame = q["frame"]
            if not usable(name, o["par"], frame):
                frame = True
            X, y = dataset(c["seed"], q["i"], c["n"], c["p"], frame, CONST.get(name))
            kw = FITKW[q["k"]] if need == 2 else (PPKW[q["k"]] if name == "ppdire" else {})
            r, err = guarded(o, lambda: do_fit(name, o["obj"], X, y, copy.deepcopy(kw)), X, y, "fit")
            checkpar(o, "after fit (step %d)" % step)
            o["fit"], o["fitpar"], o["fkw"], o["stale"] = (None if err else (q["i"], frame)), copy.deepcopy(o["par"]), kw, False
            res = None if err else dict(grab(o["obj"], attrs), **r)
            obs.append({"step": step, "name": name, "par": copy.deepcopy(o["par"]), "fit": (q["i"], frame), "kw": kw, "op": None, "res": res, "err": err})
        elif q["op"] == "use" and uses and o["fit"] is not None:
            op = uses[q["v"] % len(uses)]
            if o.get("stale") and op in ("fit_transform", "weightnewx"):
                continue
            X, y = dataset(c["seed"], o["fit"][0] if q["j"] == 3 else q["j"], c["n"], c["p"], q["frame"], CONST.get(name))
            before = grab(o["obj"], attrs)
            r, err = guarded(o, lambda: do_op(op, o["obj"], X, y), X, y, op)
            after = grab(o["obj"], attrs)
            if op != "fit_transform":
                for k in before:
                    require(k in after and same_array(before[k], after[k]), "%s: %s changed the fitted %s: %s, before %s", name, op, k, short(after.get(k)), short(before[k]))
            checkpar(o, "after %s (step %d)" % (op, step))
            obs.append({"step": step, "name": name, "par": copy.deepcopy(o["fitpar"]), "fit": o["fit"], "kw": o["fkw"], "op": (op, o["fit"][0] if q["j"] == 3 else q["j"], q["frame"]),
                        "res": None if err else {op: r}, "err": err})
            if op == "fit_transform":
                o["fit"] = (o["fit"][0] if q["j"] == 3 else q["j"], q["frame"])
    now = default_params()
    for k in now:
        require(same(now[k], DEFAULTS[k]), "default parameters of %s changed: %r, initially %r", k, now[k], DEFAULTS[k])
    return obs


def reference(c, ob):
    Problem.answer = staticmethod(lambda pb, x0: x0)
    cls, variants, attrs, need, uses = SPECS[ob["name"]]
    obj = cls(**copy.deepcopy(ob["par"]))
    X, y = dataset(c["seed"], ob["fit"][0], c["n"], c["p"], ob["fit"][1], CONST.get(ob["name"]))
    try:
        r = do_fit(ob["name"], obj, X, y, copy.deepcopy(ob["kw"]))
        if ob["op"] is None:
            return dict(grab(obj, attrs), **r)
        Xn, yn = dataset(c["seed"], ob["op"][1], c["n"], c["p"], ob["op"][2], CONST.get(ob["name"]))
        return {ob["op"][0]: do_op(ob["op"][0], obj, Xn, yn)}
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def decide(c):
    ok, out = iso.isolated(lambda: history(c))
    if not ok:
        if out[3]:
            raise Violation(out[1])
        raise Violation("history fails with %s: %s [%s]" % tuple(out[:3]))
    fits = 0
    for ob in out:
        ok, ref = iso.isolated(lambda: reference(c, ob))
        if not ok:
            raise Violation("reference fails with %s: %s [%s]" % tuple(ref[:3]))
        what = "step %d, %s%s" % (ob["step"], ob["name"], "" if ob["op"] is None else "." + ob["op"][0])
        if isinstance(ref, str):
            require(ob["err"] is not None, "%s succeeds, but a new object fails with %s", what, ref)
            continue
        require(ob["err"] is None, "%s fails with %s, but a new object succeeds", what, ob["err"])
        require(set(ref) == set(ob["res"]), "%s reports %s, a new object %s", what, sorted(ob["res"]), sorted(ref))
        for k in ref:
            a, b = ob["res"][k], ref[k]
            require(a.shape == b.shape, "%s: %s has shape %s, of a new object %s", what, k, a.shape, b.shape)
            if a.dtype.kind == "f":
                sc = np.nanmax(np.abs(b)) if b.size and np.any(np.isfinite(b)) else 1.0
                bad = (np.isnan(a) != np.isnan(b)) | (np.abs(a - b) > 1e-6 * sc + 1e-12)
                bad &= ~(a == b)
                require(not np.any(bad), "%s: %s is %s, of a new object %s", what, k, short(a), short(b))
            else:
                require(np.array_equal(a, b), "%s: %s is %s, of a new object %s", what, k, a, b)
        fits += 1
    return {"nontrivial": fits >= 2, "tags": sorted({ob["name"] for ob in out}) + ["refused"] * any(ob["err"] for ob in out)}


for _n, _q in (("scaler", 60), ("gsspp", 30), ("snipls", 60), ("rm", 60), ("sprm", 80), ("ppdire", 80), ("sudire", 60), ("sudire_opt", 40), ("dicomo", 80), ("capi", 50)):
    CLAUSES.clause("history_" + _n, hist(st.just([_n] if _n != "scaler" else ["scaler", "wrapper"]), (3, 8)), "at least two results of the history compared with a new object", _q)(decide)
CLAUSES.clause("history_mixed", hist(st.lists(st.sampled_from(["scaler", "wrapper", "gsspp", "snipls", "rm", "sprm", "ppdire", "sudire", "sudire_opt", "dicomo", "capi"]), min_size=2, max_size=4), (5, 10)),
               "at least two results of the history compared with a new object", 100)(decide)
