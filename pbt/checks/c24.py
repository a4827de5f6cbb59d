"""C24: results do not depend on the container the data arrive in."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from direpack import (GenSpatialSignPreProcessor, VersatileScaler, Wrapper, dicomo, gen_ss_covmat, gen_ss_pp, ppdire, rm, snipls, sprm, sudire, versatile_scale)
from ..core import Registry, Violation, arr, require, short, skip
from .. import gen

CLAUSES = Registry()
ASSUMPTIONS = ["the numbers are exactly representable in every container (multiples of 1/8); results compared to 1e-6 of their magnitude",
               "reference container: C-ordered float64 array, one-dimensional response"]


def xcont(kind, X):
    n, p = X.shape
    if kind == "frame":
        return pd.DataFrame(X, columns=["v%d" % (7 * j % 11) for j in range(p)])
    if kind == "frame_idx":
        return pd.DataFrame(X, index=np.arange(n)[::-1] * 3, columns=list(range(p, 0, -1)))
    if kind == "frame_int":
        return pd.DataFrame(X.astype(int)) if np.all(X == np.round(X)) else pd.DataFrame(X)
    if kind == "frame_mixed":  # integer and floating point columns
        return pd.DataFrame({"c%d" % j: (X[:, j].astype(int) if j % 2 and np.all(X[:, j] == np.round(X[:, j])) else X[:, j]) for j in range(p)})
    if kind == "frame_dup":
        return pd.DataFrame(X, columns=["v"] * p)
    if kind == "reversed":
        return X[::-1, ::-1].copy()[::-1, ::-1]
    if kind == "int32":
        return X.astype(np.int32) if np.all(X == np.round(X)) else X.copy()
    if kind == "fortran":
        return np.asfortranarray(X)
    if kind == "view":
        B = np.full((2 * n, p + 2), 99.0)
        B[::2, 1:p + 1] = X
        return B[::2, 1:p + 1]
    if kind == "readonly":
        Z = X.copy()
        Z.flags.writeable = False
        return Z
    if kind == "int":
        return X.astype(int) if np.all(X == np.round(X)) else X.copy()
    return X.copy()


def ycont(kind, y):
    n = len(y)
    if kind == "col":
        return y.reshape(-1, 1).copy()
    if kind == "series":
        return pd.Series(y)
    if kind == "series_idx":
        return pd.Series(y, index=np.arange(n)[::-1] * 2 + 5, name="resp")
    if kind == "yframe":
        return pd.DataFrame({"resp": y})
    if kind == "int":
        return y.astype(int) if np.all(y == np.round(y)) else y.copy()
    if kind == "reversed":
        return y[::-1].copy()[::-1]
    if kind == "int32":
        return y.astype(np.int32) if np.all(y == np.round(y)) else y.copy()
    if kind == "col_view":
        B = np.full((2 * n, 3), 7.0)
        B[::2, 1] = y
        return B[::2, 1:2]
    if kind == "view":
        B = np.full((n, 3), 7.0)
        B[:, 1] = y
        return B[:, 1]
    if kind == "readonly":
        z = y.copy()
        z.flags.writeable = False
        return z
    return y.copy()


SPEC = {
    "scaler": (lambda c: VersatileScaler(center=["mean", "median", "l1median", "kstepLTS"][c["v"] % 4], scale=["std", "mad", "None"][c["v"] % 3], trimming=0), ["center_", "scale_"], 0, ["transform", "predict"]),
    "wrapper": (lambda c: Wrapper(), ["center_", "scale_"], 0, ["transform", "predict"]),
    "gsspp": (lambda c: GenSpatialSignPreProcessor(center=["l1median", "mean", "kstepLTS"][c["v"] % 3], fun=["ss", "linear_redescending", "winsor", "quad"][c["v"] % 4]), ["gss_", "Xm_"], 0, []),
    "snipls": (lambda c: snipls(eta=[0.0, 0.3, 0.6][c["v"] % 3], n_components=1 + c["v"] % 2, scale=["None", "std"][c["v"] % 2], verbose=False), ["coef_", "intercept_", "x_scores_", "fitted_", "residuals_"], 1, ["predict", "transform"]),
    "rm": (lambda c: rm(fun=["Hampel", "Huber", "Fair"][c["v"] % 3], centre=["median", "mean"][c["v"] % 2], scale=["mad", "std"][c["v"] % 2], verbose=False), ["coef_", "intercept_", "caseweights_", "fitted_", "residuals_"], 1, ["predict"]),
    "sprm": (lambda c: sprm(fun=["Hampel", "Huber", "Fair"][c["v"] % 3], eta=[0.0, 0.3][c["v"] % 2], n_components=1 + c["v"] % 2, start_X_init=["pcapp", "raw"][c["v"] % 2], verbose=False),
             ["coef_", "intercept_", "caseweights_", "fitted_", "residuals_", "x_scores_"], 1, ["predict", "transform", "weightnewx"]),
    "ppdire": (lambda c: ppdire(projection_index=dicomo, pi_arguments={"mode": ["var", "cov"][c["v"] % 2]}, n_components=1 + c["v"] % 2, optimizer="grid", optimizer_options={"maxiter": 4, "ndir": 12},
                                regopt=["OLS", "robust", "quantile"][c["v"] % 3], center=["mean", "median"][c["v"] % 4 // 2], center_data=c["v"] % 5 != 0, scale_data=c["v"] % 5 != 0, verbose=False),
               ["x_weights_", "x_scores_", "x_loadings_", "coef_", "intercept_", "fitted_"], 1, ["predict", "transform"]),
    "sudire": (lambda c: sudire(["sir", "save", "dr", "phd"][c["v"] % 4], n_components=1, n_slices=3, center=["mean", "median"][c["v"] % 2], center_data=c["v"] % 5 != 0, scale_data=c["v"] % 7 != 0, verbose=False),
               ["x_loadings_", "x_scores_", "proj_mat_"], 1, ["predict", "transform"]),
}


def data(c):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    q = 1.0 if c["whole"] else 8.0
    X = np.round(rng.standard_normal((n, p)) * 24) / q
    b = rng.uniform(0.5, 2, p) * rng.choice([-1, 1], p)
    y = np.round((X @ b + rng.standard_normal(n) * 4 / q) * 8) / (8.0 if not c["whole"] else 8.0)
    if c["whole"]:
        y = np.round(y)
    with np.errstate(all="ignore"):
        skip(np.linalg.cond(X - X.mean(0)) > 1e3 or np.any(np.median(np.abs(X - np.median(X, 0)), 0) == 0))
    Xn = np.round(rng.standard_normal((5, p)) * 24) / q
    return X, y, Xn


def results(c, xk, yk, nk):
    X, y, Xn = data(c)
    make, attrs, need, uses = SPEC[c["est"]]
    m = make(c)
    Xa = xcont(xk, X)
    if need:
        m.fit(Xa, ycont(yk, y))
    else:
        m.fit(Xa)
    out = {}
    for a in attrs:
        if hasattr(m, a):
            v = np.asarray(getattr(m, a))
            out[a] = v
    for u in uses:
        out[u] = np.asarray(getattr(m, u)(xcont(nk, Xn)))
    return out


XK = ["frame", "frame_idx", "frame_int", "fortran", "view", "readonly", "int", "int32", "reversed", "frame_mixed", "frame_dup"]
YK = ["col", "series", "series_idx", "yframe", "int", "view", "readonly", "plain", "int32", "reversed", "col_view"]


def eq(got, ref, what, tol=1e-6, free=()):
    for k in ref:
        require(k in got, "%s: %s is missing", what, k)
        try:
            a = np.asarray(got[k], dtype=float)
        except (TypeError, ValueError):
            raise Violation("%s: %s is not numeric: %s" % (what, k, short(got[k])))
        b = np.asarray(ref[k], dtype=float)
        if a.size == b.size and k in ("fitted_", "residuals_", "predict", "intercept_", "caseweights_", "weightnewx"):
            a, b = a.ravel(), b.ravel()
        require(a.shape == b.shape, "%s: %s has shape %s instead of %s", what, k, a.shape, b.shape)
        sc = np.nanmax(np.abs(b)) if b.size and np.any(np.isfinite(b)) else 1.0
        bad = ((np.isnan(a) != np.isnan(b)) | (np.abs(a - b) > tol * sc + 1e-10)) & ~(a == b)
        require(not np.any(bad), "%s: %s is %s instead of %s", what, k, short(a), short(b))


BASE = {"v": gen.ints(0, 11), "n": gen.ints(14, 24), "p": gen.ints(3, 4), "seed": gen.seeds(), "whole": st.booleans(), "xk": st.sampled_from(XK + ["plain"]), "yk": st.sampled_from(YK), "nk": st.sampled_from(XK + ["plain"])}


def decide(c):
    try:
        ref = results(c, "plain", "plain", "plain")
    except Exception:
        skip(True, "reference container is refused")
    got = results(c, c["xk"], c["yk"], c["nk"])
    eq(got, ref, "%s with predictors as %s, response as %s, new data as %s" % (c["est"], c["xk"], c["yk"], c["nk"]))
    return {"nontrivial": not (c["xk"] == "plain" and c["yk"] == "plain" and c["nk"] == "plain"), "tags": ["x:" + c["xk"], "y:" + c["yk"], "n:" + c["nk"]]}


for _e, _q in (("scaler", 120), ("wrapper", 40), ("gsspp", 60), ("snipls", 140), ("rm", 140), ("sprm", 160), ("ppdire", 160), ("sudire", 140)):
    CLAUSES.clause("containers_" + _e, gen.D(dict(BASE, est=st.just(_e))), "some container other than a float array", _q)(decide)


@CLAUSES.clause("missing", gen.D(dict(BASE, cells=gen.ints(1, 6))), "some container other than a float array", 80)
def missing(c):
    """Missing cells arrive as nan in every container of floating point numbers."""
    X, y, Xn = data(dict(c, whole=False))
    rng = np.random.default_rng([c["seed"], 4])
    for k in range(c["cells"]):
        X[rng.integers(len(X)), rng.integers(X.shape[1])] = np.nan
    skip(np.any(np.isfinite(X).sum(1) < 2))
    make, attrs, need, uses = SPEC["snipls"]
    out = []
    for xk, yk, nk in (("plain",) * 3, (c["xk"], c["yk"], c["nk"])):
        m = make(c).fit(xcont(xk, X), ycont(yk, y))
        out.append(dict({a: np.asarray(getattr(m, a)) for a in ("coef_", "intercept_", "x_scores_")}, **{u: np.asarray(getattr(m, u)(xcont(nk, Xn))) for u in uses}))
    eq(out[1], out[0], "sparse NIPALS with missing cells, predictors as %s, response as %s, new data as %s" % (c["xk"], c["yk"], c["nk"]))
    return {"nontrivial": c["xk"] != "plain" or c["yk"] != "plain", "tags": ["x:" + c["xk"]]}


FUNS = {"versatile_scale": lambda X: versatile_scale(X), "gen_ss_pp": lambda X: gen_ss_pp(X, center="median", fun="ball"), "gen_ss_covmat": lambda X: gen_ss_covmat(X)}


@CLAUSES.clause("functions", gen.D(dict(BASE, fun=st.sampled_from(sorted(FUNS)))), "some container other than a float array", 60)
def functions(c):
    X, y, Xn = data(c)
    f = FUNS[c["fun"]]
    eq({"r": f(xcont(c["xk"], X))}, {"r": f(X.copy())}, "%s of %s" % (c["fun"], c["xk"]))
    return {"nontrivial": c["xk"] != "plain", "tags": [c["fun"], c["xk"]]}


@CLAUSES.clause("moments", gen.D(dict(BASE, mode=st.sampled_from(["var", "skew", "cov", "corr", "cos", "continuum"]), est=st.sampled_from(["arithmetic", "distance"]), cx=st.sampled_from(YK), cy=st.sampled_from(YK))), "some container other than a float vector", 160)
def moments(c):
    X, y, _ = data(c)
    x = X[:, 0]
    mode = c["mode"]
    if c["est"] == "distance" and mode in ("skew", "cos", "continuum"):
        mode = "cov"
    two = mode in ("cov", "corr", "cos", "continuum")
    ref = dicomo(est=c["est"], mode=mode).fit(x.copy(), **({"y": y.copy()} if two else {}))
    got = dicomo(est=c["est"], mode=mode).fit(ycont(c["cx"], x), **({"y": ycont(c["cy"], y)} if two else {}))
    eq({"m": np.ravel(got)}, {"m": np.ravel(ref)}, "%s %s of %s and %s" % (c["est"], mode, c["cx"], c["cy"]))
    return {"nontrivial": c["cx"] != "plain" or (two and c["cy"] != "plain"), "tags": [mode, c["cx"], c["cy"]]}


@CLAUSES.clause("single_case", gen.D(dict(BASE, est=st.sampled_from(["snipls", "rm", "sprm", "ppdire", "sudire", "scaler"]), row=gen.ints(0, 4), form=st.sampled_from(["row", "vector", "series", "frame"]))), "a vector or series", 160)
def single_case(c):
    X, y, Xn = data(c)
    make, attrs, need, uses = SPEC[c["est"]]
    m = make(c)
    try:
        m.fit(*((X.copy(), y.copy()) if need else (X.copy(),)))
    except Exception:
        skip(True)
    for u in uses:
        if u == "weightnewx":
            continue
        ref = np.asarray(getattr(m, u)(Xn.copy()), float)
        ref = ref.reshape(5, -1)[c["row"]]
        r = Xn[c["row"]]
        if c["est"] in ("ppdire", "sudire", "scaler") and c["form"] in ("vector", "series"):
            skip(True, "documented for matrices and data frames only")
        A = {"row": r.reshape(1, -1).copy(), "vector": r.copy(), "series": pd.Series(r, index=["q%d" % (5 * (j + 1) % 7) for j in range(len(r))]), "frame": pd.DataFrame(r.reshape(1, -1))}[c["form"]]
        got = np.asarray(getattr(m, u)(A), float).ravel()
        eq({"r": got}, {"r": ref}, "%s.%s of one case as %s" % (c["est"], u, c["form"]))
    return {"nontrivial": c["form"] in ("vector", "series"), "tags": [c["est"], c["form"]]}
