"""C13: missing cells in the predictors."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from direpack import snipls
from ..core import Registry, arr, att, close, require, skip, vec, scalar
from .. import gen, models

try:
    from direpack.utils.utils import nandot
except Exception:
    nandot = None

CLAUSES = Registry()
ASSUMPTIONS = ["every row and every column keeps at least two observed cells; the response is complete",
               "centre mean or median (or none), scale None, std or mad: the estimators that define missing data handling"]
CS = [("mean", "None"), ("mean", "std"), ("median", "mad"), ("median", "None"), ("mean", "mad"), ("None", "None")]
base = {"d": gen.regs(pbig=True, wide=True, n=(8, 30), p=(3, 7)), "k": gen.ints(1, 4), "eta": st.sampled_from([0.0, 0.0, 0.2, 0.5, 0.8]), "cs": st.sampled_from(CS),
        "miss": gen.ints(1, 30), "pat": st.sampled_from(["random", "random", "column", "row", "single"]), "s": gen.seeds()}


def holes(c, X):
    rng = np.random.default_rng(c["s"])
    n, p = X.shape
    M = np.zeros((n, p), bool)
    k = max(1, int(c["miss"] / 100.0 * n * p))
    if c["pat"] == "single":
        k = 1
    if c["pat"] in ("random", "single"):
        M.reshape(-1)[rng.permutation(n * p)[:k]] = True
    elif c["pat"] == "column":
        M[rng.permutation(n)[: min(k, n - 3)], rng.integers(p)] = True
    else:
        M[rng.integers(n), rng.permutation(p)[: max(1, min(k, p - 2))]] = True
    skip(np.any((~M).sum(1) < 2) or np.any((~M).sum(0) < 3))
    Z = X.copy()
    Z[M] = np.nan
    return Z, M


@CLAUSES.clause("reference", gen.D(dict(base, frame=gen.ints(0, 1))), "always (some cell is missing)", 1200)
def c_ref(c):
    X, y = gen.reg(c["d"])
    n, p = X.shape
    Z, M = holes(c, X)
    k = min(c["k"], p)
    try:
        with np.errstate(all="ignore"):
            ref = models.snipls(Z, y, c["eta"], k, *c["cs"])
    except np.linalg.LinAlgError:
        skip()
    skip(np.any(ref["sX"] < 1e-8) or not np.all(np.isfinite(ref["B"])) or ref["cond"] > 1e5 or ref["margin"] < 1e-7
         or np.any(ref["yev"] < 1e-6))
    m = snipls(eta=c["eta"], n_components=k, verbose=False, centre=c["cs"][0], scale=c["cs"][1])
    Zin = pd.DataFrame(Z) if c["frame"] else Z.copy()
    m.fit(Zin, y.copy())
    sx = np.nanstd(X, axis=0)
    b = vec(att(m, "coef_"), "coef_", p)
    close(b * sx, ref["coef"] * sx, "coefficients with missing cells", 1e-5)
    S = np.max(np.abs(y)) + np.sum(np.abs(ref["coef"]) * np.abs(X).max(0))
    close(scalar(att(m, "intercept_"), "intercept_"), np.float64(ref["intercept"]), "intercept", 1e-6, scale=S)
    close(arr(att(m, "x_scores_"), "x_scores_", (n, k)), ref["T"], "scores", 1e-5)
    close(arr(att(m, "x_loadings_"), "x_loadings_", (p, k)), ref["P"], "loadings", 1e-5)
    close(vec(att(m, "x_loc_"), "x_loc_", p), ref["mX"], "location", 1e-9, scale=np.abs(X).max())
    close(vec(att(m, "fitted_"), "fitted_", n), ref["fitted"], "fitted values over the available cells", 1e-5, scale=S)
    close(vec(att(m, "residuals_"), "residuals_", n), y - ref["fitted"], "residuals", 1e-5, scale=S)
    close(vec(m.predict(X.copy()), "predictions", n), X @ b + ref["intercept"], "predictions for complete cases", 1e-5, scale=S)
    if ref["smargin"] > 1e-8:
        close(arr(att(m, "x_weights_"), "x_weights_", (p, k)), ref["W"], "weights", 1e-5)
    return {"nontrivial": True, "tags": [c["pat"], "eta%g" % c["eta"]]}


@CLAUSES.clause("skipping_equals_ordinary", gen.D(base), "always", 500)
def c_same(c):
    # a whole extra column of which only two equal cells are observed contributes nothing when its centred
    # observed cells are zero: the missing-aware computation must then give the complete-data model
    X, y = gen.reg(c["d"])
    n, p = X.shape
    k = min(c["k"], p)
    skip(c["cs"][1] != "None" or c["cs"][0] == "None")
    try:
        with np.errstate(all="ignore"):
            ref = models.snipls(X, y, c["eta"], k, *c["cs"])
    except np.linalg.LinAlgError:
        skip()
    skip(not np.all(np.isfinite(ref["B"])) or ref["cond"] > 1e5 or ref["margin"] < 1e-7 or np.any(ref["yev"] < 1e-6))
    skip(c["eta"] == 0.0 and ref["margin"] < 0)
    extra = np.full((n, 1), 1.5)
    rng = np.random.default_rng(c["s"])
    extra[rng.permutation(n)[: n - 2]] = np.nan
    m1 = snipls(eta=c["eta"], n_components=k, verbose=False, centre=c["cs"][0], scale="None").fit(X.copy(), y.copy())
    m2 = snipls(eta=c["eta"], n_components=k, verbose=False, centre=c["cs"][0], scale="None").fit(np.hstack([X, extra]), y.copy())
    sx = np.std(X, axis=0)
    b1, b2 = vec(att(m1, "coef_"), "coef_", p), vec(att(m2, "coef_"), "coef_", p + 1)
    close(b2[:p] * sx, b1 * sx, "coefficients by the skipping computation", 1e-5)
    close(arr(att(m2, "x_scores_"), "x_scores_", (n, k)), arr(att(m1, "x_scores_"), "x_scores_", (n, k)), "scores", 1e-5)
    return {"nontrivial": True}


@CLAUSES.clause("no_trace", gen.D(base), "always", 400)
def c_trace(c):
    X, y = gen.reg(c["d"])
    n, p = X.shape
    Z, M = holes(c, X)
    k = min(c["k"], p)
    args = dict(eta=c["eta"], n_components=k, verbose=False, centre=c["cs"][0], scale=c["cs"][1])
    try:
        m = snipls(**args)
        Z0 = Z.copy()
        m.fit(Z, y.copy())
    except np.linalg.LinAlgError:
        skip()
    require(np.array_equal(Z, Z0, equal_nan=True), "the caller's data were changed by the fit")
    m.fit(X.copy(), y.copy())
    f = snipls(**args).fit(X.copy(), y.copy())
    for a in ("coef_", "x_scores_", "x_weights_", "x_loadings_", "intercept_", "fitted_"):
        A, B = np.asarray(att(m, a), float), np.asarray(att(f, a), float)
        require(A.shape == B.shape and np.array_equal(A, B, equal_nan=True), "%s after an earlier fit with missing cells differs", a)
    return {"nontrivial": True}


@CLAUSES.clause("inner_products", gen.D({"p": gen.ints(1, 6), "n": gen.ints(2, 20), "miss": gen.ints(0, 60), "s": gen.seeds(),
                                         "col": gen.ints(0, 1)}), "some cell missing", 400)
def c_dot(c):
    skip(nandot is None)
    rng = np.random.default_rng(c["s"])
    A = rng.standard_normal((c["p"], c["n"]))
    A[rng.uniform(size=A.shape) < c["miss"] / 100.0] = np.nan
    y = rng.standard_normal(c["n"])
    r = vec(nandot(A.copy(), y.reshape(-1, 1) if c["col"] else y.copy()), "nandot", c["p"])
    close(r, np.array([np.sum(a[~np.isnan(a)] * y[~np.isnan(a)]) for a in A]), "product over available cells", 1e-10, scale=10)
    return {"nontrivial": bool(np.isnan(A).any())}
