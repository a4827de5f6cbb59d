"""C21: sufficient dimension reduction objects report one consistent reduction."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from direpack import estimate_structural_dim, sudire
from ..core import Registry, arr, att, close, require, skip, vec
from .. import gen, refs
from .c20 import METHS, data

CLAUSES = Registry()
ASSUMPTIONS = ["more cases than variables, condition number of the covariance below 1e6",
               "the numbers reported by the structural dimension bootstrap are judged by range, reproducibility and the pairing of response and predictors only"]
DAT = gen.regs(pbig=True, n=(20, 45), p=(2, 6))
CFG = {"d": DAT, "shape": st.sampled_from(["lin", "square", "two", "ratio"]), "classes": st.sampled_from([0, 0, 3]),
       "meth": st.sampled_from(METHS), "h": st.sampled_from([1, 1, 2, 3, 6]), "ns": st.sampled_from([2, 4, 6]),
       "cd": st.sampled_from([True, True, False]), "sd": st.sampled_from([True, True, False]),
       "center": st.sampled_from(["mean", "mean", "median"]), "trim": st.sampled_from([0, 0, 0.1]),
       "white": st.sampled_from([False, False, False, True]), "copy": st.booleans(), "y2": st.booleans()}


def build(c):
    X, y = data(c)
    n, p = X.shape
    with np.errstate(all="ignore"):
        skip(np.linalg.cond(np.cov(X, rowvar=False)) > 1e6)
        skip(np.any(np.median(np.abs(X - np.median(X, 0)), 0) == 0))
    h = min(c["h"], p)
    kw = dict(sudiremeth=c["meth"], n_components=h, n_slices=c["ns"], center_data=c["cd"], scale_data=c["sd"], center=c["center"],
              trimming=c["trim"], whiten_data=c["white"], copy=c["copy"],
              response_type="discrete" if c["classes"] else "continuous", verbose=False)
    m = sudire(**kw)
    m.fit(X.copy(), y.reshape(-1, 1).copy() if c["y2"] else y.copy())
    return X, y, h, m


def fitted_parts(X, y, h, m):
    n, p = X.shape
    P = arr(att(m, "x_loadings_"), "x_loadings_", (p, h))
    T = arr(att(m, "x_scores_"), "x_scores_", (n, h))
    s = max(np.linalg.svd(P / np.linalg.norm(P, axis=0), compute_uv=False)[-1], 0)
    skip(s < 1e-7, "numerically dependent directions")
    return P, T


@CLAUSES.clause("identities", gen.D(CFG), "more than one direction or a configuration other than the default", 500)
def identities(c):
    X, y, h, m = build(c)
    n, p = X.shape
    P, T = fitted_parts(X, y, h, m)
    close(T, X @ P, "x_scores_ against predictors times basis", 1e-9, scale=np.abs(X).max() * np.abs(P).max())
    Q = np.linalg.qr(P)[0]
    M = arr(att(m, "proj_mat_"), "proj_mat_", (p, p))
    k = np.linalg.cond(P / np.linalg.norm(P, axis=0))
    close(M, Q @ Q.T, "proj_mat_ against the orthogonal projector on the basis", 1e-10 * max(1.0, k * k) * 10, atol=1e-9)
    require(np.linalg.norm(P, axis=0).min() > 0, "null direction")
    # regression on the scores
    A = np.column_stack([np.ones(n), X @ P])
    cn = np.linalg.cond(A / np.linalg.norm(A, axis=0))
    skip(cn > 1e5)
    # scores are numerically determined up to their own columns: fit via QR
    fit = A @ np.linalg.lstsq(A / np.linalg.norm(A, axis=0), y, rcond=None)[0] * 0
    sc = np.linalg.norm(A, axis=0)
    b = np.linalg.lstsq(A / sc, y, rcond=None)[0] / sc
    fit = A @ b
    tol = 1e-8 * max(1.0, cn)
    pr = vec(m.predict(X.copy()), "predict(X)", n)
    close(pr, fit, "predict(X) against least squares on the scores", tol, scale=np.abs(y).max())
    o = att(m, "ols_obj_")
    close(vec(att(o, "params"), "ols_obj_.params", h + 1), b, "ols_obj_.params", tol * 10, scale=np.abs(b).max())
    close(vec(att(o, "fittedvalues"), "ols_obj_.fittedvalues", n), fit, "ols_obj_.fittedvalues", tol, scale=np.abs(y).max())
    # new data, several rows and a single one
    rng = np.random.default_rng([c["d"]["seed"], 9])
    Xn = X.mean(0) + rng.standard_normal((5, p)) * X.std(0) * 2
    close(arr(m.transform(Xn.copy()), "transform(new)", (5, h)), Xn @ P, "transform(new)", 1e-9, scale=np.abs(Xn).max() * np.abs(P).max())
    want = np.column_stack([np.ones(5), Xn @ P]) @ b
    sca = max(np.abs(y).max(), np.abs(want).max())
    close(vec(m.predict(Xn.copy()), "predict(new)", 5), want, "predict(new)", tol * 10, scale=sca)
    i = int(rng.integers(5))
    close(vec(m.predict(Xn[i:i + 1].copy()), "predict(row)", 1), want[i:i + 1], "predict of a single new case", tol * 10, scale=sca)
    close(arr(m.transform(Xn[i:i + 1].copy()), "transform(row)", (1, h)), (Xn @ P)[i:i + 1], "transform of a single new case", 1e-9, scale=np.abs(Xn).max() * np.abs(P).max())
    close(vec(m.predict(np.repeat(Xn[i:i + 1], 3, 0)), "predict(rows)", 3), np.repeat(want[i], 3), "predict of equal new cases", tol * 10, scale=sca)
    d = pd.DataFrame(Xn, columns=["v%d" % j for j in range(p)])
    close(vec(m.predict(d), "predict(frame)", 5), want, "predict(frame)", tol * 10, scale=sca)
    return {"nontrivial": h > 1 or not (c["cd"] and c["sd"]) or c["center"] != "mean" or c["white"],
            "tags": [c["meth"], c["center"], "cd%d" % c["cd"], "sd%d" % c["sd"], "white%d" % c["white"], "h%d" % h]}


@CLAUSES.clause("standardised", gen.D(CFG), "more than one direction", 250)
def standardised(c):
    """With predictors standardised by mean and covariance the scores are uncorrelated with unit variance."""
    c = dict(c, sd=True, center="mean", white=False)
    X, y, h, m = build(c)
    n, p = X.shape
    P, T = fitted_parts(X, y, h, m)
    S = np.cov(T, rowvar=False).reshape(h, h)
    close(S, np.eye(h), "covariance of the scores", 1e-6, atol=1e-6)
    return {"nontrivial": h > 1, "tags": [c["meth"], "h%d" % h]}


@CLAUSES.clause("locations", gen.D(CFG), "trimmed or median centre", 250)
def locations(c):
    X, y, h, m = build(c)
    n, p = X.shape
    if c["cd"] or c["white"]:
        close(vec(att(m, "y_loc_"), "y_loc_", 1), [y.mean()], "y_loc_", 1e-10, scale=np.abs(y).max())
        close(vec(att(m, "y_sca_"), "y_sca_", 1), [y.std()], "y_sca_", 1e-10, scale=np.abs(y).max())
        loc = vec(att(m, "x_loc_"), "x_loc_", p)
        if c["center"] == "mean":
            want = refs.trimmed_mean(X, c["trim"])
        else:
            want = np.median(X, 0)
        close(loc, want, "x_loc_", 1e-10, scale=np.abs(X).max())
        if c["sd"] and not c["white"]:
            sca = vec(att(m, "x_sca_"), "x_sca_", p)
            want = X.std(0, ddof=1) if c["center"] == "mean" else refs.nan_mad(X)
            close(sca, want, "x_sca_", 1e-8, scale=want.max())
    elif c["center"] == "mean" or not c["sd"]:
        close(vec(att(m, "y_loc_"), "y_loc_", 1), [0.0], "y_loc_ without centring")
        close(vec(att(m, "y_sca_"), "y_sca_", 1), [1.0], "y_sca_ without centring")
        close(vec(att(m, "x_loc_"), "x_loc_", p), np.zeros(p), "x_loc_ without centring")
    return {"nontrivial": c["center"] != "mean" or c["trim"] > 0, "tags": [c["center"], "cd%d" % c["cd"], "sd%d" % c["sd"]]}


DIM = {"d": gen.regs(n=(25, 40), p=(2, 4), noise=(0.1, 0.5), mags=(0,), locs=(0, 3)), "shape": st.sampled_from(["lin", "square", "two"]),
       "classes": st.just(0), "meth": st.sampled_from(["sir", "save", "dr", "phd"]), "ns": st.sampled_from([3, 5]), "B": gen.ints(1, 4),
       "rs": gen.ints(0, 1000), "cd": st.sampled_from([True, True, False]), "frame": st.booleans()}


@CLAUSES.clause("structural_dim", gen.D(DIM), "more than two variables", 60)
def structural_dim(c):
    X, y = data(c)
    n, p = X.shape
    skip(np.linalg.cond(np.cov(X, rowvar=False)) > 1e4)
    Xa = pd.DataFrame(X.copy()) if c["frame"] else X.copy()

    def go():
        np.random.seed(c["rs"])
        return estimate_structural_dim(c["meth"], Xa, y.copy(), B=c["B"], n_slices=c["ns"], center_data=c["cd"])
    try:
        h, md = go()
        h2, md2 = go()
    except np.linalg.LinAlgError:
        skip(True, "degenerate bootstrap sample")
    md = vec(md, "mean differences", p)
    require(int(h) == h and 1 <= h <= p, "structural dimension %r outside 1..%d", h, p)
    require(md.min() >= -1e-12 and md.max() <= 1 + 1e-8, "mean distances between projections outside [0,1]: %s", md)
    require(md[int(h) - 1] <= md.min() + 1e-12, "dimension %d does not have the smallest mean distance: %s", h, md)
    require(h == h2, "not reproducible under a fixed seed: %s, %s", h, h2)
    close(md, vec(md2, "mean differences", p), "mean differences under a fixed seed", 1e-9)
    return {"nontrivial": p > 2, "tags": [c["meth"], "h%d" % h]}


PAIR = {"d": gen.regs(n=(80, 120), p=(2, 3), noise=(0.1,), fams=("normal",), mags=(0,), locs=(0, 3), sparse=(0,)), "rs": gen.ints(0, 1000),
        "meth": st.sampled_from(["sir", "dr"]), "B": gen.ints(3, 5)}


@CLAUSES.clause("paired_bootstrap", gen.D(PAIR), "every case", 24)
def paired_bootstrap(c):
    """A strong linear signal: the direction of a resample of cases stays near the estimated one."""
    X, y = gen.reg(c["d"])
    np.random.seed(c["rs"])
    h, md = estimate_structural_dim(c["meth"], X.copy(), y.copy(), B=c["B"], n_slices=5)
    md = vec(md, "mean differences", X.shape[1])
    require(md[0] < 0.4, "one direction of a strong linear model moves by %.3f under resampling", md[0])
    return {"nontrivial": True, "tags": [c["meth"]]}
