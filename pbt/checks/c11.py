"""C11: sparse NIPALS without sparsity is PLS1."""
import numpy as np
from hypothesis import strategies as st
from sklearn.cross_decomposition import PLSRegression

from direpack import snipls
from ..core import Registry, arr, att, close, require, skip, vec, scalar
from .. import gen, models

CLAUSES = Registry()
ASSUMPTIONS = ["full-rank predictors with condition number below 1e4, components with a visible response covariance",
               "centre mean/median/l1median/None, scale None/std/mad; wide data (p >= n) with at most rank components"]
CS = [("mean", "None"), ("mean", "std"), ("median", "mad"), ("None", "None"), ("l1median", "std"), ("median", "None"), ("mean", "mad"), ("None", "std")]
base = {"d": gen.regs(pbig=True, n=(6, 40), p=(1, 8)), "k": gen.ints(1, 8), "cs": st.sampled_from(CS)}


def setup(c, eta=0.0):
    X, y = gen.reg(c["d"])
    n, p = X.shape
    k = min(c["k"], p, n - 2)
    try:
        with np.errstate(all="ignore"):
            ref = models.snipls(X, y, eta, k, *c["cs"])
    except np.linalg.LinAlgError:
        skip()
    skip(not np.all(np.isfinite(ref["B"])) or ref["cond"] > 1e6 or np.any(ref["yev"] < 1e-7))
    m = snipls(eta=eta, n_components=k, verbose=False, centre=c["cs"][0], scale=c["cs"][1])
    m.fit(X.copy(), y.copy())
    return X, y, n, p, k, ref, m


def S_(X, y, b):
    return np.max(np.abs(y)) + np.sum(np.abs(b) * np.abs(X).max(0))


@CLAUSES.clause("pls1", gen.D(dict(base, cs=st.sampled_from([("mean", "None"), ("mean", "std")]))), "more than one component", 900)
def c_pls(c):
    X, y, n, p, k, ref, m = setup(c)
    sc = c["cs"][1] == "std"
    pls = PLSRegression(n_components=k, scale=sc, max_iter=2000, tol=1e-13)
    pls.fit(X.copy(), y.copy())
    b = vec(att(m, "coef_"), "coef_", p)
    S = S_(X, y, b)
    want = pls.predict(X).reshape(-1)
    close(vec(m.predict(X), "predictions", n), want, "predictions against PLS1", 1e-5, scale=np.std(y) + 1e-9 * S)
    # scores span the same directions
    T = arr(att(m, "x_scores_"), "x_scores_", (n, k))
    Tp = pls.x_scores_
    for j in range(k):
        cs = abs(T[:, j] @ Tp[:, j]) / (np.linalg.norm(T[:, j]) * np.linalg.norm(Tp[:, j]))
        require(cs > 1 - 1e-6, "score vector %d is not the PLS score (cosine %g)", j, cs)
    return {"nontrivial": k > 1, "tags": ["k%d" % k, c["cs"][1]]}


@CLAUSES.clause("full_rank_is_ols", gen.D(dict(base, cs=st.sampled_from([("mean", "None"), ("mean", "std"), ("mean", "mad")]))),
                "more than one column", 500)
def c_ols(c):
    c = dict(c, k=8)
    skip(c["d"]["p"] > min(8, c["d"]["n"] - 2))
    X, y, n, p, k, ref, m = setup(c)
    skip(ref["cond"] > 1e5)
    A = np.column_stack([np.ones(n), X])
    f = A @ np.linalg.lstsq(A, y, rcond=None)[0]
    close(vec(att(m, "fitted_"), "fitted_", n), f, "full-rank fit against least squares", 1e-5, scale=np.std(y) + 1e-8 * np.abs(y).max())
    return {"nontrivial": p > 1}


@CLAUSES.clause("identities", gen.D(dict(base, m=gen.ints(1, 6), s=gen.seeds())), "more than one component", 1000)
def c_id(c):
    X, y, n, p, k, ref, m = setup(c)
    centre, scale = c["cs"]
    b = vec(att(m, "coef_"), "coef_", p)
    b0 = scalar(att(m, "intercept_"), "intercept_")
    S = S_(X, y, b)
    f = X @ b + b0
    close(vec(att(m, "fitted_"), "fitted_", n), f, "fitted values", 1e-8, scale=S)
    close(vec(att(m, "residuals_"), "residuals_", n), y - f, "residuals", 1e-8, scale=S)
    close(vec(m.predict(X.copy()), "predictions", n), f, "predictions on training data", 1e-8, scale=S)
    e = y - X @ b
    want = np.mean(e) if centre == "mean" else 0.0 if centre == "None" else np.median(e)
    close(b0, want, "intercept", 1e-8, scale=S)
    X0, mX, sX = ref["X0"], ref["mX"], ref["sX"]
    close(vec(att(m, "x_loc_"), "x_loc_", p), mX, "x_loc_", 1e-9, scale=np.abs(X).max())
    close(vec(att(m, "x_sca_"), "x_sca_", p), sX, "x_sca_", 1e-9, scale=np.abs(X).max())
    close(scalar(att(m, "y_loc_"), "y_loc_"), ref["my"][0], "y_loc_", 1e-9, scale=np.abs(y).max())
    close(scalar(att(m, "y_sca_"), "y_sca_"), ref["sy"][0], "y_sca_", 1e-9, scale=np.abs(y).max())
    T = arr(att(m, "x_scores_"), "x_scores_", (n, k))
    P = arr(att(m, "x_loadings_"), "x_loadings_", (p, k))
    W = arr(att(m, "x_weights_"), "x_weights_", (p, k))
    R = arr(att(m, "x_Rweights_"), "x_Rweights_", (p, k))
    C = vec(att(m, "C_"), "C_", k)
    nt = np.linalg.norm(T, axis=0)
    G = (T / nt).T @ (T / nt)
    close(G, np.eye(k), "normalised cross products of the scores", 1e-5)
    close(np.linalg.norm(W, axis=0), np.ones(k), "length of weight vectors", 1e-8)
    close(X0 @ R / nt, T / nt, "scores against scaled data times rotations", 1e-5, scale=1.0)
    close(X0.T @ T / nt**2 * nt, P * nt, "loadings against regression of the data on the scores", 1e-5, scale=np.linalg.norm(X0))
    ys = models.scaled(y, centre, scale)[0][:, 0]
    close(T.T @ ys / nt, C * nt, "inner relation", 1e-5, scale=np.linalg.norm(ys))
    bs = vec(att(m, "coef_scaled_"), "coef_scaled_", p)
    close(b * sX / ref["sy"][0], bs, "scaled coefficients", 1e-8, scale=np.abs(bs).max() + 1e-300)
    close((R @ C) * np.linalg.norm(X0, axis=0), bs * np.linalg.norm(X0, axis=0), "coefficients from rotations and inner relation", 1e-4)
    # explained variance: what each component removes
    xev, yev = vec(att(m, "x_ev_"), "x_ev_", k), vec(att(m, "y_ev_"), "y_ev_", k)
    rem, tot, yr, yt = X0.copy(), np.sum(X0**2), ys.copy(), np.sum(ys**2)
    for j in range(k):
        t = T[:, j]
        new, ynew = rem - np.outer(t, P[:, j]), yr - t * C[j]
        close(xev[j], 100 * (np.sum(rem**2) - np.sum(new**2)) / tot, "x_ev_[%d]" % j, 1e-6, scale=100)
        close(yev[j], 100 * (np.sum(yr**2) - np.sum(ynew**2)) / yt, "y_ev_[%d]" % j, 1e-6, scale=100)
        rem, yr = new, ynew
    rng = np.random.default_rng(c["s"])
    Xn = X.mean(0) + 2 * np.std(X, axis=0) * rng.standard_normal((c["m"], p))
    close(vec(m.predict(Xn.copy()), "predictions", c["m"]), Xn @ b + b0, "predictions on new data", 1e-8, scale=S + S_(Xn, y, b))
    Z = (Xn - mX) / np.where(sX == 0, 1, sX)
    close(arr(m.transform(Xn.copy()), "transform", (c["m"], k)), Z @ R, "scores of new data", 1e-8,
          scale=np.max(np.abs(Z) @ np.abs(R)))
    close(arr(m.transform(X.copy()), "transform", (n, k)) / nt, T / nt, "transform of the training data", 1e-5, scale=1.0)
    return {"nontrivial": k > 1, "tags": ["/".join(c["cs"])]}


@CLAUSES.clause("one_more", gen.D(base), "always", 300)
def c_more(c):
    # the first components do not depend on how many are extracted
    X, y, n, p, k, ref, m = setup(c)
    skip(k < 2)
    m1 = snipls(eta=0.0, n_components=k - 1, verbose=False, centre=c["cs"][0], scale=c["cs"][1]).fit(X.copy(), y.copy())
    for a in ("x_weights_", "x_scores_", "x_loadings_", "x_Rweights_"):
        A, B = arr(att(m1, a), a), arr(att(m, a), a)
        require(A.shape == (B.shape[0], k - 1), "%s has shape %s", a, A.shape)
        close(B[:, : k - 1], A, "%s of the first components" % a, 1e-6)
    return {"nontrivial": True}
