"""C17: projection pursuit returns a consistent latent variable decomposition."""
import warnings

import numpy as np
from hypothesis import strategies as st

from direpack import VersatileScaler, capi, dicomo, ppdire
from ..core import Registry, arr, att, close, require, skip, vec, scalar
from .. import gen

CLAUSES = Registry()
ASSUMPTIONS = ["condition number of the standardised predictors below 1e3; components with a score norm above 1e-4 of the data norm",
               "moment-based projection indices, the co-moment index and a user-defined index; SLSQP and grid optimisers",
               "compression: predictions only (the standardised results refer to the compressed coordinates, see known findings)"]


class UserIndex:
    """Minimal user-defined projection index: fourth-root mean of |t|^p."""

    def __init__(self, power=2):
        self.power = power

    def fit(self, x, **kwargs):
        return float(np.mean(np.abs(np.ravel(x)) ** self.power))


ONE = ["var", "std", "user", "kurt"]
TWO = ["cov", "continuum", "capi", "var", "corr", "cos", "dcov", "mdd"]


def index(name):
    if name == "user":
        return UserIndex, {"power": 3}
    if name == "capi":
        return capi, {"max_degree": 3, "projection_index": dicomo, "pi_arguments": {"mode": "cov"}}
    if name in ("dcov", "mdd"):
        return dicomo, {"mode": {"dcov": "cov"}.get(name, name), "est": "distance"}
    return dicomo, {"mode": name}


def build(c, h, **over):
    PI, pia = index(c["pi"])
    opt = {"maxiter": 4, "ndir": 12} if c["opt"] == "grid" else {"maxiter": 60}
    kw = dict(projection_index=PI, pi_arguments=pia, n_components=h, optimizer=c["opt"], optimizer_options=opt,
              center=c["center"], center_data=c["cd"], scale_data=c["sd"], square_pi=c["sq"], alpha=c.get("alpha", 1),
              trimming=c["trim"], verbose=False)
    kw.update(over)
    return ppdire(**kw)


def std_ref(A, c, sd=None, cd=None):
    A = np.asarray(A, float)
    A = A.reshape(-1, 1) if A.ndim == 1 else A
    cd, sd = c["cd"] if cd is None else cd, c["sd"] if sd is None else sd
    if not cd:
        return A.copy(), np.zeros(A.shape[1]), np.ones(A.shape[1])
    vs = VersatileScaler(center=c["center"], scale=("std" if c["center"] == "mean" else "mad") if sd else "None", trimming=c["trim"])
    vs.fit(A.copy())
    m, s = np.ravel(vs.center_).astype(float), np.ravel(vs.scale_).astype(float)
    return (A - m) / s, m, s


def prep(c):
    skip(c["pi"] in ("dcov", "mdd") and c["trim"] > 0, "trimmed energy statistics may be negative")
    X, y = gen.reg(c["d"])
    n, p = X.shape
    h = min(c["h"], p)
    Xs, mX, sX = std_ref(X, c)
    with np.errstate(all="ignore"):
        skip(not np.all(np.isfinite(Xs)) or np.linalg.cond(Xs) > 1e3)
    return X, y, n, p, h, Xs, mX, sX


base = {"d": gen.regs(n=(10, 30), p=(2, 5), mags=(0, 1)), "h": gen.ints(1, 4), "opt": st.sampled_from(["SLSQP", "grid", "SLSQP"]),
        "center": st.sampled_from(["mean", "median", "mean"]), "cd": st.sampled_from([True, True, True, False]),
        "sd": st.sampled_from([True, True, False]), "sq": st.booleans(), "trim": st.sampled_from([0, 0, 0.1]),
        "alpha": st.sampled_from([0.5, 1, 2])}


def small_scores(T, Xs):
    return np.min(np.linalg.norm(T, axis=0)) < 1e-4 * np.linalg.norm(Xs)


def decomposition(m, c, X, n, p, h, Xs, mX, sX, unit=True):
    T = arr(att(m, "x_scores_"), "x_scores_", (n, h), finite=False)
    skip(not np.all(np.isfinite(T)) or small_scores(T, Xs))
    W = arr(att(m, "x_weights_"), "x_weights_", (p, h))
    P = arr(att(m, "x_loadings_"), "x_loadings_", (p, h))
    R = arr(att(m, "x_rotations_"), "x_rotations_", (p, h))
    close(vec(att(m, "x_loc_"), "x_loc_", p), mX, "x_loc_", 1e-9, scale=np.abs(X).max())
    close(vec(att(m, "x_sca_"), "x_sca_", p), sX, "x_sca_", 1e-9, scale=np.abs(sX).max())
    if unit:
        close(np.linalg.norm(W, axis=0), np.ones(h), "length of the weighting vectors", 1e-8)
    nt = np.linalg.norm(T, axis=0)
    close((T / nt).T @ (T / nt), np.eye(h), "normalised cross products of the scores", 1e-6)
    S = np.linalg.norm(Xs)
    if unit:
        close(P * nt, Xs.T @ T / nt, "loadings against the regression of the data on the scores", 1e-7, scale=S)
        # each weighting vector produces its score on the deflated data
        E = Xs.copy()
        for j in range(h):
            close(E @ W[:, j], T[:, j], "score %d against deflated data times its weighting vector" % j, 1e-6, scale=S)
            E = E - np.outer(T[:, j], P[:, j])
    close(Xs @ R / nt, T / nt, "scores against standardised data times rotations", 1e-5, scale=1.0)
    ev = vec(att(m, "x_ev_"), "x_ev_", h)
    return T, W, P, R, nt, ev


def newdata(m, X, R, mX, sX, s, k, nt, T):
    rng = np.random.default_rng(s)
    p = X.shape[1]
    Xn = X.mean(0) + 2 * X.std(0) * rng.standard_normal((k, p))
    Z = (Xn - mX) / sX
    close(arr(m.transform(Xn.copy()), "transform", (k, R.shape[1])), Z @ R, "scores of new data", 1e-8,
          scale=np.max(np.abs((Xn - 0) / sX) @ np.abs(R)) + np.max(np.abs(mX / sX) @ np.abs(R)))
    close(arr(m.transform(X.copy()), "transform", T.shape) / nt, T / nt, "transform of the training data", 1e-5, scale=1.0)
    return Xn


@CLAUSES.clause("one_block", gen.D(dict(base, pi=st.sampled_from(ONE), m=gen.ints(1, 4), s=gen.seeds())), "more than one component", 260)
def c_one(c):
    X, y, n, p, h, Xs, mX, sX = prep(c)
    m = build(c, h)
    m.fit(X.copy())
    T, W, P, R, nt, ev = decomposition(m, c, X, n, p, h, Xs, mX, sX)
    tot = np.sum(Xs**2)
    close(ev, 100 * nt**2 * np.sum(P**2, axis=0) / tot, "explained variance of the components", 1e-7, scale=100)
    require(np.sum(ev) <= 100 * (1 + 1e-9), "explained variances add up to %g %%", np.sum(ev))
    newdata(m, X, R, mX, sX, c["s"], c["m"], nt, T)
    obj = vec(att(m, "Maxobjf_"), "Maxobjf_", h)
    E = Xs.copy()
    f = m.projection_index(**m.pi_arguments)
    for j in range(h):
        v = float(np.squeeze(f.fit(E @ W[:, [j]], trimming=c["trim"], biascorr=False)))
        v = v * v if c["sq"] else v
        close(obj[j], v, "Maxobjf_[%d] against the index of the score" % j, 1e-3 if c["opt"] == "grid" else 1e-6, scale=abs(v) + 1e-6)
        E = E - np.outer(T[:, j], P[:, j])
    return {"nontrivial": h > 1, "tags": [c["pi"], c["opt"], c["center"], "p%d" % p]}


@CLAUSES.clause("two_block", gen.D(dict(base, pi=st.sampled_from(TWO), m=gen.ints(1, 4), s=gen.seeds(),
                                        reg=st.sampled_from(["OLS", "robust", "quantile", "OLS"]), q=st.sampled_from([0.5, 0.25, 0.8]),
                                        kw=st.booleans())), "more than one component", 340)
def c_two(c):
    from direpack import rm
    if c["reg"] == "quantile":
        c = dict(c, d=dict(c["d"], u=0, uy=0))  # the quantile regression library stops on absolute changes
    X, y, n, p, h, Xs, mX, sX = prep(c)
    ys, my, sy = std_ref(y, c)
    skip(not np.all(np.isfinite(ys)) or sy[0] < 1e-8)
    m = build(c, h, regopt=c["reg"])
    extra = {"quantile": c["q"]} if c["reg"] == "quantile" else {}
    if c["reg"] == "robust":
        extra = [{}, {"fun": "Huber", "probp1": 0.9}, {"probp1": 0.8, "probp2": 0.9, "probp3": 0.95}, {"fun": "Fair", "probp1": 0.7},
                 {"probp1": 0.6, "probp2": 0.97, "probp3": 0.999}][c["s"] % 5]
    if c["kw"]:
        m.fit(X.copy(), y=y.copy(), **extra)
    else:
        m.fit(X.copy(), y.copy(), **extra)
    T, W, P, R, nt, ev = decomposition(m, c, X, n, p, h, Xs, mX, sX)
    close(scalar(np.asarray(att(m, "y_loc_"), float), "y_loc_"), my[0], "y_loc_", 1e-9, scale=np.abs(y).max())
    close(scalar(np.asarray(att(m, "y_sca_"), float), "y_sca_"), sy[0], "y_sca_", 1e-9, scale=np.abs(y).max())
    B = arr(att(m, "coef_"), "coef_", (p, h))
    Bs = arr(att(m, "coef_scaled_"), "coef_scaled_", (p, h))
    C = vec(att(m, "y_loadings_"), "y_loadings_", h)
    yv = ys[:, 0]
    if c["reg"] == "OLS":
        close(C * nt, T.T @ yv / nt, "inner relation by least squares", 1e-7, scale=np.linalg.norm(yv))
    elif c["reg"] == "quantile":
        for j in range(h):
            t = T[:, j]

            def loss(a):
                r = yv - t * a
                return np.sum(np.where(r >= 0, c["q"] * r, (c["q"] - 1) * r))
            best = min(loss(a) for a in yv[t != 0] / t[t != 0])
            require(loss(C[j]) <= best + 1e-3 * abs(best) + 1e-9 * np.abs(yv).max(),
                    "quantile regression on score %d has loss %g, optimum %g", j, loss(C[j]), best)
    else:
        for j in range(h):
            kw = {"fun": "Hampel", "probp1": 0.95, "probp2": 0.975, "probp3": 0.99}
            kw.update(extra)
            sc = ("std" if c["center"] == "mean" else "mad") if c["sd"] else "None"
            ref = rm(centre=c["center"], scale=sc, start_cutoff_mode="specific", verbose=False, **kw).fit(T[:, [j]].copy(), ys.copy())
            want = vec(ref.coef_, "rm coefficient", 1)
            close(C[[j]] * nt[j], want * nt[j], "robust inner relation", 1e-5, scale=np.linalg.norm(yv))
    for j in range(h):
        Rj = W[:, :j + 1] @ np.linalg.pinv(P[:, :j + 1].T @ W[:, :j + 1])
        bj = Rj @ C[:j + 1]
        close(Bs[:, j], bj, "scaled coefficients with %d components" % (j + 1), 1e-6, scale=np.abs(bj).max() + 1e-12)
        close(B[:, j] * sX / sy[0], bj, "coefficients with %d components in original units" % (j + 1), 1e-6, scale=np.abs(bj).max() + 1e-12)
    b = B[:, -1]
    S = np.max(np.abs(y)) + np.sum(np.abs(b) * np.abs(X).max(0))
    b0 = scalar(np.asarray(att(m, "intercept_"), float), "intercept_")
    e = y - X @ b
    if c["center"] == "mean":
        k = int(c["trim"] * n)
        want = np.sort(e)[k:n - k].mean()
    else:
        want = np.median(e)
    close(b0, want, "intercept", 1e-8, scale=S)
    f = X @ b + b0
    close(vec(att(m, "fitted_"), "fitted_", n), f, "fitted values", 1e-8, scale=S)
    close(vec(att(m, "residuals_"), "residuals_", n), y - f, "residuals", 1e-8, scale=S)
    close(vec(m.predict(X.copy()), "predictions", n), f, "predictions on training data", 1e-8, scale=S)
    if c["sd"]:
        es = yv - Xs @ Bs[:, -1]
        close(scalar(np.asarray(att(m, "intercept_scaled_"), float), "intercept_scaled_"),
              np.mean(es) if c["center"] == "mean" else np.median(es), "scaled intercept", 1e-7, scale=np.abs(yv).max() + np.abs(es).max())
    Xn = newdata(m, X, R, mX, sX, c["s"], c["m"], nt, T)
    close(vec(m.predict(Xn.copy()), "predictions", c["m"]), Xn @ b + b0, "predictions on new data", 1e-8, scale=S + np.abs(Xn @ b).max())
    return {"nontrivial": h > 1, "tags": [c["pi"], c["opt"], c["reg"], c["center"], "trim%g" % c["trim"]]}


@CLAUSES.clause("more_components", gen.D(dict(base, pi=st.sampled_from(ONE + TWO), via_h=st.booleans())), "always", 140)
def c_more(c):
    X, y, n, p, h, Xs, mX, sX = prep(c)
    skip(h < 2)
    two = c["pi"] in TWO
    a = (y.copy(),) if two else ()
    m = build(c, h).fit(X.copy(), *a)
    T = arr(att(m, "x_scores_"), "x_scores_", (n, h), finite=False)
    skip(not np.all(np.isfinite(T)) or small_scores(T, Xs))
    if c["via_h"]:
        m1 = build(c, h).fit(X.copy(), *a, h=h - 1)
    else:
        m1 = build(c, h - 1).fit(X.copy(), *a)
    for nm in ("x_weights_", "x_scores_", "x_loadings_", "x_rotations_") + (("coef_", "coef_scaled_") if two else ()):
        A, B = arr(att(m1, nm), nm), arr(att(m, nm), nm)
        require(A.shape == (B.shape[0], h - 1), "%s has shape %s for %d components", nm, A.shape, h - 1)
        if nm == "x_rotations_":
            B = m.x_weights_[:, :h - 1] @ np.linalg.pinv(m.x_loadings_[:, :h - 1].T @ m.x_weights_[:, :h - 1])
            close(B, A, nm + " of the first components", 1e-6)
        else:
            close(B[:, : h - 1], A, nm + " of the first components", 1e-6)
    return {"nontrivial": True, "tags": [c["pi"], c["opt"]]}


@CLAUSES.clause("whitened", gen.D(dict(base, cd=st.just(True), sd=st.just(False), trim=st.just(0), pi=st.sampled_from(["kurt", "cov", "var"]),
                                       m=gen.ints(1, 4), s=gen.seeds(), opt=st.sampled_from(["SLSQP", "SLSQP", "grid"]))), "more than one component", 120)
def c_whiten(c):
    X, y, n, p, h, Xs, mX, sX = prep(c)
    two = c["pi"] == "cov"
    m = build(c, h, whiten_data=True, scale_data=True)
    m.fit(X.copy(), *((y.copy(),) if two else ()), mixing=True)
    K = arr(att(m, "whitening_"), "whitening_", (p, p))
    close(K.T @ Xs.T @ Xs @ K, np.eye(p), "whitened data have unit cross products", 1e-6)
    T, W, P, R, nt, ev = decomposition(m, c, X, n, p, h, Xs, mX, sX, unit=False)
    # weighting vectors are the whitening matrix times unit vectors
    u = np.linalg.solve(K, W)
    close(np.linalg.norm(u, axis=0), np.ones(h), "length of the weighting vectors in whitened coordinates", 1e-6)
    Z = Xs @ K * np.sqrt(p)
    close(Z @ u[:, 0], T[:, 0], "first score against whitened data times its weighting vector", 1e-6, scale=np.linalg.norm(Z))
    close(arr(att(m, "mixing_"), "mixing_", (h, p)), np.linalg.pinv(W), "mixing matrix", 1e-7)
    newdata(m, X, R, mX, sX, c["s"], c["m"], nt, T)
    if two:
        b = arr(att(m, "coef_"), "coef_", (p, h))[:, -1]
        S = np.max(np.abs(y)) + np.sum(np.abs(b) * np.abs(X).max(0))
        f = X @ b + scalar(np.asarray(att(m, "intercept_"), float), "intercept_")
        close(vec(att(m, "fitted_"), "fitted_", n), f, "fitted values", 1e-8, scale=S)
        yc = std_ref(y, c)[0][:, 0]
        close(Xs @ b, T @ (T.T @ yc / nt**2), "fit on whitened scores", 1e-6, scale=np.linalg.norm(yc) + 1e-9)
    return {"nontrivial": h > 1, "tags": [c["pi"], c["opt"]]}


@CLAUSES.clause("compressed", gen.D(dict(base, d=gen.regs(n=(8, 14), p=(16, 30), mags=(0,)), pi=st.sampled_from(["cov", "var", "continuum"]), opt=st.just("SLSQP"),
                                         trim=st.just(0), comp=st.sampled_from([True, True, False]), zero=st.sampled_from([False, False, False, True]), m=gen.ints(1, 4), s=gen.seeds())), "more than one component", 100)
def c_comp(c):
    X, y = gen.reg(c["d"])
    n, p = X.shape
    h = min(c["h"], 3)
    if c["zero"]:  # compressed, such data have no robust scale
        skip(c["center"] != "mean")
        X[n // 2 - 1:] = 0.0
    m = build(c, h, compression=c["comp"]).fit(X.copy(), y.copy())
    B = arr(att(m, "coef_"), "coef_", (p, h), finite=False)
    skip(not np.all(np.isfinite(B)))
    b = B[:, -1]
    b0 = scalar(np.asarray(att(m, "intercept_"), float), "intercept_")
    S = np.max(np.abs(y)) + np.sum(np.abs(b) * np.abs(X).max(0))
    f = X @ b + b0
    close(vec(att(m, "fitted_"), "fitted_", n), f, "fitted values", 1e-8, scale=S)
    close(vec(att(m, "residuals_"), "residuals_", n), y - f, "residuals", 1e-8, scale=S)
    e = y - X @ b
    close(b0, np.mean(e) if c["center"] == "mean" else np.median(e), "intercept", 1e-8, scale=S)
    T = arr(att(m, "x_scores_"), "x_scores_", (n, h))
    skip(small_scores(T, T))
    ys, my, sy = std_ref(y, c)
    nt = np.linalg.norm(T, axis=0)
    close((T / nt).T @ (T / nt), np.eye(h), "normalised cross products of the scores", 1e-6)
    # the fitted values are the least squares fit on the scores
    fs = T @ (T.T @ ys[:, 0] / nt**2) * sy[0]
    close(X @ b - np.mean(X @ b), fs - np.mean(fs), "fit against least squares on the scores", 1e-5, scale=np.std(y) + 1e-9 * S)
    rng = np.random.default_rng(c["s"])
    Xn = X.mean(0) + X.std(0) * rng.standard_normal((c["m"], p))
    close(vec(m.predict(Xn.copy()), "predictions", c["m"]), Xn @ b + b0, "predictions on new data", 1e-8, scale=S + np.abs(Xn @ b).max())
    return {"nontrivial": h > 1, "tags": ["compressed" if c["comp"] else "plain"]}
