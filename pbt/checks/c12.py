"""C12: sparsity by soft-thresholding."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from direpack import snipls, sprm
from ..core import Registry, arr, att, close, require, skip, vec, scalar
from .. import gen, models

CLAUSES = Registry()
ASSUMPTIONS = ["cases in which a covariance lies within 1e-7 of its threshold are left out",
               "components with a visible response covariance; inner systems with condition number below 1e6"]
ETA = st.one_of(gen.ints(0, 99), gen.ints(30, 95)).map(lambda i: i / 100.0)


def nonzero(b):
    b = np.abs(np.asarray(b))
    return [int(i) for i in np.flatnonzero(b > 1e-13 * (b.max() + 1e-300))]

CS = [("mean", "None"), ("mean", "std"), ("median", "mad"), ("None", "None"), ("mean", "mad")]
base = {"d": gen.regs(pbig=True, wide=True, n=(8, 40), p=(1, 10)), "k": gen.ints(1, 5), "eta": ETA, "cs": st.sampled_from(CS),
        "names": st.sampled_from(["no", "list", "array", "index", "frame"])}


def setup(c):
    X, y = gen.reg(c["d"])
    n, p = X.shape
    k = min(c["k"], p, n - 2)
    try:
        with np.errstate(all="ignore"):
            ref = models.snipls(X, y, c["eta"], k, *c["cs"])
    except np.linalg.LinAlgError:
        skip()
    skip(not np.all(np.isfinite(ref["B"])) or ref["cond"] > 1e6 or ref["margin"] < 1e-7 or np.any(ref["yev"] < 1e-7))
    nm = ["v%d" % i for i in range(p)]
    cols = {"no": False, "list": list(nm), "array": np.array(nm), "index": pd.Index(nm), "frame": True}[c["names"]]
    Xin = pd.DataFrame(X, columns=nm) if c["names"] == "frame" else X.copy()
    m = snipls(eta=c["eta"], n_components=k, verbose=False, columns=cols, centre=c["cs"][0], scale=c["cs"][1])
    m.fit(Xin, y.copy())
    return X, y, n, p, k, ref, m, nm


def colret(m, names, nm, what):
    r = att(m, "colret_")
    r = [] if r is None else list(np.asarray(r).reshape(-1))
    if names == "no":
        return sorted(int(round(float(i))) for i in r)
    require(all(str(x) in nm for x in r), "%s reports unknown names %s", what, r)
    return sorted(nm.index(str(x)) for x in r)


@CLAUSES.clause("reference", gen.D(base), "some variable is dropped", 1200)
def c_ref(c):
    X, y, n, p, k, ref, m, nm = setup(c)
    sx = np.std(X, axis=0) + 1e-300
    W = arr(att(m, "x_weights_"), "x_weights_", (p, k))
    # the sign of a selected variable's zero covariance is rounding; the model does not depend on it
    signed = ref["smargin"] > 1e-8
    if signed:
        close(W, ref["W"], "weights", 1e-5)
        close(arr(att(m, "x_Rweights_"), "x_Rweights_", (p, k)), ref["R"], "rotations", 1e-4)
    close(vec(att(m, "coef_"), "coef_", p) * sx, ref["coef"] * sx, "coefficients", 1e-5)
    S = np.max(np.abs(y)) + np.sum(np.abs(ref["coef"]) * np.abs(X).max(0))
    close(scalar(att(m, "intercept_"), "intercept_"), np.float64(ref["intercept"]), "intercept", 1e-6, scale=S)
    close(arr(att(m, "x_loadings_"), "x_loadings_", (p, k)), ref["P"], "loadings", 1e-5)
    close(arr(att(m, "x_scores_"), "x_scores_", (n, k)), ref["T"], "scores", 1e-5)
    close(vec(att(m, "x_ev_"), "x_ev_", k), ref["xev"], "x_ev_", 1e-5, scale=100)
    close(vec(att(m, "y_ev_"), "y_ev_", k), ref["yev"], "y_ev_", 1e-5, scale=100)
    close(vec(att(m, "C_"), "C_", k), ref["C"], "inner relation", 1e-5)
    return {"nontrivial": len(ref["sel"]) < p, "tags": ["k%d" % k, "kept %d%%" % (100 * len(ref["sel"]) // p // 25 * 25)]}


@CLAUSES.clause("support", gen.D(dict(base, s=gen.seeds())), "some variable is dropped", 900)
def c_sup(c):
    X, y, n, p, k, ref, m, nm = setup(c)
    b = vec(att(m, "coef_"), "coef_", p)
    W = arr(att(m, "x_weights_"), "x_weights_", (p, k))
    ret = colret(m, c["names"], nm, "colret_")
    nz = nonzero(b * np.std(X, axis=0))
    require(ret == list(nz), "retained %s but non-zero coefficients at %s", ret, list(nz))
    require(nonzero(np.abs(W).max(1)) == ret, "retained %s but weights on other variables", ret)
    for j in range(1, k):
        # once selected a variable stays available: supports are nested unless a weight is exactly zero
        require(set(nonzero(W[:, j - 1])) <= set(ret), "component %d uses a variable not retained", j - 1)
    # first component: covariances soft-thresholded at eta times the largest
    X0, _, _ = models.scaled(X, *c["cs"])
    y0 = models.scaled(y, *c["cs"])[0][:, 0]
    v = X0.T @ y0
    v = v / np.linalg.norm(v)
    close(W[:, 0], np.sign(v) * np.maximum(np.abs(v) - c["eta"] * np.abs(v).max(), 0), "first weight vector", 1e-7)
    drop = [i for i in range(p) if i not in ret]
    rng = np.random.default_rng(c["s"])
    Xn = X[rng.integers(0, n, 4)].copy()
    p1 = vec(m.predict(Xn), "predictions", 4)
    t1 = arr(m.transform(Xn), "transform", (4, k))
    if drop:
        Xn2 = Xn.copy()
        Xn2[:, drop] += 1e3 * rng.standard_normal((4, len(drop)))
        close(vec(m.predict(Xn2), "predictions", 4), p1, "predictions after changing dropped variables", 1e-9,
              scale=np.abs(p1).max() + np.sum(np.abs(b) * np.abs(X).max(0)))
        close(arr(m.transform(Xn2), "transform", (4, k)), t1, "scores after changing dropped variables", 1e-9)
    return {"nontrivial": bool(drop), "tags": [c["names"]]}


@CLAUSES.clause("monotone", gen.D({"d": gen.regs(pbig=True, wide=True, n=(8, 40), p=(1, 10)), "e1": ETA, "e2": ETA, "cs": st.sampled_from(CS)}),
                "the two sparsity levels keep different sets", 500)
def c_mono(c):
    X, y = gen.reg(c["d"])
    lo, hi = sorted([c["e1"], c["e2"]])
    s = []
    for e in (lo, hi):
        m = snipls(eta=e, n_components=1, verbose=False, centre=c["cs"][0], scale=c["cs"][1]).fit(X.copy(), y.copy())
        s.append(set(nonzero(vec(att(m, "coef_"), "coef_", X.shape[1]) * np.std(X, axis=0))))
    require(s[1] <= s[0], "sparsity %g keeps %s, sparsity %g keeps %s", lo, sorted(s[0]), hi, sorted(s[1]))
    require(len(s[1]) >= 1, "no variable kept")
    return {"nontrivial": s[0] != s[1]}


@CLAUSES.clause("sprm_names", gen.D({
    "d": gen.regs(n=(12, 40), p=(3, 8)), "k": gen.ints(1, 3), "eta": ETA, "cs": st.sampled_from([("median", "mad"), ("mean", "std"), ("l1median", "mad")]),
    "names": st.sampled_from(["no", "list", "array", "index", "frame"]), "const": gen.ints(0, 2), "s": gen.seeds()}),
    "some variable is dropped", 500)
def c_sprm(c):
    X, y = gen.reg(c["d"])
    n, p = X.shape
    rng = np.random.default_rng(c["s"])
    con = sorted(int(i) for i in rng.permutation(p)[: min(c["const"], p - 2)])
    X[:, con] = 3.0
    kp = [i for i in range(p) if i not in con]
    k = min(c["k"], len(kp))
    nm = ["v%d" % i for i in range(p)]
    cols = {"no": False, "list": list(nm), "array": np.array(nm), "index": pd.Index(nm), "frame": True}[c["names"]]
    Xin = pd.DataFrame(X, columns=nm) if c["names"] == "frame" else X.copy()
    m = sprm(k, c["eta"], centre=c["cs"][0], scale=c["cs"][1], verbose=False, columns=cols)
    try:
        m.fit(Xin, y.copy())
    except np.linalg.LinAlgError:
        skip()
    b = np.asarray(att(m, "coef_"), float).reshape(-1)
    skip(not np.all(np.isfinite(b)))
    require(b.size == len(kp), "%d coefficients for %d variables with non-zero scale", b.size, len(kp))
    require(list(np.asarray(att(m, "non_zero_scale_vars_")).reshape(-1)) == kp, "non_zero_scale_vars_ %s, expected %s",
            list(np.asarray(m.non_zero_scale_vars_)), kp)
    ret = colret(m, c["names"], nm, "colret_")
    nz = nonzero(b * np.std(X, axis=0)[kp])
    if c["names"] != "no":
        nz = [kp[i] for i in nz]
    require(ret == nz, "retained %s but non-zero coefficients at %s", ret, nz)
    return {"nontrivial": len(nz) < len(kp), "tags": [c["names"], "const%d" % len(con)]}
