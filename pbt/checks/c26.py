"""C26: robust losses and cross-validation tables report what they say."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import norm
from sklearn.metrics import make_scorer, mean_absolute_error, mean_squared_error
from sklearn.model_selection import GridSearchCV, KFold

from direpack import sprm
from direpack.cross_validation._cv_support_functions import cv_score_table, robust_loss
from direpack.sprm._m_support_functions import Fair, Hampel, Huber
from ..core import Registry, arr, att, close, require, scalar, skip
from .. import gen, models, refs

CLAUSES = Registry()
ASSUMPTIONS = ["at least one case with positive weight",
               "validation scores weighted by case weights: training data only (known finding)",
               "grids over sparsity and number of components, the two columns of the table"]
FUN = {"Hampel": Hampel, "Huber": Huber, "Fair": Fair}
MET = {"mse": (mean_squared_error, lambda r: r ** 2), "mae": (mean_absolute_error, np.abs)}


def weight(fun, r, cut):
    r = np.abs(r)
    if fun == "Hampel":
        return refs.hampel_w(r, *cut)
    if fun == "Huber":
        return refs.huber_w(r, cut[0])
    return refs.fair_w(r, cut[0])


LOSS = {"n": gen.ints(3, 40), "seed": gen.seeds(), "sc": st.sampled_from([0.1, 1.0, 3.0, 30.0]), "fun": st.sampled_from(["default", "Hampel", "Huber", "Fair"]), "met": st.sampled_from(["default", "mse", "mae"]),
        "cut": st.sampled_from(["default", [1.5, 2.5, 4.0], [0.3, 0.5, 0.9], [2.0, 5.0, 5.5]]), "cont": st.sampled_from(["1d", "2d", "frame", "series", "int"])}


@CLAUSES.clause("robust_loss", gen.D(LOSS), "some residual beyond the first cut-off", 600)
def loss(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    y = rng.normal(0, 2, n)
    f = y + c["sc"] * rng.standard_t(2, n)
    if c["cont"] == "int":
        y, f = np.round(y * 3).astype(int), np.round(f * 3).astype(int)
    kw = {}
    fun, met = "Hampel", "mse"
    cut = [norm.ppf(0.975), norm.ppf(0.99), norm.ppf(0.999)]
    if c["fun"] != "default":
        fun = c["fun"]
        kw["fun"] = FUN[fun]
    if c["met"] != "default":
        met = c["met"]
        kw["lfun"] = MET[met][0]
    if c["cut"] != "default":
        cut = c["cut"]
        kw.update(probct=cut[0], hampelb=cut[1], hampelr=cut[2])
    r = y.astype(float) - f
    w = weight(fun, r, cut)
    skip(w.sum() < 1e-9)
    want = np.sum(w * MET[met][1](r)) / np.sum(w)

    def wrap(a):
        return {"1d": a.copy(), "2d": a.reshape(-1, 1).copy(), "int": a.copy()}.get(c["cont"], None) if c["cont"] in ("1d", "2d", "int") else (
            pd.Series(a) if c["cont"] == "series" else pd.DataFrame({"y": a}))
    ya, fa = wrap(y), wrap(f)
    got = scalar(robust_loss(ya, fa, **kw), "robust loss")
    close(got, want, "robust loss", 1e-9)
    close(np.asarray(ya, float).ravel(), y.astype(float), "response left alone", 0, atol=0)
    # errors on the other side count alike
    got2 = scalar(robust_loss(wrap(-y), wrap(-f), **kw), "robust loss of the negated data")
    close(got2, got, "robust loss of the negated data", 1e-9)
    # small errors: the plain metric
    s = 0.5 * cut[0] / max(np.abs(r).max(), 1e-9)
    if fun != "Fair" and c["cont"] != "int":
        r2 = r * min(1.0, s)
        plain = scalar(robust_loss(wrap(y), wrap(y - r2), **kw), "robust loss of small errors")
        close(plain, np.mean(MET[met][1](r2)), "robust loss of small errors against the plain metric", 1e-6)
    return {"nontrivial": bool(np.any(np.abs(r) > cut[0])), "tags": [fun, met, c["cont"]]}


CV = {"d": gen.regs(n=(24, 36), p=(3, 5), mags=(0,), noise=(0.1, 0.5)), "etas": st.lists(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.7, 0.125, 0.1249, 0.3333, 0.30001, 0.0625]), min_size=1, max_size=3, unique=True),
      "ks": st.lists(st.sampled_from([1, 2, 3]), min_size=1, max_size=2, unique=True), "fun": st.sampled_from(["Hampel", "Huber", "Fair"]), "score": st.sampled_from(["r2", "robust"]),
      "folds": st.sampled_from([2, 3]), "order": st.booleans(), "out": gen.ints(0, 2)}


@CLAUSES.clause("grid_search", gen.D(CV), "several settings", 40)
def grid_search(c):
    X, y = gen.reg(c["d"])
    rng = np.random.default_rng([c["d"]["seed"], 4])
    for i in rng.permutation(len(y))[:c["out"]]:
        y[i] += 20 * np.std(y)
    cv = KFold(c["folds"])
    scoring = make_scorer(robust_loss, greater_is_better=False) if c["score"] == "robust" else None
    grid = {"eta": c["etas"], "n_components": c["ks"]} if c["order"] else {"n_components": c["ks"], "eta": c["etas"]}
    gs = GridSearchCV(sprm(fun=c["fun"], verbose=False), grid, cv=cv, scoring=scoring, refit=False)
    gs.fit(X.copy(), y.copy())
    tab = cv_score_table(gs)
    require(list(tab.columns) == ["etas", "n_components", "score"], "columns of the table: %s", list(tab.columns))
    got = {}
    for _, row in tab.iterrows():
        k = (float(row["etas"]), int(row["n_components"]))
        require(k not in got, "setting %s listed twice", k)
        got[k] = float(row["score"])
    want = {}
    for e in c["etas"]:
        for k in c["ks"]:
            s = []
            for tr, te in cv.split(X):
                try:
                    m = sprm(fun=c["fun"], eta=e, n_components=k, verbose=False).fit(X[tr].copy(), y[tr].copy())
                    pr = np.asarray(m.predict(X[te].copy()), float).ravel()
                except Exception:
                    s.append(np.nan)
                    continue
                if c["score"] == "robust":
                    r = y[te] - pr
                    w = weight("Hampel", r, [norm.ppf(0.975), norm.ppf(0.99), norm.ppf(0.999)])
                    s.append(-np.sum(w * r ** 2) / np.sum(w) if w.sum() > 0 else np.nan)
                else:
                    s.append(1 - np.sum((y[te] - pr) ** 2) / np.sum((y[te] - y[te].mean()) ** 2))
            want[(float(e), int(k))] = float(np.mean(s))
    require(set(got) == set(want), "settings %s, grid %s", sorted(got), sorted(want))
    for k in want:
        if np.isnan(want[k]) or np.isnan(got[k]):
            continue
        close(got[k], want[k], "score of eta=%g, n_components=%d" % k, 1e-6, atol=1e-8)
    return {"nontrivial": len(want) > 1 and not np.isnan(list(want.values())).all(), "tags": [c["score"], c["fun"], "n%d" % len(want)]}


VS = {"d": gen.regs(n=(15, 30), p=(2, 5), mags=(0,)), "fun": st.sampled_from(["Hampel", "Huber", "Fair"]), "k": st.sampled_from([1, 2]), "eta": st.sampled_from([0.0, 0.3]), "out": gen.ints(0, 3), "y2": st.booleans()}


@CLAUSES.clause("valscore", gen.D(VS), "some case weight below one", 120)
def valscore(c):
    X, y = gen.reg(c["d"])
    rng = np.random.default_rng([c["d"]["seed"], 4])
    n, p = X.shape
    for i in rng.permutation(n)[:c["out"]]:
        y[i] += 20 * np.std(y)
    try:
        m = sprm(fun=c["fun"], eta=c["eta"], n_components=min(c["k"], p), verbose=False).fit(X.copy(), y.copy())
    except Exception:
        skip(True)
    sh = (lambda a: a.reshape(-1, 1).copy()) if c["y2"] else (lambda a: a.copy())

    def r2(X_, y_, w):
        r = y_ - np.asarray(m.predict(X_), float).ravel()
        mu = np.sum(w * y_) / np.sum(w)
        return 1 - np.sum(w * r ** 2) / np.sum(w * (y_ - mu) ** 2)
    close(scalar(m.valscore(X.copy(), sh(y), "normal"), "valscore"), r2(X, y, np.ones(n)), "valscore on training data", 1e-9)
    w = np.asarray(att(m, "caseweights_"), float).ravel()
    close(scalar(m.valscore(X.copy(), sh(y), "weighted"), "valscore"), r2(X, y, w), "weighted valscore on training data", 1e-9)
    Xn = X.mean(0) + rng.standard_normal((7, p)) * X.std(0)
    yn = rng.standard_normal(7) * y.std() + y.mean()
    close(scalar(m.valscore(Xn.copy(), sh(yn), "normal"), "valscore"), r2(Xn, yn, np.ones(7)), "valscore on new data", 1e-9)
    close(scalar(m.score(Xn.copy(), sh(yn)), "score"), r2(Xn, yn, np.ones(7)), "score on new data", 1e-9)
    return {"nontrivial": bool(np.any(w < 1)), "tags": [c["fun"]]}
