"""C10: robust M regression."""
import numpy as np
from hypothesis import strategies as st

from direpack import rm
from ..core import Registry, arr, att, close, require, skip, vec, scalar
from .. import gen, models
from .c09 import outliers, PROBS, CS, KIND

CLAUSES = Registry()
ASSUMPTIONS = ["more rows than columns, non-zero residual and leverage medians",
               "reweighting runs of more than 12 steps are left out of the comparison with the reference iteration"]
base = {"d": gen.regs(pbig=True, n=(10, 40), p=(1, 5)), "fun": KIND, "pr": gen.ints(0, len(PROBS) - 1), "cs": st.sampled_from(CS),
        "mode": st.sampled_from(["specific", "ally"]), "maxit": st.sampled_from([2, 3, 4, 6, 10, 100, 100]),
        "tol": st.sampled_from([0.01, 0.01, 0.1, 1e-4]), "out": gen.ints(0, 4), "s": gen.seeds()}


def fit(c, X, y):
    pr = PROBS[c["pr"]]
    m = rm(fun=c["fun"], probp1=pr[0], probp2=pr[1], probp3=pr[2], centre=c["cs"][0], scale=c["cs"][1],
           start_cutoff_mode=c["mode"], maxit=c["maxit"], tol=c["tol"], verbose=False)
    m.fit(X.copy(), y.copy())
    return m


def ysc(y):
    return np.max(np.abs(y)) + 1


@CLAUSES.clause("irls", gen.D(base), "some weight strictly below one", 900)
def c_irls(c):
    X, y = outliers(c, *gen.reg(c["d"]))
    n, p = X.shape

    def model(X, y):
        return models.rm(X, y, c["fun"], PROBS[c["pr"]], c["cs"][0], c["cs"][1], c["mode"], c["maxit"], c["tol"])

    ref = model(X, y)
    skip(not np.all(np.isfinite(ref["b"])) or ref["gap"] < 1e-8 * c["tol"] or ref["loops"] > 12)
    skip(np.linalg.cond(ref["Xs"]) > 1e5)
    skip(models.sensitivity(model, X, y, ref) > 3e3, "rounding decides where the iteration goes")
    raw = ref["w"]
    skip(np.any(np.abs(raw - 1e-6) < 1e-7))
    m = fit(c, X, y)
    sc = np.std(X, axis=0) + 1e-300
    close(vec(att(m, "coef_scaled_"), "coef_scaled_", p), ref["b"], "coefficients on the scaled data", 1e-5)
    close(vec(att(m, "coef_"), "coef_", p) * sc, ref["coef"] * sc, "coefficients", 1e-5)
    close(scalar(att(m, "intercept_"), "intercept_"), np.float64(ref["intercept"]), "intercept", 1e-5,
          scale=ysc(y) + np.sum(np.abs(ref["coef"]) * np.abs(X).max(0)))
    close(vec(att(m, "caseweights_"), "caseweights_", n), ref["w"], "case weights", 1e-5)
    return {"nontrivial": bool(np.any(ref["w"] < 1)), "tags": [c["fun"], "loops%d" % min(ref["loops"], 6)]}


@CLAUSES.clause("settled", gen.D({"seed": gen.seeds(), "n": gen.ints(10, 24), "p": gen.ints(1, 4), "df": st.sampled_from([1, 1, 2]), "fun": st.sampled_from(["Fair", "Huber", "Hampel", "Fair"]),
                                  "pr": gen.ints(0, len(PROBS) - 1), "cs": st.sampled_from(CS), "mode": st.sampled_from(["specific", "ally"]), "tol": st.sampled_from([1e-6, 1e-8, 1e-9])}),
                "reweighting takes more than fifteen rounds", 500)
def c_settled(c):
    """Heavy-tailed errors: the reweighting settles slowly, and is carried on until it has."""
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p)) * rng.uniform(0.5, 2, p)
    y = X @ rng.uniform(-2, 2, p) + rng.standard_t(c["df"], n)
    X = X + rng.uniform(-3, 3, p)

    def model(X, y):
        return models.rm(X, y, c["fun"], PROBS[c["pr"]], c["cs"][0], c["cs"][1], c["mode"], 400, c["tol"])

    ref = model(X, y)
    skip(not np.all(np.isfinite(ref["b"])) or ref["loops"] > 390 or np.linalg.cond(ref["Xs"]) > 1e3)
    skip(np.any(np.abs(ref["w"] - 1e-6) < 1e-7))
    skip(models.sensitivity(model, X, y, ref, eps=1e-11) > 1e4 or models.sensitivity(model, X, y, ref, eps=1e-7) > 1e3, "rounding decides where the iteration goes")
    m = rm(fun=c["fun"], probp1=PROBS[c["pr"]][0], probp2=PROBS[c["pr"]][1], probp3=PROBS[c["pr"]][2], centre=c["cs"][0], scale=c["cs"][1],
           start_cutoff_mode=c["mode"], maxit=400, tol=c["tol"], verbose=False)
    m.fit(X.copy(), y.copy())
    lim = 1e-5 + 100 * c["tol"]  # rounding may end the iteration a round earlier or later
    close(vec(att(m, "coef_scaled_"), "coef_scaled_", p), ref["b"], "coefficients on the scaled data", lim)
    close(vec(att(m, "caseweights_"), "caseweights_", n), ref["w"], "case weights", lim)
    return {"nontrivial": ref["loops"] > 15, "tags": [c["fun"], "loops%d" % (10 * (ref["loops"] // 10))]}


@CLAUSES.clause("consistent", gen.D(dict(base, m=gen.ints(1, 8))), "non-zero slopes", 700)
def c_cons(c):
    X, y = outliers(c, *gen.reg(c["d"]))
    n, p = X.shape
    m = fit(c, X, y)
    b = vec(att(m, "coef_"), "coef_", p)
    b0 = scalar(att(m, "intercept_"), "intercept_")
    S = ysc(y) + np.sum(np.abs(b) * np.abs(X).max(0))
    f = X @ b + b0
    close(vec(att(m, "fitted_"), "fitted_", n), f, "fitted values", 1e-8, scale=S)
    close(vec(att(m, "residuals_"), "residuals_", n), y - f, "residuals", 1e-8, scale=S)
    close(vec(m.predict(X.copy()), "predictions", n), f, "predictions on training data", 1e-8, scale=S)
    rng = np.random.default_rng([c["s"], 3])
    Xn = X.mean(0) + np.std(X, axis=0) * 3 * rng.standard_normal((c["m"], p))
    close(vec(m.predict(Xn.copy()), "predictions", c["m"]), Xn @ b + b0, "predictions on new data", 1e-8,
          scale=S + np.sum(np.abs(b) * np.abs(Xn).max(0)))
    e = y - X @ b
    want = np.mean(e) if c["cs"][0] == "mean" else np.median(e)
    close(b0, want, "intercept against what the slope leaves over", 1e-8, scale=S)
    # the same model on the scaled data
    bs = vec(att(m, "coef_scaled_"), "coef_scaled_", p)
    bs0 = scalar(att(m, "intercept_scaled_"), "intercept_scaled_")
    Xs, mX, sX = models.scaled(X, *c["cs"])
    _, my, sy = models.scaled(y, *c["cs"])
    close(vec(att(m, "x_loc_"), "x_loc_", p), mX, "x_loc_", 1e-9, scale=np.abs(X).max())
    close(vec(att(m, "x_sca_"), "x_sca_", p), sX, "x_sca_", 1e-9, scale=np.abs(X).max())
    close(scalar(att(m, "y_loc_"), "y_loc_"), my[0], "y_loc_", 1e-9, scale=ysc(y))
    close(scalar(att(m, "y_sca_"), "y_sca_"), sy[0], "y_sca_", 1e-9, scale=ysc(y))
    if c["cs"][1] != "None":
        close((Xs @ bs + bs0) * sy[0] + my[0], f, "fit of the scaled model", 1e-7, scale=S)
    else:  # the data are in their own units
        close(bs0, b0, "intercept of the model without scaling", 1e-8, scale=S)
    return {"nontrivial": bool(np.any(b != 0)), "tags": [c["fun"], "/".join(c["cs"])]}


@CLAUSES.clause("no_outliers_is_ols", gen.D({
    "d": gen.regs(pbig=True, n=(10, 40), p=(1, 5), fams=("normal", "unif", "corr"), noise=(0.5, 1.0)), "fun": st.sampled_from(["Hampel", "Huber"]),
    "cs": st.sampled_from(CS), "mode": st.sampled_from(["specific", "ally"])}), "always", 500)
def c_ols(c):
    X, y = gen.reg(c["d"])
    n, p = X.shape
    Xs = models.scaled(X, *c["cs"])[0]
    ys = models.scaled(y, *c["cs"])[0][:, 0]
    b = np.linalg.lstsq(Xs, ys, rcond=None)[0]
    skip(np.linalg.cond(Xs) > 1e5)
    d = np.sqrt((Xs**2).sum(1))
    # cut-offs 6.7, 6.8, 6.9 for residuals: no case is remote
    skip(np.max(d / np.median(d)) > 6 or np.max(models.mstd(ys - Xs @ b)) > 6 or np.max(models.mstd0(y)) > 6)
    m = rm(fun=c["fun"], probp1=1 - 1e-11, probp2=1 - 5e-12, probp3=1 - 2.5e-12, centre=c["cs"][0], scale=c["cs"][1],
           start_cutoff_mode=c["mode"], verbose=False)
    m.fit(X.copy(), y.copy())
    close(vec(att(m, "coef_scaled_"), "coef_scaled_", p), b, "coefficients against least squares", 1e-6)
    require(np.all(vec(att(m, "caseweights_"), "caseweights_", n) == 1), "weights below one without remote cases")
    if tuple(c["cs"]) in (("mean", "std"), ("mean", "None")):
        A = np.column_stack([np.ones(n), X])
        full = np.linalg.lstsq(A, y, rcond=None)[0]
        close(vec(m.predict(X), "predictions", n), A @ full, "predictions against least squares with intercept", 1e-6, scale=ysc(y))
    return {"nontrivial": True, "tags": ["/".join(c["cs"])]}
