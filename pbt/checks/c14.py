"""C14: sparse partial robust M models predict with what they report."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from direpack import sprm
from ..core import Registry, arr, att, close, require, skip, vec, scalar
from .. import gen, models
from .c09 import outliers, PROBS, KIND

CLAUSES = Registry()
ASSUMPTIONS = ["fits whose inner systems have condition number below 1e6 and whose selections have margin 1e-7",
               "reweighting runs of more than 12 steps are left out of the comparison with the reference iteration",
               "zero-scale variables: constant columns and columns constant up to rounding (scale below 1e-10 of their size)"]
CS = [("median", "mad"), ("mean", "std"), ("l1median", "mad"), ("median", "std"), ("kstepLTS", "mad"), ("median", "None"), ("mean", "None"),
      ("mean", "mad"), ("None", "None")]
base = {"d": gen.regs(pbig=True, wide=True, n=(12, 40), p=(1, 7)), "k": gen.ints(1, 6), "eta": st.sampled_from([0.0, 0.2, 0.5, 0.8]), "fun": KIND,
        "pr": gen.ints(0, len(PROBS) - 1), "cs": st.sampled_from(CS), "mode": st.sampled_from(["specific", "ally"]),
        "init": st.sampled_from(["pcapp", "xonly"]), "maxit": st.sampled_from([2, 3, 5, 10, 100]),
        "tol": st.sampled_from([0.01, 0.01, 0.1, 1e-3]), "const": gen.ints(0, 2), "tiny": gen.ints(0, 1), "out": gen.ints(0, 4), "s": gen.seeds()}


def setup(c):
    X, y = outliers(c, *gen.reg(c["d"]))
    n, p = X.shape
    rng = np.random.default_rng([c["s"], 9])
    con = rng.permutation(p)[: min(c["const"], p - 1)]
    if c["cs"][1] == "None":
        con = con[:0]  # without scaling no variable has zero scale
    X[:, con] = rng.uniform(-3, 3, len(con))
    if len(con) and c["tiny"]:
        X[:, con[0]] *= 1 + 1e-13 * rng.standard_normal(n)  # rounding noise
    nk = p - len(con)
    return X, y, n, p, min(c["k"], nk), sorted(con)


def reference(c, X, y, k, stable=True):
    def model(X, y):
        return models.sprm(X, y, k, c["eta"], c["fun"], PROBS[c["pr"]], c["cs"][0], c["cs"][1], c["mode"], c["init"],
                           c["maxit"], c["tol"])

    with np.errstate(all="ignore"):
        try:
            ref = model(X, y)
        except np.linalg.LinAlgError:
            ref = None
    skip(ref is None or not np.all(np.isfinite(ref["b"])) or ref["gap"] < 1e-7 * c["tol"] or ref["margin"] < 1e-7 or ref["cond"] > 1e6)
    skip(np.any(np.abs(ref["w"] - 1e-6) < 1e-7))
    skip(stable and models.sensitivity(model, X, y, ref) > 3e3, "rounding decides where the iteration goes")
    return ref


def fit(c, X, y, k, **kw):
    pr = PROBS[c["pr"]]
    m = sprm(k, c["eta"], fun=c["fun"], probp1=pr[0], probp2=pr[1], probp3=pr[2], centre=c["cs"][0], scale=c["cs"][1],
             start_cutoff_mode=c["mode"], start_X_init=c["init"], maxit=c["maxit"], tol=c["tol"], verbose=False, **kw)
    m.fit(X.copy(), y.copy())
    return m


@CLAUSES.clause("reference", gen.D(base), "some weight below one", 700)
def c_ref(c):
    X, y, n, p, k, con = setup(c)
    ref = reference(c, X, y, k)
    skip(ref["loops"] > 12)
    m = fit(c, X, y, k)
    kp = ref["keep"]
    sx = np.std(X, axis=0)[kp]
    close(vec(att(m, "coef_"), "coef_", len(kp)) * sx, ref["coef"] * sx, "coefficients", 1e-5)
    S = np.abs(y).max() + np.sum(np.abs(ref["coef"]) * np.abs(X[:, kp]).max(0))
    close(scalar(att(m, "intercept_"), "intercept_"), np.float64(ref["intercept"]), "intercept", 1e-5, scale=S)
    close(arr(att(m, "x_scores_"), "x_scores_", (n, k)), ref["T"], "scores", 1e-4)
    close(arr(att(m, "x_loadings_"), "x_loadings_", (len(kp), k)), ref["P"], "loadings", 1e-4)
    return {"nontrivial": bool(np.any(ref["w"] < 1)), "tags": [c["fun"], "loops%d" % min(ref["loops"], 6)]}


@CLAUSES.clause("identities", gen.D(dict(base, m=gen.ints(1, 6))), "zero-scale variable removed or some variable dropped", 900)
def c_id(c):
    X, y, n, p, k, con = setup(c)
    reference(c, X, y, k, stable=False)
    m = fit(c, X, y, k)
    kp = [i for i in range(p) if i not in con]
    require([int(i) for i in np.asarray(att(m, "non_zero_scale_vars_")).reshape(-1)] == kp,
            "non_zero_scale_vars_ is %s, expected %s", np.asarray(m.non_zero_scale_vars_), kp)
    q = len(kp)
    b = vec(att(m, "coef_"), "coef_", q)
    b0 = scalar(att(m, "intercept_"), "intercept_")
    Xk = X[:, kp]
    S = np.abs(y).max() + np.sum(np.abs(b) * np.abs(Xk).max(0))
    f = Xk @ b + b0
    close(vec(att(m, "fitted_"), "fitted_", n), f, "fitted values", 1e-8, scale=S)
    close(vec(att(m, "residuals_"), "residuals_", n), y - f, "residuals", 1e-8, scale=S)
    close(vec(m.predict(X.copy()), "predictions", n), f, "predictions on training data", 1e-8, scale=S)
    e = y - Xk @ b
    centre, scale = c["cs"]
    want = np.mean(e) if centre == "mean" else 0.0 if centre == "None" else np.median(e)
    close(b0, want, "intercept", 1e-8, scale=S)
    # location and scale used
    _, mX, sX = models.scaled(X, centre, scale)
    _, my, sy = models.scaled(y, centre, scale)
    close(vec(att(m, "x_loc_"), "x_loc_", p), mX, "x_loc_", 1e-8, scale=np.abs(X).max())
    close(vec(att(m, "x_sca_"), "x_sca_", p), sX, "x_sca_", 1e-8, scale=np.abs(X).max())
    close(scalar(att(m, "y_loc_"), "y_loc_"), my[0], "y_loc_", 1e-8, scale=np.abs(y).max())
    close(scalar(att(m, "y_sca_"), "y_sca_"), sy[0], "y_sca_", 1e-8, scale=np.abs(y).max())
    Xs = (Xk - mX[kp]) / sX[kp]
    R = arr(att(m, "x_Rweights_"), "x_Rweights_", (q, k))
    TS = np.max(np.abs(Xs) @ np.abs(R))
    close(arr(att(m, "x_scores_"), "x_scores_", (n, k)), Xs @ R, "scores against scaled data times rotations", 1e-8, scale=TS)
    close(arr(m.transform(X.copy()), "transform", (n, k)), Xs @ R, "transform of training data", 1e-8, scale=TS)
    # scaled and unscaled model
    bs = vec(att(m, "coef_scaled_"), "coef_scaled_", q)
    close(b * sX[kp] / sy[0], bs, "scaled coefficients", 1e-8)
    if scale != "None":
        bs0 = scalar(att(m, "intercept_scaled_"), "intercept_scaled_")
        close((Xs @ bs + bs0) * sy[0] + my[0], f, "fit of the scaled model", 1e-7, scale=S + np.abs(my[0]) + np.sum(np.abs(b * mX[kp])))
    else:  # the data are in their own units
        close(scalar(att(m, "intercept_scaled_"), "intercept_scaled_"), b0, "intercept of the model without scaling", 1e-8, scale=S)
    # new data, whatever the removed variables hold
    rng = np.random.default_rng([c["s"], 3])
    Xn = X.mean(0) + 2 * np.std(X, axis=0) * rng.standard_normal((c["m"], p))
    if con:
        Xn[:, con] = 100 * rng.standard_normal((c["m"], len(con)))
    Sn = S + np.sum(np.abs(b) * np.abs(Xn[:, kp]).max(0))
    close(vec(m.predict(Xn.copy()), "predictions", c["m"]), Xn[:, kp] @ b + b0, "predictions on new data", 1e-8, scale=Sn)
    Zn = (Xn[:, kp] - mX[kp]) / sX[kp]
    close(arr(m.transform(Xn.copy()), "transform", (c["m"], k)), Zn @ R, "scores of new data", 1e-8, scale=np.max(np.abs(Zn) @ np.abs(R)))
    # same answers one case at a time
    i = int(rng.integers(c["m"]))
    close(vec(m.predict(Xn[i : i + 1].copy()), "prediction of one case", 1)[0], Xn[i, kp] @ b + b0, "prediction of one case", 1e-8, scale=Sn)
    drop = np.abs(b * np.std(Xk, axis=0)) <= 1e-13 * np.max(np.abs(b * np.std(Xk, axis=0)))
    ret = sorted(int(round(float(i))) for i in np.asarray(att(m, "colret_")).reshape(-1))
    require(ret == [int(i) for i in np.flatnonzero(~drop)], "retained %s, non-zero coefficients %s", ret, np.flatnonzero(~drop))
    return {"nontrivial": bool(con or np.any(drop)), "tags": ["/".join(c["cs"]), "const%d" % len(con), c["fun"]]}


@CLAUSES.clause("tau_fallback", gen.D({"d": gen.regs(n=(12, 30), p=(2, 5)), "s": gen.seeds(), "eta": st.sampled_from([0.0, 0.5])}), "always", 150)
def c_tau(c):
    # a variable with zero mad switches the tau scale to mad scaling and is removed
    X, y = gen.reg(c["d"])
    n, p = X.shape
    rng = np.random.default_rng(c["s"])
    j = int(rng.integers(p))
    X[:, j] = 2.0
    X[rng.permutation(n)[: n // 4], j] = 5.0
    m = sprm(1, c["eta"], centre="median", scale="scaleTau2", verbose=False)
    m.fit(X.copy(), y.copy())
    r = sprm(1, c["eta"], centre="median", scale="mad", verbose=False)
    r.fit(X.copy(), y.copy())
    kp = [i for i in range(p) if i != j]
    require([int(i) for i in np.asarray(att(m, "non_zero_scale_vars_")).reshape(-1)] == kp, "zero scale variable kept")
    close(vec(m.predict(X), "predictions", n), vec(r.predict(X), "predictions", n), "predictions after falling back to mad", 1e-8)
    return {"nontrivial": True}


@CLAUSES.clause("names", gen.D(dict(base, form=st.sampled_from(["list", "frame", "array"]))), "zero-scale variable removed and some variable dropped", 160)
def c_names(c):
    """Retained variables are reported by the names of the columns they are."""
    X, y, n, p, k, con = setup(c)
    ref = reference(c, X, y, k, stable=False)
    names = ["v%s%d" % ("ghbxakqz"[i % 8], i // 8) for i in range(p)]
    cols = {"list": list(names), "array": np.array(names), "frame": True}[c["form"]]
    pr = PROBS[c["pr"]]
    m = sprm(k, c["eta"], fun=c["fun"], probp1=pr[0], probp2=pr[1], probp3=pr[2], centre=c["cs"][0], scale=c["cs"][1],
             start_cutoff_mode=c["mode"], start_X_init=c["init"], maxit=c["maxit"], tol=c["tol"], verbose=False, columns=cols)
    m.fit(pd.DataFrame(X.copy(), columns=names) if c["form"] == "frame" else X.copy(), y.copy())
    kp = [i for i in range(p) if i not in con]
    b = vec(att(m, "coef_"), "coef_", len(kp)) * np.std(X[:, kp], axis=0)
    on = np.abs(b) > 1e-13 * np.max(np.abs(b))
    want = {names[i] for i, o in zip(kp, on) if o}
    got = [str(v) for v in np.ravel(np.asarray(att(m, "colret_")))]
    require(len(got) == len(set(got)) and set(got) == want, "retained variables reported as %s, non-zero coefficients belong to %s", got, sorted(want))
    return {"nontrivial": bool(con) and not np.all(on), "tags": [c["form"]]}
