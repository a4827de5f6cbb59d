"""C16: permutations and changes of units."""
import numpy as np
from hypothesis import strategies as st

from direpack import rm, snipls, sprm
from ..core import Registry, arr, att, close, require, skip, vec, scalar
from .. import gen, models
from .c09 import outliers, PROBS, KIND

CLAUSES = Registry()
ASSUMPTIONS = ["predictor units change column by column only when the scale is std or mad, by one common factor otherwise",
               "shifts only with a centring option; a sign change of the response in SPRM only with median/mad (known finding)",
               "fits whose reference moves by more than 3e3 times a perturbation of the data are left out"]
CS = [("median", "mad"), ("mean", "std"), ("median", "std"), ("mean", "None"), ("median", "None"), ("mean", "mad")]
base = {"est": st.sampled_from(["snipls", "rm", "sprm"]), "d": gen.regs(pbig=True, wide=True, n=(12, 36), p=(1, 6)), "k": gen.ints(1, 3),
        "eta": st.sampled_from([0.0, 0.3, 0.6]), "fun": KIND, "pr": gen.ints(0, len(PROBS) - 1), "cs": st.sampled_from(CS),
        "mode": st.sampled_from(["specific", "ally"]), "init": st.sampled_from(["pcapp", "xonly"]), "maxit": st.sampled_from([3, 10, 100]),
        "out": gen.ints(0, 4), "s": gen.seeds()}


def setup(c):
    X, y = outliers(c, *gen.reg(c["d"]))
    skip(c["est"] == "rm" and X.shape[1] >= X.shape[0] - 1)
    k = min(c["k"], X.shape[1])
    pr, (ce, sc) = PROBS[c["pr"]], c["cs"]
    if c["est"] == "snipls":
        def model(X, y):
            f = models.snipls(X, y, c["eta"], k, ce, sc)
            return dict(b=f["B"], w=np.ones(1), margin=f["margin"], gap=1.0, loops=1, cond=f["cond"], ev=f["yev"].min())

        def fit(X, y):
            return snipls(eta=c["eta"], n_components=k, verbose=False, centre=ce, scale=sc).fit(X.copy(), y.copy())
    elif c["est"] == "rm":
        def model(X, y):
            f = models.rm(X, y, c["fun"], pr, ce, sc, c["mode"], c["maxit"])
            return dict(f, margin=1.0, cond=np.linalg.cond(f["Xs"]), ev=1.0)

        def fit(X, y):
            return rm(fun=c["fun"], probp1=pr[0], probp2=pr[1], probp3=pr[2], centre=ce, scale=sc, start_cutoff_mode=c["mode"],
                      maxit=c["maxit"], verbose=False).fit(X.copy(), y.copy())
    else:
        def model(X, y):
            f = models.sprm(X, y, k, c["eta"], c["fun"], pr, ce, sc, c["mode"], c["init"], c["maxit"])
            return None if f is None else dict(f, ev=1.0)

        def fit(X, y):
            return sprm(k, c["eta"], fun=c["fun"], probp1=pr[0], probp2=pr[1], probp3=pr[2], centre=ce, scale=sc,
                        start_cutoff_mode=c["mode"], start_X_init=c["init"], maxit=c["maxit"], verbose=False).fit(X.copy(), y.copy())
    with np.errstate(all="ignore"):
        try:
            r = model(X, y)
        except np.linalg.LinAlgError:
            r = None
    skip(r is None or not np.all(np.isfinite(r["b"])) or r["margin"] < 1e-6 or r["gap"] < 1e-9 or r["loops"] > 12 or r["cond"] > 1e5
         or r["ev"] < 1e-6)
    skip(np.any(np.abs(r["w"] - 1e-6) < 1e-7))
    skip(models.sensitivity(model, X, y, r) > 3e3)
    return X, y, fit


def get(m, X, n, p):
    b = vec(att(m, "coef_"), "coef_", p)
    b0 = scalar(att(m, "intercept_"), "intercept_")
    w = vec(att(m, "caseweights_"), "caseweights_", n) if hasattr(m, "caseweights_") else np.ones(n)
    return b, b0, w, vec(m.predict(X.copy()), "predictions", n)


@CLAUSES.clause("cases", gen.D(base), "always", 700)
def c_rows(c):
    X, y, fit = setup(c)
    n, p = X.shape
    b, b0, w, f = get(fit(X, y), X, n, p)
    o = np.random.default_rng([c["s"], 1]).permutation(n)
    b2, _, w2, f2 = get(fit(X[o], y[o]), X[o], n, p)
    sx = np.std(X, axis=0)
    close(b2 * sx, b * sx, "coefficients after reordering the cases", 1e-5)
    close(w2, w[o], "case weights after reordering the cases", 1e-5)
    close(f2, f[o], "predictions after reordering the cases", 1e-5, scale=np.std(y) + 1e-6 * np.abs(f).max())
    return {"nontrivial": True, "tags": [c["est"]]}


@CLAUSES.clause("columns", gen.D(base), "more than one predictor moved", 700)
def c_cols(c):
    X, y, fit = setup(c)
    n, p = X.shape
    b, b0, w, f = get(fit(X, y), X, n, p)
    o = np.random.default_rng([c["s"], 2]).permutation(p)
    b2, _, w2, f2 = get(fit(X[:, o], y), X[:, o], n, p)
    sx = np.std(X, axis=0)
    close(b2 * sx[o], (b * sx)[o], "coefficients after reordering the predictors", 1e-5)
    close(w2, w, "case weights after reordering the predictors", 1e-5)
    close(f2, f, "predictions after reordering the predictors", 1e-5, scale=np.std(y) + 1e-6 * np.abs(f).max())
    return {"nontrivial": bool(np.any(o != np.arange(p))), "tags": [c["est"]]}


@CLAUSES.clause("response_units", gen.D(dict(base, a=st.sampled_from([-1.0, -1.0, 2.0, 0.01, -50.0, 1000.0, 1.0, 1e-6, 1e6]), sh=st.sampled_from([0.0, 0.0, 5.0, -300.0]))),
                "factor other than one", 800)
def c_y(c):
    X, y, fit = setup(c)
    n, p = X.shape
    a = c["a"]
    if c["est"] == "sprm" and tuple(c["cs"]) != ("median", "mad"):
        a = abs(a)
    sh = c["sh"] * np.std(y) * abs(a)
    b, b0, w, f = get(fit(X, y), X, n, p)
    b2, b02, w2, f2 = get(fit(X, a * y + sh), X, n, p)
    sx = np.std(X, axis=0)
    close(b2 * sx, a * b * sx, "coefficients for the response times %g plus %g" % (a, sh), 1e-5)
    close(w2, w, "case weights after changing the response's units", 1e-5)
    close(f2, a * f + sh, "predictions after changing the response's units", 1e-5, scale=abs(a) * (np.std(y) + 1e-5 * np.abs(f).max()) + 1e-5 * abs(sh))
    return {"nontrivial": a != 1, "tags": [c["est"], "negative" if a < 0 else "positive"]}


@CLAUSES.clause("predictor_units", gen.D(dict(base, norm=st.sampled_from([0, 0, 1]))), "always", 800)
def c_x(c):
    X, y, fit = setup(c)
    n, p = X.shape
    rng = np.random.default_rng([c["s"], 4])
    if c["cs"][1] == "None":
        a = np.full(p, 10.0 ** rng.uniform(-1, 1)) * rng.choice([-1.0, 1.0], p)
        if c["norm"] and c["est"] != "snipls":
            # units in which the first step has coefficients of a given squared norm
            first = vec(setup(dict(c, maxit=2))[2](X, y).coef_scaled_, "coef_scaled_", p)
            t = np.sqrt(np.sum(first ** 2) / 1e-5)
            skip(not 1e-4 < t < 1e4)
            a = t * np.sign(a)
    else:
        a = 10.0 ** (rng.uniform(-1, 1, p) * rng.choice([1.0, 1.0, 6.0], p)) * rng.choice([-1.0, 1.0], p)
    sh = rng.uniform(-3, 3, p) * np.std(X, axis=0) * np.abs(a)
    X2 = X * a + sh
    b, b0, w, f = get(fit(X, y), X, n, p)
    b2, b02, w2, f2 = get(fit(X2, y), X2, n, p)
    sx = np.std(X, axis=0)
    close(b2 * a * sx, b * sx, "coefficients after changing the predictors' units", 1e-5)
    close(w2, w, "case weights after changing the predictors' units", 1e-5)
    close(f2, f, "predictions after changing the predictors' units", 1e-5, scale=np.std(y) + 1e-5 * (np.abs(f).max() + np.sum(np.abs(b2) * np.abs(X2).max(0))))
    return {"nontrivial": True, "tags": [c["est"], c["cs"][1]]}
