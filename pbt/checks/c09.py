"""C09: case weights follow the Hampel, Huber and Fair functions."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2, norm

from direpack import rm, sprm
from ..core import Registry, arr, att, close, require, skip, vec
from .. import gen, models, refs

try:
    from direpack.sprm._m_support_functions import Fair, Hampel, Huber
    FUNS = {"Fair": Fair, "Hampel": Hampel, "Huber": Huber}
except Exception:  # moved elsewhere: the clause on the bare functions is dropped
    FUNS = None

CLAUSES = Registry()
ASSUMPTIONS = ["reweighting runs of more than 12 steps are left out of the comparison (the iteration may oscillate and amplify rounding)",
               "probabilities with positive normal and chi-square cut-offs",
               "distances with zero median or exactly tied selections are left out",
               "SPRM start weights of the response are signed unless median/mad is used (known finding of C16), as in the reference"]

PROBS = [(0.95, 0.975, 0.999), (0.6, 0.7, 0.8), (0.9, 0.95, 0.99), (0.55, 0.9, 0.999), (0.7, 0.75, 0.99), (0.8, 0.999, 0.9999),
         (0.52, 0.55, 0.6), (0.65, 0.8, 0.95)]
KIND = st.sampled_from(["Hampel", "Huber", "Fair"])


@CLAUSES.clause("functions", gen.D({
    "fun": KIND, "a": gen.ints(1, 40), "b": gen.ints(1, 40), "r": gen.ints(1, 40),
    "n": gen.ints(1, 30), "s": gen.seeds(), "dt": st.sampled_from(["float", "float", "float", "int"])}),
    "some distance beyond the first cut-off", 1500)
def c_fun(c):
    skip(FUNS is None)
    a = c["a"] / 10.0
    b = a + c["b"] / 10.0
    r = b + c["r"] / 10.0
    rng = np.random.default_rng(c["s"])
    x = rng.choice([rng.uniform(0, 1.3 * r, c["n"]), rng.exponential(a, c["n"])])
    x = np.where(rng.uniform(size=c["n"]) < 0.2, rng.choice([0.0, a, b, r, 1.0, 10 * r], c["n"]), x)
    if c["dt"] == "int":
        x = np.round(x * 3).astype(int)
    x0 = x.copy()
    w = FUNS[c["fun"]](x, a, b, r)
    w = vec(w, "weights", c["n"])
    close(w, models.wfun(c["fun"], x0, a, b, r), "%s weights" % c["fun"], 1e-10)
    o = np.argsort(x0)
    require(np.all(np.diff(w[o]) <= 1e-12), "a more remote case has a larger weight")
    require(np.array_equal(x, x0), "the distances were overwritten")
    return {"nontrivial": bool(np.any(x0 > a)), "tags": [c["fun"], "cut<1" if a < 1 else "cut>=1"]}


def outliers(c, X, y):
    rng = np.random.default_rng(c["s"])
    n, p = X.shape
    X, y = X.copy(), y.copy()
    k = c["out"]
    if k:
        i = rng.permutation(n)[:k]
        y[i] += rng.choice([-1, 1], k) * rng.uniform(1, 20, k) * (np.std(y) + 1e-9)
        j = rng.permutation(n)[: k // 2]
        X[j] += rng.uniform(1, 10, (len(j), p)) * (np.std(X, axis=0) + 1e-9)
    return X, y


CS = [("median", "mad"), ("mean", "std"), ("l1median", "mad"), ("median", "std"), ("kstepLTS", "mad"), ("median", "None"), ("mean", "None")]


@CLAUSES.clause("rm_weights", gen.D({
    "d": gen.regs(pbig=True, n=(10, 40), p=(1, 5)), "fun": KIND, "pr": gen.ints(0, len(PROBS) - 1), "cs": st.sampled_from(CS),
    "mode": st.sampled_from(["specific", "ally"]), "out": gen.ints(0, 4), "s": gen.seeds()}),
    "some weight strictly below one", 700)
def c_rm(c):
    X, y = outliers(c, *gen.reg(c["d"]))
    n, p = X.shape
    probs = PROBS[c["pr"]]
    centre, scale = c["cs"]
    m = rm(fun=c["fun"], probp1=probs[0], probp2=probs[1], probp3=probs[2], centre=centre, scale=scale,
           start_cutoff_mode=c["mode"], verbose=False)
    m.fit(X.copy(), y.copy())
    w = vec(att(m, "caseweights_"), "caseweights_", n)
    wx = vec(att(m, "x_caseweights_"), "x_caseweights_", n)
    wy = vec(att(m, "y_caseweights_"), "y_caseweights_", n)
    for nm, v in (("case", w), ("x", wx), ("y", wy)):
        require(np.all(v >= 0) and np.all(v <= 1 + 1e-12), "%s weights outside [0,1]: %s", nm, v)
    # weights from the reported model itself
    Xs, mX, sX = models.scaled(X, centre, scale)
    ys = models.scaled(y, centre, scale)[0][:, 0]
    b = vec(att(m, "coef_scaled_"), "coef_scaled_", p)
    cy = norm.ppf(probs)
    cx = chi2.ppf(probs, p) if c["mode"] == "specific" else cy
    d = np.sqrt((Xs**2).sum(1))
    r = ys - Xs @ b
    skip(np.median(d) < 1e-9 or np.median(np.abs(r)) < 1e-7 * (np.std(ys) + 1e-300))
    ex = models.wfun(c["fun"], d / np.median(d), *cx)
    ey = models.wfun(c["fun"], models.mstd(r), *cy)
    e = ex * ey
    amb = np.abs(e - 1e-6) < 1e-7
    z = e < 1e-6
    e, ex, ey = (np.where(z, 0, q) for q in (e, ex, ey))
    ok = ~amb
    close(wx[ok], ex[ok], "leverage weights (%s)" % c["fun"], 1e-6)
    close(wy[ok], ey[ok], "residual weights (%s)" % c["fun"], 1e-6)
    close(w[ok], e[ok], "case weights (%s)" % c["fun"], 1e-6)
    return {"nontrivial": bool(np.any(w < 1)), "tags": [c["fun"], "zero" if np.any(w == 0) else "nozero"]}


@CLAUSES.clause("sprm_weights", gen.D({
    "d": gen.regs(pbig=True, wide=True, n=(12, 40), p=(1, 6)), "k": gen.ints(1, 4), "eta": st.sampled_from([0.0, 0.3, 0.6, 0.9]), "fun": KIND,
    "pr": gen.ints(0, len(PROBS) - 1), "cs": st.sampled_from(CS), "mode": st.sampled_from(["specific", "ally"]),
    "init": st.sampled_from(["pcapp", "xonly"]), "maxit": st.sampled_from([2, 3, 4, 6, 10, 100]), "out": gen.ints(0, 4), "s": gen.seeds()}),
    "some weight strictly below one", 500)
def c_sprm(c):
    X, y = outliers(c, *gen.reg(c["d"]))
    n, p = X.shape
    probs = PROBS[c["pr"]]
    centre, scale = c["cs"]
    kw = dict(fun=c["fun"], centre=centre, scale=scale, maxit=c["maxit"])
    k = min(c["k"], p)

    def model(X, y):
        return models.sprm(X, y, k, c["eta"], probs=probs, mode=c["mode"], init=c["init"], **kw)

    with np.errstate(all="ignore"):
        try:
            ref = model(X, y)
        except np.linalg.LinAlgError:
            ref = None
    skip(ref is None or not np.all(np.isfinite(ref["b"])) or ref["gap"] < 1e-7 or ref["margin"] < 1e-7 or ref["cond"] > 1e6)
    skip(ref["loops"] > 12, "iterations that do not settle amplify rounding")
    skip(models.sensitivity(model, X, y, ref) > 3e3, "rounding decides where the iteration goes")
    m = sprm(k, c["eta"], probp1=probs[0], probp2=probs[1], probp3=probs[2], start_cutoff_mode=c["mode"],
             start_X_init=c["init"], verbose=False, **kw)
    m.fit(X.copy(), y.copy())
    w = vec(att(m, "caseweights_"), "caseweights_", n)
    wx = vec(att(m, "x_caseweights_"), "x_caseweights_", n)
    wy = vec(att(m, "y_caseweights_"), "y_caseweights_", n)
    for nm, v in (("case", w), ("x", wx), ("y", wy)):
        require(np.all(v >= 0) and np.all(v <= 1 + 1e-12), "%s weights outside [0,1]: %s", nm, v)
    raw = ref["w"]
    amb = np.abs(raw - 1e-6) < 1e-7
    skip(np.any(amb))
    close(w, ref["w"], "case weights (%s)" % c["fun"], 1e-5)
    close(wx, ref["wx"], "score distance weights (%s)" % c["fun"], 1e-5)
    close(wy, ref["wy"], "residual weights (%s)" % c["fun"], 1e-5)
    # weights of new cases: the same function of their distances in the score space
    rng = np.random.default_rng([c["s"], 5])
    Xn = X.mean(0) + (np.std(X, axis=0) + 1e-9) * rng.standard_t(2, (rng.integers(5, 20), p))
    Tn = arr(m.transform(Xn), "scores of new data", (len(Xn), k))
    dt, _, ts = models.scaled(Tn, centre, "mad" if scale == "None" else scale)
    dd = np.sqrt((dt**2).sum(1))
    want = models.wfun(c["fun"], dd / np.median(dd), *ref["cx"])
    close(vec(m.weightnewx(Xn.copy()), "weights of new data", len(Xn)), want, "weights of new data", 1e-6)
    close(vec(m.weightnewx(Xn.copy()), "weights of new data", len(Xn)), want, "weights of new data, asked again", 1e-6)
    return {"nontrivial": bool(np.any(w < 1)), "tags": [c["fun"], c["mode"], c["init"], "zero" if np.any(w == 0) else "nozero"]}
