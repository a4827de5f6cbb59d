"""C15: robust regressions are not driven by a minority of outliers."""
import numpy as np
from hypothesis import strategies as st

from direpack import rm, sprm
from ..core import Registry, arr, att, close, require, skip, vec
from .. import gen

CLAUSES = Registry()
ASSUMPTIONS = ["clean linear data with 25 to 60 cases and 1 to 4 predictors, up to 35% gross outliers",
               "Hampel weights with default cut-offs; coefficients compared through predictions for the clean cases, within 2 (up to 15% outliers) or 5 standard deviations of the clean response",
               "SPRM coefficients: outliers at 1e2 to 3e2 spreads (beyond, the 1e-6 weight floor lets them in: known finding)",
               "SPRM with other options than median/mad: positive response outliers (known finding of C16)"]
KIND = ["up", "down", "both", "lev"]
base = {"d": gen.regs(n=(25, 60), p=(1, 4), noise=(0.0, 0.1, 0.3, 0.5), fams=("normal", "corr", "unif"), locs=(0, 3), sparse=(0,)),
        "kind": st.sampled_from(KIND), "frac": gen.ints(2, 35), "dist": gen.ints(20, 60), "where": st.sampled_from(["random", "first", "last"]),
        "s": gen.seeds()}


def contaminate(c, D, kind):
    X, y = gen.reg(c["d"])
    n, p = X.shape
    rng = np.random.default_rng(c["s"])
    m = max(1, int(c["frac"] / 100.0 * n))
    idx = {"random": rng.permutation(n)[:m], "first": np.arange(m), "last": np.arange(n - m, n)}[c["where"]]
    Z, w = X.copy(), y.copy()
    if kind == "lev":
        v = rng.standard_normal(p)
        v /= np.linalg.norm(v)
        Z[idx] += D * np.std(X, axis=0) * v
    else:
        sg = {"up": np.ones(m), "down": -np.ones(m), "both": rng.choice([-1.0, 1.0], m)}[kind]
        w[idx] += sg * D * np.std(y)
    bad = np.zeros(n, bool)
    bad[idx] = True
    return X, y, Z, w, bad


def judge(m, mk, X, y, Z, w, bad, coef=True):
    n = len(y)
    cw = vec(att(m, "caseweights_"), "caseweights_", n)
    require(np.all(cw[bad] <= 1e-3), "outlying case keeps weight %g", cw[bad].max())
    require(np.mean(cw[~bad] > 0.1) > 0.5, "only %d of %d clean cases keep weight above 0.1", np.sum(cw[~bad] > 0.1), np.sum(~bad))
    if coef:
        r = mk().fit(X[~bad].copy(), y[~bad].copy())
        a, b = vec(m.predict(X[~bad]), "predictions"), vec(r.predict(X[~bad]), "predictions")
        d = np.max(np.abs(a - b)) / np.std(y[~bad])
        require(d <= (2 if np.mean(bad) < 0.16 else 5), "predictions for clean cases move by %.3g standard deviations against the clean fit", d)


@CLAUSES.clause("rm", gen.D(dict(base, cs=st.sampled_from([("median", "mad"), ("l1median", "mad"), ("kstepLTS", "mad"), ("median", "None")]),
                                 mode=st.sampled_from(["specific", "ally"]))), "always (gross outliers present)", 900)
def c_rm(c):
    kind = c["kind"]
    X, y, Z, w, bad = contaminate(c, 10.0 ** (c["dist"] / 10.0), kind)

    def mk():
        return rm(centre=c["cs"][0], scale=c["cs"][1], start_cutoff_mode=c["mode"], verbose=False)
    if c["cs"][1] == "None":
        skip(c["d"]["mag"] != 0 and kind == "lev", "distances without scaling are dominated by the largest unit")
    m = mk().fit(Z.copy(), w.copy())
    judge(m, mk, X, y, Z, w, bad)
    return {"nontrivial": True, "tags": [kind, "/".join(c["cs"]), "1e%d" % (c["dist"] // 10)]}


@CLAUSES.clause("sprm", gen.D(dict(base, cs=st.sampled_from([("median", "mad"), ("median", "mad"), ("l1median", "mad"), ("kstepLTS", "mad")]),
                                   mode=st.sampled_from(["specific", "ally"]), init=st.sampled_from(["pcapp", "xonly"]), full=gen.ints(0, 2),
                                   eta=st.sampled_from([0.0, 0.3]))), "always (gross outliers present)", 900)
def c_sprm(c):
    kind = c["kind"]
    if tuple(c["cs"]) != ("median", "mad") and kind in ("down", "both"):
        kind = "up"
    X, y = gen.reg(c["d"])
    p = X.shape[1]
    full = c["full"] > 0 or kind == "lev"
    k = p if full else 1
    eta = 0.0 if full else c["eta"]
    small = c["dist"] % 2 == 0
    D = 10.0 ** (2 + 0.5 * (c["dist"] - 20) / 40.0) if small else 10.0 ** (c["dist"] / 10.0)
    X, y, Z, w, bad = contaminate(c, D, kind)

    def mk():
        return sprm(k, eta, centre=c["cs"][0], scale=c["cs"][1], start_cutoff_mode=c["mode"], start_X_init=c["init"], verbose=False)
    m = mk().fit(Z.copy(), w.copy())
    judge(m, mk, X, y, Z, w, bad, coef=small)
    return {"nontrivial": True, "tags": [kind, "/".join(c["cs"]), "coef" if small else "weights"]}
