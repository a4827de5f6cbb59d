"""C07: energy statistics."""
import numpy as np
from hypothesis import strategies as st

from direpack import dicomo
from ..core import Registry, arr, att, close, require, scalar, skip
from .. import gen, refs

try:
    from direpack.dicomo._dicomo_utils import MDDM
except ImportError:  # moved: the matrix clause is then left out
    MDDM = None

CLAUSES = Registry()
ASSUMPTIONS = ["Euclidean, city block and Chebyshev distances; trimming and median centring for variance, covariance, correlation and (trimming) divergence without bias correction",
               "bias-corrected statistics compared where the squared statistic is positive (a root is reported)",
               "martingale difference correlation: known finding"]

BL = gen.D({"n": gen.sizes(5, 36), "p": gen.ints(1, 4), "q": gen.ints(1, 3), "fam": st.sampled_from(gen.FAMS),
            "dep": st.sampled_from(["none", "lin", "quad"]), "s": st.sampled_from([0.05, 1.0, 30.0, 1e-4]), "seed": gen.seeds()})


def xy(s, q=None):
    rng = np.random.default_rng(s["seed"])
    q = q or s["q"]
    X = gen.draw_family(rng, s["fam"], s["n"], s["p"])
    E = rng.standard_normal((s["n"], q))
    if s["dep"] == "lin":
        Y = X[:, :1] + 0.5 * E
    elif s["dep"] == "quad":
        Y = X[:, :1] ** 2 + 0.5 * E
    else:
        Y = E
    return s["s"] * X, Y


def dist(A, metric="euclidean"):
    A = np.asarray(A, float)
    if metric == "cityblock":
        return np.abs(A[:, None, :] - A[None, :, :]).sum(-1)
    if metric == "chebyshev":
        return np.abs(A[:, None, :] - A[None, :, :]).max(-1)
    return np.sqrt(np.maximum(((A[:, None, :] - A[None, :, :]) ** 2).sum(-1), 0))


def dcentre(D):
    return D - D.mean(0) - D.mean(1)[:, None] + D.mean()


def ucentre(D):
    n = D.shape[0]
    U = D - D.sum(0) / (n - 2) - (D.sum(1) / (n - 2))[:, None] + D.sum() / ((n - 1) * (n - 2))
    np.fill_diagonal(U, 0)
    return U


def inner(A, B, u):
    n = A.shape[0]
    return (A * B).sum() / (n * (n - 3.0)) if u else (A * B).mean()


def dcov2(X, Y, u, metric="euclidean"):
    c = ucentre if u else dcentre
    return inner(c(dist(X, metric)), c(dist(Y, metric)), u)


def mdd2(X, y, u, metric="euclidean"):
    c = ucentre if u else dcentre
    y = np.asarray(y, float).reshape(-1)
    return inner(c(dist(X, metric)), c(0.5 * (y[:, None] - y[None, :]) ** 2), u)


def fit(mode, x, **kw):
    o = dicomo(est="distance", mode=mode)
    v = scalar(o.fit(x.copy(), **kw), "%s (distance)" % mode)
    close(np.array(scalar(att(o, "moment_"), "moment_")), np.array(v), "stored statistic", 1e-12)
    return v, o


def root(v2, scale2):
    skip(v2 <= 1e-7 * scale2, "squared statistic not clearly positive")
    return np.sqrt(v2)


def eq(g, w, what, scale, rtol=1e-6):
    close(np.array(g), np.array(w), what, rtol, scale=scale + abs(w))


CASE = {"d": BL, "u": st.booleans(), "calc": st.sampled_from(["fast", "naive", None])}


def kws(c, **k):
    if c["calc"]:
        k["calcmode"] = c["calc"]
    k["biascorr"] = c["u"]
    return k


def vx_(X, u):
    return dcov2(X, X, u)


@CLAUSES.clause("dcov", gen.D(CASE), "dependent or multivariate blocks", 1200)
def c_dcov(c):
    X, Y = xy(c["d"])
    u = c["u"]
    vx, vy = vx_(X, u), vx_(Y, u)
    skip(min(vx / np.max(dist(X)) ** 2, vy / np.max(dist(Y)) ** 2) < 1e-6)
    v, o = fit("var", X, **kws(c))
    eq(v, np.sqrt(vx), "distance variance", 0)
    eq(fit("std", X, **kws(c))[0], vx**0.25, "distance standard deviation", 0)
    w2 = dcov2(X, Y, u)
    sc2 = np.sqrt(vx * vy)
    w = root(w2, sc2)
    for mode, kw in (("cov", {}), ("com", {"order": 2})):
        v, o = fit(mode, X, y=Y.copy(), **kws(c, **kw))
        eq(v, w, "distance covariance (%s)" % mode, 1e-3 * np.sqrt(sc2))
    eq(fit("cov", Y, y=X.copy(), **kws(c))[0], w, "symmetry of distance covariance", 1e-3 * np.sqrt(sc2))
    r, o = fit("corr", X, y=Y.copy(), **kws(c))
    eq(r, w / np.sqrt(np.sqrt(vx) * np.sqrt(vy)), "distance correlation", 1e-3)
    if not u:
        require(-1e-9 <= r <= 1 + 1e-7, "distance correlation %g outside [0,1]", r)
    return {"nontrivial": c["d"]["dep"] != "none" or c["d"]["p"] > 1, "tags": ["u" if u else "v", str(c["calc"])]}


@CLAUSES.clause("self_correlation", gen.D(CASE), "always", 300)
def c_self(c):
    X, _ = xy(c["d"])
    skip(vx_(X, c["u"]) < 1e-6 * np.max(dist(X)) ** 2)
    eq(fit("corr", X, y=X.copy(), **kws(c))[0], 1.0, "distance correlation of a sample with itself", 0)
    eq(fit("corr", X, y=-3.0 * X + 7.0 * np.max(dist(X)), **kws(c))[0], 1.0, "distance correlation with a rescaled copy", 0)
    return {}


@CLAUSES.clause("fast_naive", gen.D({"d": BL, "u": st.booleans(), "alpha": st.sampled_from([0.5, 1, 2]), "y1": st.booleans()}), "always", 700)
def c_fast(c):
    X, Y = xy(c["d"])
    u = c["u"]
    vx, vy = vx_(X, u), vx_(Y, u)
    skip(min(vx / np.max(dist(X)) ** 2, vy / np.max(dist(Y)) ** 2) < 1e-6)
    root(dcov2(X, Y, u), np.sqrt(vx * vy))
    for mode in ("var", "std", "cov", "corr", "continuum"):
        kw = {} if mode in ("var", "std") else {"y": Y.copy()}
        if mode == "continuum":
            kw["alpha"] = c["alpha"]
        if "y" in kw and c["y1"] and Y.shape[1] == 1:
            kw["y"] = Y[:, 0].copy()
        a, _ = fit(mode, X, calcmode="fast", biascorr=u, **kw)
        b, _ = fit(mode, X, calcmode="naive", biascorr=u, **kw)
        eq(b, a, "naive against fast %s" % mode, 1e-3 * abs(a))
        if mode == "continuum":
            eq(a, dcov2(X, Y, u) * vx ** ((c["alpha"] - 1) / 4), "continuum association of distances, alpha=%g" % c["alpha"], 1e-3 * abs(a))
    return {}


@CLAUSES.clause("metric", gen.D(dict(CASE, m=st.sampled_from(["cityblock", "chebyshev"]), y1=st.booleans())), "several columns", 400)
def c_metric(c):
    X, Y = xy(c["d"])
    u, m = c["u"], c["m"]
    vx, vy, w2 = dcov2(X, X, u, m), dcov2(Y, Y, u, m), dcov2(X, Y, u, m)
    skip(min(vx / np.max(dist(X)) ** 2, vy / np.max(dist(Y)) ** 2) < 1e-6)
    kw = kws(c, dmetric=m)
    yy = Y[:, 0].copy() if c["y1"] and Y.shape[1] == 1 else Y.copy()
    eq(fit("var", X, **kw)[0], np.sqrt(vx), "distance variance in the %s metric" % m, 0)
    eq(fit("std", X, **kw)[0], vx**0.25, "distance standard deviation in the %s metric" % m, 0)
    sc2 = np.sqrt(vx * vy)
    w = root(w2, sc2)
    eq(fit("cov", X, y=yy, **kw)[0], w, "distance covariance in the %s metric" % m, 1e-3 * np.sqrt(sc2))
    eq(fit("corr", X, y=yy, **kw)[0], w / np.sqrt(np.sqrt(vx) * np.sqrt(vy)), "distance correlation in the %s metric" % m, 1e-3)
    al = 1 + 0.5 * X.shape[1]
    eq(fit("continuum", X, y=yy, alpha=al, **kw)[0], w2 * vx ** ((al - 1) / 4), "continuum association in the %s metric" % m, 1e-3 * sc2 * vx ** ((al - 1) / 4))
    y0 = Y[:, 0].copy()
    s2 = np.mean(dist(X)) * np.var(y0)
    w = root(mdd2(X, y0, u, m), s2)
    eq(fit("mdd", X, y=y0, biascorr=u, dmetric=m)[0], w, "divergence in the %s metric" % m, 1e-3 * np.sqrt(s2))
    return {"nontrivial": X.shape[1] > 1, "tags": [m, str(c["calc"])]}


def tmean(A, t, axis=None):
    """mean without the fraction t at either end"""
    A = np.sort(A, axis=axis)
    n = A.shape[-1] if axis != 0 else A.shape[0]
    g = int(t * n)
    return A[g:n - g].mean(0) if axis in (None, 0) else A[:, g:n - g].mean(1)


def tcentre(D, t):
    return D - tmean(D, t, 0) - tmean(D, t, 1)[:, None] + tmean(D.reshape(-1), t)


def mcentre(D):
    return D - np.median(D, 0) - np.median(D, 1)[:, None] + np.median(D)


@CLAUSES.clause("trimmed", gen.D({"d": BL, "t": st.sampled_from([0.05, 0.1, 0.2, 0.3]), "m": st.sampled_from(["euclidean", "cityblock"]), "med": st.sampled_from([0, 0, 1]),
                                  "y1": st.booleans()}), "something is trimmed, or median centring", 500)
def c_trim(c):
    """Trimming and median centring apply to the centring of the distances and to the mean of their products."""
    X, Y = xy(c["d"])
    n, t, m = len(X), c["t"], c["m"]
    skip(min(abs(n * t - round(n * t)), abs(n * n * t - round(n * n * t))) < 1e-6, "trimming count on the edge")
    yy = Y[:, 0].copy() if c["y1"] and Y.shape[1] == 1 else Y.copy()
    kw = dict(dmetric=m)
    if c["med"]:
        A, B = mcentre(dist(X, m)), mcentre(dist(Y, m))
        w, vx, vy = np.median(A * B), np.median(A * A), np.median(B * B)
    else:
        A, B = tcentre(dist(X, m), t), tcentre(dist(Y, m), t)
        w, vx, vy = [np.sqrt(abs(tmean((P * Q).reshape(-1), t))) for P, Q in ((A, B), (A, A), (B, B))]
        kw["trimming"] = t
    S = np.sqrt(np.max(np.abs(A)) * np.max(np.abs(B))) if not c["med"] else np.max(np.abs(A)) * np.max(np.abs(B))
    Sx = np.max(np.abs(A)) ** (2 if c["med"] else 1)
    dic = dicomo(est="distance", mode="var", center="median" if c["med"] else "mean")
    eq(scalar(dic.fit(X.copy(), **kw), "variance"), vx, "trimmed distance variance", 1e-3 * Sx)
    skip(not c["med"] and w ** 2 < 1e-6 * S ** 2, "root of nearly zero")
    dic = dicomo(est="distance", mode="cov", center="median" if c["med"] else "mean")
    eq(scalar(dic.fit(X.copy(), y=yy, **kw), "covariance"), w, "trimmed distance covariance", 1e-3 * S)
    if not c["med"] and min(vx / Sx, vy / np.max(np.abs(B))) > 1e-3:
        dic = dicomo(est="distance", mode="corr")
        eq(scalar(dic.fit(X.copy(), y=yy, **kw), "correlation"), w / np.sqrt(vx * vy), "trimmed distance correlation", 1e-3)
    if not c["med"]:
        y0 = Y[:, 0]
        B = tcentre(0.5 * (y0[:, None] - y0) ** 2, t)
        w2 = tmean((A * B).reshape(-1), t)
        if w2 > 1e-6 * np.max(np.abs(A)) * np.max(np.abs(B)):
            eq(fit("mdd", X, y=y0.copy(), **kw)[0], np.sqrt(w2), "trimmed martingale difference divergence", 0)
    return {"nontrivial": bool(c["med"]) or int(t * n) > 0, "tags": ["median" if c["med"] else "trim%g" % t, m]}


@CLAUSES.clause("mdd", gen.D({"d": BL, "u": st.booleans(), "sh": st.sampled_from(["1d", "2d"])}), "dependent response", 900)
def c_mdd(c):
    X, Y = xy(c["d"], q=1)
    y = Y[:, 0]
    u = c["u"]
    w2 = mdd2(X, y, u)
    sc2 = np.mean(dist(X)) * np.var(y)
    w = root(w2, sc2)
    yy = y.copy() if c["sh"] == "1d" else Y.copy()
    v, o = fit("mdd", X, y=yy, biascorr=u)
    eq(v, w, "martingale difference divergence", 1e-3 * np.sqrt(sc2))
    rng = np.random.default_rng([c["d"]["seed"], 2])
    Q = np.linalg.qr(rng.standard_normal((X.shape[1],) * 2))[0]
    v2, _ = fit("mdd", X @ Q * 4.0 + 3.0 * np.max(dist(X)), y=-2.5 * yy + 9, biascorr=u)
    eq(v2, 2.5 * 2.0 * v, "divergence under rotation, shift and scaling", 1e-2 * np.sqrt(sc2))
    return {"nontrivial": c["d"]["dep"] != "none"}


@CLAUSES.clause("invariance", gen.D({"d": BL, "u": st.booleans(), "calc": st.sampled_from(["fast", "naive"]),
                                     "f": st.sampled_from([0.01, 0.5, 7.0]), "perm": gen.seeds()}), "p >= 2", 700)
def c_inv(c):
    X, Y = xy(c["d"])
    u = c["u"]
    vx, vy = vx_(X, u), vx_(Y, u)
    skip(min(vx / np.max(dist(X)) ** 2, vy / np.max(dist(Y)) ** 2) < 1e-6)
    root(dcov2(X, Y, u), np.sqrt(vx * vy))
    rng = np.random.default_rng(c["perm"])
    Q = np.linalg.qr(rng.standard_normal((X.shape[1],) * 2))[0]
    o = rng.permutation(len(X))
    sh = 3.0 * c["f"] * np.max(dist(X))
    kw = dict(calcmode=c["calc"], biascorr=u)
    a, _ = fit("cov", X, y=Y.copy(), **kw)
    b, _ = fit("cov", (c["f"] * X @ Q + sh)[o], y=Y[o].copy(), **kw)
    eq(b, np.sqrt(c["f"]) * a, "distance covariance under rotation, scaling and reordering", 1e-2 * abs(a))
    a, _ = fit("corr", X, y=Y.copy(), **kw)
    b, _ = fit("corr", (c["f"] * X @ Q + sh)[o], y=(Y * 3)[o].copy(), **kw)
    eq(b, a, "distance correlation under rotation, scaling and reordering", 1e-2)
    return {"nontrivial": X.shape[1] > 1}


if MDDM is not None:
    @CLAUSES.clause("mddm", gen.D({"d": BL, "perm": gen.seeds()}), "several responses or predictors", 500)
    def c_mddm(c):
        X, Y = xy(c["d"])
        n, q = Y.shape
        M = arr(MDDM(X.copy(), Y.copy()), "divergence matrix", (q, q))
        Yc = Y - Y.mean(0)
        want = -(Yc.T @ dist(X) @ Yc) / n**2
        close(M, want, "martingale difference divergence matrix", 1e-7,
              scale=np.max(np.abs(want)) + 1e-3 * np.mean(dist(X)) * np.max(np.var(Y, 0)))
        ev = np.linalg.eigvalsh((M + M.T) / 2)
        require(ev[0] >= -1e-8 * max(1e-300, abs(ev).max(), np.mean(dist(X)) * np.max(np.var(Y, 0))), "matrix is not positive semidefinite")
        if q == 1:
            eq(M[0, 0], mdd2(X, Y, False), "matrix of one response against the squared divergence", 1e-3 * abs(want).max())
        return {"nontrivial": q > 1 or X.shape[1] > 1}
