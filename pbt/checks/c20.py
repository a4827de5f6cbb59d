"""C20: inverse regression estimators of the central subspace."""
import numpy as np
from hypothesis import strategies as st

from direpack import sudire
from ..core import Registry, arr, att, close, require, skip
from .. import gen, refs

try:
    from direpack.sudire import _sudire_utils as _u
except Exception:  # the class below reaches the same code
    _u = None
import sys
_u = sys.modules.get("direpack.sudire._sudire_utils", _u)

CLAUSES = Registry()
ASSUMPTIONS = ["more cases than variables, condition number of the covariance below 1e6, eigengap above 1e-3 of the kernel's norm at the requested dimension",
               "continuous responses without ties at the slice borders; slices of at least two cases (one for sliced inverse regression)",
               "principal Hessian directions: eigenvalues in decreasing or in decreasing absolute order (known finding)",
               "iterative Hessian transformation of standardised data: one direction (known finding)"]
METHS = ["sir", "save", "dr", "phd", "iht"]


def data(c):
    d = c["d"]
    X, y = gen.reg(d)
    rng = np.random.default_rng([d["seed"], 3])
    Z = (X - X.mean(0)) / X.std(0)
    p = X.shape[1]
    u, v = rng.standard_normal(p), rng.standard_normal(p)
    shape = c["shape"]
    if shape == "square":
        y = (Z @ u) ** 2 + 0.2 * rng.standard_normal(len(y))
    elif shape == "two":
        y = Z @ u + (Z @ v) ** 2 + 0.2 * rng.standard_normal(len(y))
    elif shape == "ratio":
        y = (Z @ u) / (0.5 + (Z @ v + 1.5) ** 2) + 0.1 * rng.standard_normal(len(y))
    if c.get("classes"):
        q = np.quantile(y, np.linspace(0, 1, c["classes"] + 1)[1:-1])
        lab = np.searchsorted(q, y)
        names = np.array([3.0, -1.0, 0.1, 7.0, 2.5, 11.0])
        y = names[lab]
        if c.get("tiny"):  # one more class of a few cases, apart from the others
            i = rng.permutation(len(y))[:c["tiny"]]
            y = y.copy()
            y[i] = [-7.5, 0.4, 20.0][c["h"] % 3]
            X = X.copy()
            X[i] += 2 * X.std(0) * rng.standard_normal(X.shape[1]) if c["h"] % 2 else (X[i] - X.mean(0)) * 2
    return X, y


def slices(y, h, classes):
    """Slice label of each case, from order statistics."""
    n = len(y)
    if classes:
        return np.array([sorted(set(y)).index(v) for v in y])
    m = n // h
    order = np.sort(y)
    cuts = [order[i * m] for i in range(1, h)]
    return np.array([sum(v >= k for k in cuts) for v in y])


def isqrt(S):
    w, v = np.linalg.eigh((S + S.T) / 2)
    return v @ np.diag(w ** -0.5) @ v.T


def kernel(meth, X, y, h, classes, cd=True, sd=True):
    """Candidate matrices, and the map from kernel to predictor coordinates."""
    n, p = X.shape
    S = np.cov(X, rowvar=False).reshape(p, p)
    Z = X - X.mean(0) if cd else X
    A = np.eye(p)
    if sd:
        A = isqrt(S)
        Z = Z @ A
    if meth in ("sir", "save", "dr"):
        lab = slices(y, h, classes)
        sizes = [np.sum(lab == g) for g in np.unique(lab)]
        skip(min(sizes) < (1 if meth == "sir" else 2) or (not classes and len(sizes) < h))
        K, M1, M2 = np.zeros((p, p)), np.zeros((p, p)), np.zeros((p, p))
        for g in np.unique(lab):
            Zg = Z[lab == g]
            pr = len(Zg) / n
            mu = Zg.mean(0)
            V = np.cov(Zg, rowvar=False).reshape(p, p) if len(Zg) > 1 else np.full((p, p), np.nan)
            if meth == "sir":
                K += pr * np.outer(mu, mu)
            elif meth == "save":
                K += pr * (V - np.eye(p)) @ (V - np.eye(p))
            else:
                M1 += pr * (V + np.outer(mu, mu)) @ (V + np.outer(mu, mu))
                M2 += pr * np.outer(mu, mu)
        if meth == "dr":
            K = 2 * M1 + 2 * M2 @ M2 + 2 * np.trace(M2) * M2 - 2 * np.eye(p)
    elif meth == "phd":
        K = sum((y[i] - y.mean()) * np.outer(Z[i], Z[i]) for i in range(n)) / n
    else:
        b = (Z - Z.mean(0)).T @ (y - y.mean()) / (n - 1)
        C = np.cov(Z, rowvar=False).reshape(p, p)
        cols = [b]
        for _ in range(p - 1):
            cols.append(C @ cols[-1])
        M = np.array(cols).T
        K = M @ M.T
    return (K + K.T) / 2, A


def leading(K, d, mode="signed", gap=1e-3):
    w, v = np.linalg.eigh(K)
    key = np.abs(w) if mode == "abs" else w
    o = np.argsort(-key)
    if d < len(w):
        g = (key[o[d - 1]] - key[o[d]]) / np.max(np.abs(w))
        if g < gap:
            return None
    return v[:, o[:d]]


def spaces(meth, K, A, d):
    out = [leading(K, d)]
    if meth == "phd":
        out.append(leading(K, d, "abs"))
    skip(any(s is None for s in out))
    return [A @ s for s in out]


def ok_cov(X):
    S = np.cov(X, rowvar=False)
    skip(X.shape[1] > 1 and np.linalg.cond(S) > 1e6)


def agree(P, wants, metric, what, tol=1e-5):
    """Same column space, measured in the metric of the predictor covariance."""
    L = np.linalg.cholesky(metric).T
    a = min(refs.princ_angle(L @ P, L @ w) for w in wants)
    require(a < tol, "%s: sine of the angle between the estimated and the defined subspace is %g", what, a)


base = {"d": gen.regs(pbig=True, n=(24, 80), p=(2, 6), mags=(0, 1), locs=(0, 3)), "shape": st.sampled_from(["linear", "square", "two", "ratio"]),
        "meth": st.sampled_from(METHS), "h": gen.ints(2, 12), "k": gen.ints(1, 4), "classes": st.sampled_from([0, 0, 2, 3, 5]), "tiny": st.sampled_from([0, 0, 1, 2, 2, 3])}


def dims(c, p, sd=True):
    k = min(c["k"], p)
    if c["meth"] == "iht" and sd:
        k = 1
    return k


def obj(c, k, **kw):
    a = dict(n_components=k, n_slices=c["h"], response_type="discrete" if c["classes"] else "continuous", verbose=False)
    a.update(kw)
    return sudire(c["meth"], **a)


@CLAUSES.clause("object", gen.D(dict(base, how=st.sampled_from(["mean", "mean", "median", "whiten"]))), "more than one direction", 700)
def c_obj(c):
    X, y = data(c)
    n, p = X.shape
    ok_cov(X)
    k = dims(c, p)
    K, A = kernel(c["meth"], X, y, c["h"], c["classes"])
    wants = spaces(c["meth"], K, A, k)
    kw = {"mean": {}, "median": {"center": "median"}, "whiten": {"whiten_data": True}}[c["how"]]
    if c["how"] == "median":
        skip(np.any(np.median(np.abs(X - np.median(X, axis=0)), axis=0) < 1e-6 * X.std(0)))
    m = obj(c, k, **kw).fit(X.copy(), y.copy())
    P = arr(att(m, "x_loadings_"), "x_loadings_", (p, k))
    S = np.cov(X, rowvar=False)
    agree(P, wants, S, "%s (%s)" % (c["meth"], c["how"]), 1e-5)
    if c["how"] == "mean":
        close(P.T @ S @ P, np.eye(k), "covariance of the scores", 1e-6)
    return {"nontrivial": k > 1, "tags": [c["meth"], c["how"], "classes" if c["classes"] else "continuous"]}


@CLAUSES.clause("function", gen.D(dict(base, cd=st.booleans(), sd=st.booleans())), "more than one direction", 700)
def c_fun(c):
    """The estimators themselves, with and without centring and scaling."""
    X, y = data(c)
    n, p = X.shape
    ok_cov(X)
    k = dims(c, p, c["sd"])
    K, A = kernel(c["meth"], X, y, c["h"], c["classes"], c["cd"], c["sd"])
    # powers of the covariance: only directions above the rounding level
    if c["meth"] == "iht":
        w = np.sort(np.linalg.eigvalsh(K))[::-1]
        skip(w[k - 1] < 1e-6 * w[0])
    wants = spaces(c["meth"], K, A, k) if c["meth"] != "iht" else [A @ leading(K, k, gap=1e-9)] if leading(K, k, gap=1e-6) is not None else skip()
    f = getattr(_u, c["meth"].upper(), None)
    if f is None:
        P = obj(c, k, center_data=c["cd"], scale_data=c["sd"]).fit(X.copy(), y.copy()).x_loadings_
    elif c["meth"] in ("phd", "iht"):
        P = f(X.copy(), y.copy(), k, center_data=c["cd"], scale_data=c["sd"])
    else:
        P = f(X.copy(), y.copy(), c["h"], k, ytype="discrete" if c["classes"] else "continuous", center_data=c["cd"], scale_data=c["sd"])
    P = arr(P, "basis", (p, k))
    metric = np.cov(X, rowvar=False) if c["sd"] else np.eye(p)
    agree(P, wants, metric, "%s centred=%s scaled=%s" % (c["meth"], c["cd"], c["sd"]), 1e-4 if c["meth"] == "iht" else 1e-5)
    close(P.T @ metric @ P, np.eye(k), "basis orthonormal in the metric used", 1e-5)
    return {"nontrivial": k > 1, "tags": [c["meth"], "cd%d sd%d" % (c["cd"], c["sd"])]}


@CLAUSES.clause("affine", gen.D(dict(base, s=gen.seeds())), "always", 350)
def c_aff(c):
    """Mixing and shifting the predictors, reordering cases, increasing
    transformations of a sliced response, rescaling the response otherwise."""
    X, y = data(c)
    n, p = X.shape
    ok_cov(X)
    k = dims(c, p)
    K, A = kernel(c["meth"], X, y, c["h"], c["classes"])
    spaces(c["meth"], K, A, k)
    rng = np.random.default_rng(c["s"])
    G = np.eye(p) + 0.6 * rng.standard_normal((p, p)) / np.sqrt(p)
    skip(np.linalg.cond(G) > 50)
    sd = X.std(0)
    X2 = ((X - X.mean(0)) / sd) @ G + rng.uniform(-5, 5, p)
    o = rng.permutation(n)
    y2 = y.copy()
    if c["meth"] in ("sir", "save", "dr"):
        if c["classes"]:
            u = np.unique(y)
            y2 = np.array([float(rng.permutation(20)[0] * 0 + 2 * list(u).index(v) + 1) for v in y])
        else:
            y2 = np.exp((y - y.mean()) / y.std())
    else:
        y2 = 3 * y + 5
    P1 = arr(obj(c, k).fit(X.copy(), y.copy()).x_loadings_, "x_loadings_", (p, k))
    P2 = arr(obj(c, k).fit(X2[o], y2[o]).x_loadings_, "x_loadings_", (p, k))
    agree(np.diag(1 / sd) @ G @ P2, [P1], np.cov(X, rowvar=False), "%s after mixing the predictors" % c["meth"], 1e-4)
    return {"nontrivial": True, "tags": [c["meth"], "classes" if c["classes"] else "continuous"]}


@CLAUSES.clause("recovery", gen.D({"p": gen.ints(2, 5), "meth": st.sampled_from(METHS), "s": gen.seeds(), "mix": st.booleans()}), "always", 120)
def c_rec(c):
    """A strong single-index signal in Gaussian predictors is found."""
    rng = np.random.default_rng(c["s"])
    n, p = 800, c["p"]
    Z = rng.standard_normal((n, p))
    b = rng.standard_normal(p)
    b /= np.linalg.norm(b)
    t = Z @ b
    even = c["meth"] in ("save", "phd")
    y = (t ** 2 if even else t + 0.2 * t ** 3) + 0.05 * rng.standard_normal(n)
    G = np.eye(p) + 0.4 * rng.standard_normal((p, p)) / np.sqrt(p) if c["mix"] else np.eye(p)
    skip(np.linalg.cond(G) > 20)
    X = Z @ G + 2
    m = sudire(c["meth"], n_components=1, n_slices=8, verbose=False).fit(X.copy(), y.copy())
    v = G @ arr(att(m, "x_loadings_"), "x_loadings_", (p, 1))[:, 0]
    cs = abs(v @ b) / np.linalg.norm(v)
    require(cs > 0.9, "%s: cosine between estimated and true direction is %g", c["meth"], cs)
    return {"nontrivial": True, "tags": [c["meth"]]}
