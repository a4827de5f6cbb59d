"""C18: projection pursuit directions maximise the projection index."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize
from sklearn.decomposition import PCA

from direpack import dicomo, ppdire
from ..core import Registry, Skip, arr, att, close, require, skip, vec
from .. import gen, models
from ..ipopt_stub import Problem, connect

connect()

CLAUSES = Registry()
ASSUMPTIONS = ["condition number of the standardised predictors below 1e3; components with a score norm above 1e-3 of the data norm",
               "indices with one maximum up to sign (variance, covariance, continuum association, user-defined quadratic): global optimum within 1% (SLSQP) or 6% (grid of at least 30 directions)",
               "the interior point optimiser is replaced by a stand-in that minimises the problem it is handed with scipy",
               "non-smooth or multimodal indices, grid search: optimum over every plane spanned by the direction and one variable, within 15%"]


class MeanSquare:
    """User-defined index: mean square of the projected data."""
    seen = []

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, x, **kwargs):
        MeanSquare.seen.append(kwargs)
        return float(np.mean(np.ravel(x) ** 2))


class TrimmedSpread:
    """User-defined robust index: mean of the smallest 80% squared deviations from the median."""

    def __init__(self):
        pass

    def fit(self, x, **kwargs):
        x = np.ravel(x)
        d = np.sort((x - np.median(x)) ** 2)
        return float(np.mean(d[: max(2, int(0.8 * len(d)))]))


IDX = {"var": (dicomo, {"mode": "var"}), "cov": (dicomo, {"mode": "cov"}), "continuum": (dicomo, {"mode": "continuum"}),
       "user": (MeanSquare, {}), "medvar": (dicomo, {"mode": "var", "center": "median"}), "trim": (TrimmedSpread, {}),
       "kurt": (dicomo, {"mode": "kurt"})}
TWO = ("cov", "continuum")


def setup(c, opts):
    X, y = gen.reg(c["d"])
    n, p = X.shape
    h = min(c["h"], p)
    s = X.std(0)
    Xs = (X - X.mean(0)) / s
    with np.errstate(all="ignore"):
        skip(not np.all(np.isfinite(Xs)) or np.linalg.cond(Xs) > 1e3)
    ys = (y - y.mean()) / y.std()
    PI, pia = IDX[c["pi"]]
    m = ppdire(projection_index=PI, pi_arguments=dict(pia), n_components=h, optimizer=c["opt"], optimizer_options=opts,
               square_pi=c["sq"], alpha=c.get("alpha", 1), verbose=False)
    m.fit(X.copy(), *((y.copy(),) if c["pi"] in TWO else ()))
    W = arr(att(m, "x_weights_"), "x_weights_", (p, h))
    f = PI(**pia)
    kw = {"y": ys.reshape(-1, 1), "alpha": c.get("alpha", 1)} if c["pi"] in TWO else {}

    def value(E, w):
        w = w / np.linalg.norm(w)
        v = float(np.squeeze(f.fit(E @ w.reshape(-1, 1), **kw)))
        return v * v if c["sq"] else v
    return X, y, n, p, h, Xs, ys, m, W, value


def deflate(E, w):
    t = E @ w
    return E - np.outer(t, E.T @ t) / (t @ t)


def best_global(c, E, ys, value, rng):
    p = E.shape[1]
    _, _, Vt = np.linalg.svd(E, full_matrices=False)
    cands = [Vt[0]]
    if c["pi"] in TWO:
        v = E.T @ ys
        cands.append(v)
    if c["pi"] == "continuum":
        # ridge path between partial least squares and least squares / principal components
        G = E.T @ E
        for lam in (1e-3, 1e-2, 0.1, 0.3, 1, 3, 10, 100):
            cands.append(np.linalg.solve(G + lam * np.trace(G) / p * np.eye(p), v))
        for k in (1, 2, 4):
            cands.append(np.linalg.matrix_power(G / np.trace(G), k) @ v)
        cands += [rng.standard_normal(p) for _ in range(100)]
        cands += [-w for w in cands]
    return max(value(E, w) for w in cands if np.linalg.norm(w) > 0)


def ratios(c, opts):
    """Index reached / best index known, component by component (square root
    for squared indices; sign ignored)."""
    X, y, n, p, h, Xs, ys, m, W, value = setup(c, opts)
    rng = np.random.default_rng(c["d"]["seed"])
    E = Xs.copy()
    out = []
    tot = np.linalg.norm(Xs)
    obj = vec(att(m, "Maxobjf_"), "Maxobjf_", h)
    for j in range(h):
        w = W[:, j]
        b = best_global(c, E, ys, value, rng)
        bb = np.sqrt(b) if c["sq"] else b
        # the last component of full-rank data has a single direction left
        if np.linalg.norm(E @ w) < 1e-3 * tot or bb < 0.05 or (j and j == p - 1):
            break
        v = value(E, w)
        close(obj[j], v, "Maxobjf_[%d] against the index of the score" % j, 2e-2 if c["opt"] == "grid" else 1e-5, scale=abs(v))
        r = abs(v) / b
        out.append((np.sqrt(r) if c["sq"] else r, v, b))
        E = deflate(E, w)
    return out, p


K = 5


def global_check(c, opts, tol, tol2):
    """K data sets of one shape.  The first component has to be optimal for all
    but one of them, later components (whose numerical optimisation stalls more
    often) for at least two."""
    bad, used, worst, multi, p, short = 0, 0, None, 0, 0, 0
    for i in range(K):
        ci = dict(c, d=dict(c["d"], seed=c["d"]["seed"] + 7919 * i))
        try:
            out, p = ratios(ci, opts)
        except Skip:
            continue
        if not out:
            continue
        r, v, b = out[0]
        short += r < 1 - tol  # about one search in a thousand stops early
        require(short <= 1, "first component: index %g, but a direction with index %g exists (p=%d)", v, b, p)
        used += 1
        multi += len(out) > 1
        for j, (r, v, b) in enumerate(out[1:], 1):
            if r < 1 - tol2:
                bad += 1
                worst = (j, v, b)
                break
    skip(used == 0)
    require(bad <= 3, "later components of %d of %d data sets are not optimal, e.g. component %d: index %g, but a direction with index %g exists",
            bad, used, *(worst or (0, 0, 0)))
    return {"nontrivial": multi > 1 and p > 2, "tags": [c["pi"], "p%d" % p if p < 6 else "p6+", "sq" if c["sq"] else "raw"]}


b1 = {"d": gen.regs(n=(25, 45), p=(2, 8), mags=(0, 1)), "h": gen.ints(1, 3), "sq": st.booleans(), "alpha": st.sampled_from([0.5, 1, 2])}


@CLAUSES.clause("slsqp", gen.D(dict(b1, opt=st.just("SLSQP"), pi=st.sampled_from(["var", "cov", "continuum", "user"]))), "two components, three variables", 130)
def c_slsqp(c):
    return global_check(c, {"maxiter": 300}, 1e-2, 1e-2)


@CLAUSES.clause("slsqp_many", gen.D(dict(b1, d=gen.regs(n=(40, 60), p=(10, 20), mags=(0,)), opt=st.just("SLSQP"), pi=st.sampled_from(["var", "cov"]))), "two components", 16)
def c_slsqp_many(c):
    return global_check(c, {"maxiter": 300}, 2e-2, 2e-2)


@CLAUSES.clause("grid", gen.D(dict(b1, opt=st.just("grid"), pi=st.sampled_from(["var", "cov", "continuum", "user"]),
                                   ndir=st.sampled_from([30, 31, 50]))), "two components, three variables", 40)
def c_grid(c):
    return global_check(c, {"maxiter": 8, "ndir": c["ndir"]}, 6e-2, 5e-2)


@CLAUSES.clause("grid_settled", gen.D({"seed": gen.seeds(), "n": gen.ints(30, 60), "p": gen.ints(5, 9), "pi": st.sampled_from(["user", "user", "var"]),
                                           "sq": st.booleans(), "ndir": st.sampled_from([70, 80, 100])}), "every case", 12)
def c_settled(c):
    """The grid search goes on until the index settles: with room to converge it
    reaches the leading principal component, however close the second one."""
    short, worst = 0, (1, 0)
    for i in range(25):
        rng = np.random.default_rng([c["seed"], i])
        p = c["p"]
        Q = np.linalg.qr(rng.standard_normal((p, p)))[0]
        X = (rng.standard_normal((c["n"], p)) * np.r_[3, rng.uniform(2.4, 2.8), rng.uniform(0.5, 1, p - 2)]) @ Q
        PI, pia = IDX[c["pi"]]
        m = ppdire(projection_index=PI, pi_arguments=dict(pia), n_components=1, optimizer="grid", scale_data=False, square_pi=c["sq"],
                   optimizer_options={"ndir": c["ndir"], "maxiter": 60}, verbose=False)
        m.fit(X)
        w = vec(att(m, "x_weights_"), "x_weights_", p)
        S = np.cov(X.T, bias=True)
        r = w @ S @ w / (w @ w) / np.linalg.eigvalsh(S)[-1]
        short += r < 0.985
        worst = min(worst, (r, i))
        require(short <= 2, "%d of %d searches stop early, one at %g of the maximum", short, i + 1, worst[0])  # about one in a thousand does
    return {"nontrivial": True, "tags": [c["pi"], "p%d" % p]}


@CLAUSES.clause("grid_planes", gen.D(dict(b1, h=gen.ints(1, 2), opt=st.just("grid"), pi=st.sampled_from(["medvar", "trim", "kurt"]),
                                          ndir=st.sampled_from([31, 51]))), "three variables", 160)
def c_planes(c):
    X, y, n, p, h, Xs, ys, m, W, value = setup(c, {"maxiter": 10, "ndir": c["ndir"]})
    E = Xs.copy()
    for j in range(h):
        w = W[:, j]
        if np.linalg.norm(E @ w) < 1e-3 * np.linalg.norm(Xs):
            break
        v = value(E, w)
        b = max(value(E, np.cos(t) * w + np.sin(t) * e) for e in np.eye(p) for t in np.linspace(-np.pi / 2, np.pi / 2, 21))
        r = v / b
        if c["sq"]:
            r = np.sqrt(max(r, 0))
        require(r >= 0.85, "component %d: index %g, but %g is reached in a plane with one variable", j, v, b)
        E = deflate(E, w)
    return {"nontrivial": p > 2, "tags": [c["pi"]]}


@CLAUSES.clause("pca_pls", gen.D(dict(b1, opt=st.sampled_from(["SLSQP", "SLSQP", "grid"]), pi=st.sampled_from(["var", "cov"]))), "two components", 160)
def c_pcapls(c):
    X, y, n, p, h, Xs, ys, m, W, value = setup(c, {"maxiter": 300} if c["opt"] == "SLSQP" else {"maxiter": 12, "ndir": 101})
    T = arr(att(m, "x_scores_"), "x_scores_", (n, h))
    tol = 0.02 if c["opt"] == "SLSQP" else 0.15
    if c["pi"] == "var":
        pca = PCA().fit(Xs)
        ev = pca.explained_variance_
        skip(np.any(ev[1:h + 1] / ev[:h][: len(ev[1:h + 1])] > 0.75))
        R = Xs @ pca.components_[:h].T
    else:
        ref = models.snipls(X, y, 0.0, h, "mean", "std")
        skip(np.any(ref["yev"] < 1) or ref["cond"] > 1e4)
        R = ref["T"]
    E = Xs.copy()
    for j in range(h):
        b = best_global(c, E, ys, value, None)
        if abs(value(E, W[:, j])) < (1 - 1e-4 if c["opt"] == "SLSQP" else 0.99) * b or b < 0.05:
            break  # not optimal: judged by the other clauses
        E = deflate(E, W[:, j])
        a = abs(T[:, j] @ R[:, j]) / np.linalg.norm(T[:, j]) / np.linalg.norm(R[:, j])
        require(np.sqrt(max(0, 1 - a * a)) < tol * (3 ** j), "score %d is not the %s score (cosine %g)", j, "principal component" if c["pi"] == "var" else "PLS", a)
    return {"nontrivial": j > 0, "tags": [c["pi"], c["opt"]]}


@CLAUSES.clause("index_arguments", gen.D(dict(b1, opt=st.sampled_from(["SLSQP", "grid"]), pi=st.just("user"), trim=st.sampled_from([0, 0.1, 0.2]),
                                              bc=st.booleans(), two=st.booleans(), dm=st.sampled_from([None, "euclidean", "cityblock"]))), "second block present", 80)
def c_args(c):
    """A user-defined index is given the response as used in the fit, trimming,
    continuum coefficient and bias correction."""
    X, y = gen.reg(c["d"])
    n, p = X.shape
    m = ppdire(projection_index=MeanSquare, pi_arguments={"tag": 3}, n_components=1, optimizer=c["opt"], trimming=c["trim"], alpha=c["alpha"],
               optimizer_options={"maxiter": 3, "ndir": 10} if c["opt"] == "grid" else {"maxiter": 20}, verbose=False)
    MeanSquare.seen = []
    m.fit(X.copy(), *((y.copy(),) if c["two"] else ()), biascorr=c["bc"], **({"dmetric": c["dm"]} if c["dm"] else {}))
    seen, MeanSquare.seen = MeanSquare.seen, []
    require(len(seen) > 3, "the projection index was evaluated %d times", len(seen))
    for kw in (seen[0], seen[len(seen) // 2], seen[-1]):
        require(kw.get("trimming") == c["trim"], "index evaluated with trimming %r instead of %r", kw.get("trimming"), c["trim"])
        require(kw.get("alpha") == c["alpha"], "index evaluated with alpha %r instead of %r", kw.get("alpha"), c["alpha"])
        require(kw.get("biascorr") == c["bc"], "index evaluated with biascorr %r instead of %r", kw.get("biascorr"), c["bc"])
        require(kw.get("dmetric") == (c["dm"] or "euclidean"), "index evaluated with dmetric %r instead of %r", kw.get("dmetric"), c["dm"])
        if c["two"]:
            yy = vec(kw.get("y"), "response given to the index", n)
            k = int(c["trim"] * n)
            mu = np.sort(y)[k:n - k].mean()
            r = (yy * (y - mu)[0] / yy[0]) if abs(yy[0]) > 1e-9 else None
            if r is not None and abs((y - mu)[0]) > 1e-6:
                close(r, y - mu, "response given to the index, up to scale", 1e-6, scale=np.abs(y - mu).max() * (1 + np.abs(y - mu).max() / abs((y - mu)[0])))
                require((yy[0] > 0) == ((y - mu)[0] > 0), "response given to the index with the wrong sign")
        else:
            require(kw.get("y") is None, "a response was given to the index in a one-block fit")
    return {"nontrivial": c["two"], "tags": [c["opt"]]}


@CLAUSES.clause("co_moment_option", gen.D(dict(b1, h=st.just(1), opt=st.sampled_from(["SLSQP", "grid"]), mode=st.sampled_from(["M3", "cos", "cok"]),
                                               option=st.sampled_from([None, 1, 2]), sq=st.just(True))), "an option other than the default", 60)
def c_option(c):
    """Higher order co-moments are maximised with the option asked for."""
    X, y = gen.reg(c["d"])
    n, p = X.shape
    Xs, ys = (X - X.mean(0)) / X.std(0), (y - y.mean()) / y.std()
    m = ppdire(projection_index=dicomo, pi_arguments={"mode": c["mode"]}, n_components=1, optimizer=c["opt"], square_pi=True,
               optimizer_options={"maxiter": 6, "ndir": 30} if c["opt"] == "grid" else {"maxiter": 300}, verbose=False)
    kw = {} if c["option"] is None else {"option": c["option"]}
    m.fit(X.copy(), y.copy(), **kw)
    w = arr(att(m, "x_weights_"), "x_weights_", (p, 1))
    o = c["option"] or 1
    k = 4 if c["mode"] == "cok" else 3
    t = Xs @ (w / np.linalg.norm(w))
    v = float(np.squeeze(dicomo(mode=c["mode"]).fit(t, y=ys.reshape(-1, 1), option=o)))
    tc, yc = t[:, 0] - t.mean(), ys - ys.mean()
    r = np.mean(tc ** (k - o) * yc ** o)
    if c["mode"] != "M3":
        r /= np.std(tc) ** (k - o) * np.std(yc) ** o
    close(v, r, "%s with option %d" % (c["mode"], o), 1e-6, scale=abs(r) + 1e-3)
    skip(abs(r) < 1e-3)
    close(vec(att(m, "Maxobjf_"), "Maxobjf_", 1)[0], r * r, "Maxobjf_ against the co-moment asked for", 2e-2 if c["opt"] == "grid" else 1e-5)
    return {"nontrivial": o != 1, "tags": [c["mode"], c["opt"]]}


@CLAUSES.clause("constraints", gen.D({"d": gen.regs(n=(25, 45), p=(3, 6), mags=(0, 1)), "form": st.sampled_from(["dict", "list", "tuple"]),
                                      "sq": st.booleans(), "k": gen.ints(0, 2), "opt": st.sampled_from(["SLSQP", "IPOPT"])}), "several constraints", 60)
def c_constraints(c):
    """Further constraints hold for the direction, which is optimal under them."""
    X, y = gen.reg(c["d"])
    n, p = X.shape
    with np.errstate(all="ignore"):
        Xs = (X - X.mean(0)) / X.std(0)
        skip(not np.all(np.isfinite(Xs)) or np.linalg.cond(Xs) > 1e2)
    out = [c["k"]] if c["form"] == "dict" or p < 4 else [c["k"], (c["k"] + 1) % p]
    cons = [{"type": "eq", "fun": lambda x, i=i: x[i]} for i in out]
    cons = cons[0] if c["form"] == "dict" else (cons if c["form"] == "list" else tuple(cons))
    keep = [i for i in range(p) if i not in out]
    S = np.cov(Xs[:, keep].T, bias=True)
    best = np.linalg.eigvalsh(S)[-1]
    good = 0
    for i in range(3):  # an early stop of the search is no concern here
        Problem.answer = staticmethod(_scipy_solution)
        m = ppdire(projection_index=dicomo, pi_arguments={"mode": "var"}, n_components=1, optimizer=c["opt"], optimizer_options={"maxiter": 300},
                   optimizer_constraints=cons, square_pi=c["sq"], verbose=False)
        o = np.roll(np.arange(n), i)  # the search starts at the first case
        m.fit(X[o])
        w = vec(att(m, "x_weights_"), "x_weights_", p)
        require(np.max(np.abs(w[out])) < 1e-3 * np.linalg.norm(w), "a direction violates the constraint w[%s]=0: %s", out, w)
        w = w / np.linalg.norm(w)
        good += w[keep] @ S @ w[keep] >= (1 - 2e-2) * best
    require(good, "no search from three starts reaches the best variance under the constraints")
    return {"nontrivial": len(out) > 1, "tags": [c["form"], c["opt"]]}


def _scipy_solution(pb, x0):
    f = lambda x: float(np.ravel(pb.obj.objective(np.array(x)))[0])
    g = lambda x: np.ravel(pb.obj.gradient(np.array(x)))
    cons = []
    if pb.m:
        cl, cu = np.ravel(pb.cl), np.ravel(pb.cu)
        eq = cl == cu
        con = lambda x: np.ravel(pb.obj.constraints(np.array(x)))
        if eq.any():
            cons.append({"type": "eq", "fun": lambda x: (con(x) - cl)[eq]})
        if (~eq).any():
            cons.append({"type": "ineq", "fun": lambda x: (con(x) - cl)[~eq]})
    return minimize(f, x0, jac=g, constraints=cons, method="SLSQP", options={"maxiter": 300}).x


@CLAUSES.clause("interior_point", gen.D(dict(b1, opt=st.just("IPOPT"), pi=st.sampled_from(["var", "cov", "continuum", "user"]))), "two components, three variables", 50)
def c_ipopt(c):
    Problem.answer = staticmethod(_scipy_solution)
    return global_check(c, {"maxiter": 300}, 1e-2, 1e-2)
