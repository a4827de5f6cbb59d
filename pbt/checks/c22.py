"""C22: the problem handed to the interior point optimiser (recording stand-in)."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize
from scipy.spatial.distance import cdist


from ..ipopt_stub import Problem, connect

connect()

from direpack import sudire  # noqa: E402
from direpack.ipopt_temp.ipopt_wrapper import minimize_ipopt  # noqa: E402
from direpack.ipopt_temp.jacobian import FunctionWithApproxJacobian, FunctionWithApproxJacobianCentral  # noqa: E402
from ..core import Registry, arr, att, close, require, scalar, skip, vec  # noqa: E402
from .. import gen, refs  # noqa: E402
from .c07 import tcentre, tmean  # noqa: E402

CLAUSES = Registry()
ASSUMPTIONS = ["the interior point library is replaced by a stand-in that records the problem and returns generated feasible points, or minimises with scipy",
               "more cases than variables, condition number of the covariance below 1e5; centre 'mean' (trimming without bias correction), data not distance matrices",
               "the dependence measure is compared up to one constant negative factor"]


def centred(D):
    return D - D.mean(0) - D.mean(1)[:, None] + D.mean()


def dcov(T, y, metric="euclidean"):
    A = centred(cdist(T, T, metric))
    B = centred(cdist(y.reshape(-1, 1), y.reshape(-1, 1), metric))
    return np.sqrt(abs(np.mean(A * B)))


def mdd(T, y, metric="euclidean", ucen=False):
    D1 = cdist(T, T, metric)
    D2 = 0.5 * (y[:, None] - y[None, :]) ** 2
    if not ucen:
        return np.sqrt(abs(np.mean(centred(D1) * centred(D2))))
    n = len(y)

    def uc(D):
        U = D - D.sum(0)[None, :] / (n - 2) - D.sum(1)[:, None] / (n - 2) + D.sum() / ((n - 1) * (n - 2))
        np.fill_diagonal(U, 0.0)
        return U
    u2 = np.sum(uc(D1) * uc(D2)) / (n * (n - 3))
    skip(u2 < 1e-4 * np.mean(D1) * np.var(y), "bias-corrected divergence not positive")
    return np.sqrt(u2)


def userfun(beta, *args):
    """User-defined criterion: minus the explained variance of a regression on the projections and their squares."""
    X, y, h = args[0], np.ravel(args[1]), args[2]
    T = np.asarray(X) @ np.reshape(beta, (-1, h), order="F")
    return -float(crit(T, y))


def crit(T, y):
    T = T - T.mean(0)
    return np.sum((T.T @ (y - y.mean()) / len(y)) ** 2) + 0.1 * np.sum(((T ** 2).T @ (y - y.mean()) / len(y)) ** 2)


def ortho(rng, p, h):
    q = np.linalg.qr(rng.standard_normal((p, h)))[0]
    return q


def trimmed(meth, T, y, metric, t):
    D1 = cdist(T, T, metric)
    D2 = 0.5 * (y[:, None] - y[None, :]) ** 2 if meth == "mdd-sdr" else np.abs(y[:, None] - y[None, :])
    n = len(y)
    skip(min(abs(n * t - round(n * t)), abs(n * n * t - round(n * n * t))) < 1e-6, "trimming count on the edge")
    w2 = tmean((tcentre(D1, t) * tcentre(D2, t)).reshape(-1), t)
    skip((w2 if meth == "mdd-sdr" else abs(w2)) < 1e-4 * np.mean(D1) * np.mean(D2), "trimmed dependence not clearly positive")
    return np.sqrt(abs(w2))


def dependence(meth, T, y, metric, ucen=False, t=0):
    if t and meth != "user":
        return trimmed(meth, T, y, metric, t)
    if meth == "mdd-sdr":
        return mdd(T, y, metric, ucen)
    if meth == "user":
        return crit(T, y)
    return dcov(T, y, metric)


DAT = gen.regs(units=(0,), big=False, n=(18, 30), p=(2, 4), mags=(0, 1), locs=(0, 3))
CFG = {"d": DAT, "sq": st.booleans(), "meth": st.sampled_from(["dcov-sdr", "mdd-sdr", "user"]), "h": st.sampled_from([1, 1, 2]),
       "sd": st.sampled_from([True, True, False]), "cd": st.sampled_from([True, True, False]),
       "metric": st.sampled_from(["euclidean", "euclidean", "cityblock"]), "via": st.sampled_from(["init", "fit"]),
       "start": st.booleans(), "discrete": st.sampled_from([False, False, True]), "seed": gen.seeds(), "y2": st.booleans()}


def problem_data(c):
    X, y = gen.reg(c["d"])
    if c.get("sq"):
        Z = (X - X.mean(0)) / X.std(0)
        y = (Z @ np.cos(np.arange(1, X.shape[1] + 1))) ** 2 + 0.1 * np.sin(np.arange(len(y)))
    if c.get("discrete"):
        y = np.searchsorted(np.quantile(y, [0.33, 0.66]), y).astype(float)
    skip(np.linalg.cond(np.cov(X, rowvar=False)) > 1e5)
    return X, y


def fit_once(c, X, y, h, answer, **more):
    Problem.log = []
    Problem.answer = staticmethod(answer)
    kw = dict(sudiremeth=userfun if c["meth"] == "user" else c["meth"], n_components=h, scale_data=c["sd"], center_data=c["cd"],
              response_type="discrete" if c.get("discrete") else "continuous", verbose=False)
    kw.update(more)
    fk = {}
    if c.get("metric", "euclidean") != "euclidean":
        if c["via"] == "init":
            kw["dmetric"] = c["metric"]
        else:
            fk["dmetric"] = c["metric"]
    if c.get("bc") and c["meth"] == "mdd-sdr":
        fk["biascorr"] = True
    m = sudire(**kw)
    m.fit(X.copy(), y.reshape(-1, 1).copy() if c.get("y2") else y.copy(), **fk)
    require(len(Problem.log) >= 1, "no problem was handed to the optimiser")
    return m, Problem.log[-1], Problem.log[0]


def obj(pb, x):
    return float(np.ravel(pb.obj.objective(np.array(x)))[0])


@CLAUSES.clause("problem", gen.D(dict(CFG, bc=st.sampled_from([False, False, True]), t=st.sampled_from([0, 0, 0, 0.05, 0.1]))), "several directions, unscaled data or a criterion other than distance covariance", 100)
def problem(c):
    if c["t"]:
        c = dict(c, bc=False)
    X, y = problem_data(c)
    n, p = X.shape
    h = c["h"]
    rng = np.random.default_rng(c["seed"])
    S = np.cov(X, rowvar=False)
    w, v = np.linalg.eigh(S)
    root = np.eye(p) if c["sd"] else v @ np.diag(w ** -0.5) @ v.T
    more = {"trimming": c["t"]} if c["t"] else {}
    if c["start"]:
        more["optimizer_start"] = (root @ ortho(rng, p, h)).flatten(order="F")
    ratio = []
    for k in range(2):
        sol = (root @ ortho(rng, p, h)).flatten(order="F")
        if k == 1:
            sol = sol * 1.3  # not feasible: constraints must say so
        m, pb, first = fit_once(c, X, y, h, lambda _p, x0: sol, **more)
        require(pb.n == p * h, "problem in %d variables, expected %d", pb.n, p * h)
        P = arr(att(m, "x_loadings_"), "x_loadings_", (p, h))
        G = P.T @ S @ P - np.eye(h)
        cons = vec(pb.obj.constraints(sol.copy()), "constraints")
        require(pb.m == cons.size, "%d constraint bounds for %d constraints", pb.m, cons.size)
        close(np.sort(np.abs(vec(pb.cl, "cl"))), np.zeros(cons.size), "lower constraint bounds")
        close(np.sort(np.abs(vec(pb.cu, "cu"))), np.zeros(cons.size), "upper constraint bounds")
        # every entry of P'SP - I must be constrained, and nothing else
        for g in G[np.tril_indices(h)]:
            require(np.min(np.abs(cons - g)) < 1e-6, "P'SP - I has the entry %.8g which no constraint reports (constraints %s)", g, cons)
        for q in cons:
            require(np.min(np.abs(G - q)) < 1e-6, "constraint value %.8g is no entry of P'SP - I (%s)", q, G.ravel())
        if k == 0:
            require(np.max(np.abs(cons)) < 1e-6, "an orthonormal basis is not feasible: %s", cons)
        dep = dependence(c["meth"], X @ P, y, c["metric"], c["bc"], c["t"])
        skip(dep < 1e-6)
        ratio.append(obj(pb, sol) / dep)
        lead = Problem.log[0]
        if c["start"]:
            close(vec(lead.x0, "start"), more["optimizer_start"], "starting value handed to the optimiser", 1e-12)
        elif c["sd"]:
            close(vec(lead.obj.constraints(lead.x0.copy()), "constraints at the start"), np.zeros(lead.m), "constraints at the default start", 1e-6, atol=1e-6)
        close(obj(pb, pb.x), obj(pb, sol), "objective at the solution", 1e-9)
    require(ratio[0] < 0, "the optimiser minimises the dependence (factor %.4g)", ratio[0])
    close(ratio[1], ratio[0], "objective relative to the dependence at two points", 1e-6)
    return {"nontrivial": h > 1 or not c["sd"] or c["meth"] != "dcov-sdr",
            "tags": [c["meth"], "h%d" % h, "sd%d" % c["sd"], "start%d" % c["start"], c["metric"]]}


@CLAUSES.clause("derivatives", gen.D(CFG), "several directions or several constraints", 60)
def derivatives(c):
    X, y = problem_data(c)
    n, p = X.shape
    h = c["h"]
    rng = np.random.default_rng(c["seed"])
    m, pb, first = fit_once(c, X, y, h, lambda _p, x0: x0)
    for q in {id(first): first, id(pb): pb}.values():
        x = q.x0 + 0.3 * np.linalg.norm(q.x0) * rng.standard_normal(p * h) / np.sqrt(p * h)
        e = 1e-6 * np.linalg.norm(x)
        num = np.array([(obj(q, x + e * d) - obj(q, x - e * d)) / (2 * e) for d in np.eye(p * h)])
        g = vec(q.obj.gradient(x.copy()), "gradient", p * h)
        close(g, num, "gradient against central differences", 2e-2, scale=max(np.abs(num).max(), abs(obj(q, x)) / np.linalg.norm(x)))
        J = arr(q.obj.jacobian(x.copy()), "constraint jacobian").reshape(q.m, p * h)
        con = lambda z: vec(q.obj.constraints(np.array(z)), "constraints", q.m)
        numJ = np.array([(con(x + e * d) - con(x - e * d)) / (2 * e) for d in np.eye(p * h)]).T
        close(J, numJ, "constraint jacobian against central differences", 1e-3, scale=np.abs(numJ).max())
    return {"nontrivial": h > 1, "tags": [c["meth"], "h%d" % h]}


@CLAUSES.clause("default_start", gen.D({k: v for k, v in CFG.items() if k not in ("metric", "via", "start")}), "the candidates differ", 60)
def default_start(c):
    """The search starts from the best of SIR, SAVE and DR, so it cannot end below them."""
    c = dict(c, meth="dcov-sdr", sd=True)
    X, y = problem_data(c)
    n, p = X.shape
    h = c["h"]
    m, pb, first = fit_once(c, X, y, h, lambda _p, x0: x0)
    P = arr(att(m, "x_loadings_"), "x_loadings_", (p, h))
    got = dcov(X @ P, y)
    cand = []
    for meth, ns in (("sir", 6), ("save", 3), ("dr", 6)):
        k = sudire(meth, n_components=h, n_slices=ns, center_data=c["cd"], scale_data=True,
                   response_type="discrete" if c["discrete"] else "continuous", verbose=False).fit(X.copy(), y.copy())
        cand.append(dcov(X @ arr(k.x_loadings_, "x_loadings_", (p, h)), y))
    require(got >= max(cand) - 1e-5 * abs(max(cand)), "default start has distance covariance %.8g, below the best of SIR, SAVE, DR %s", got, cand)
    return {"nontrivial": max(cand) - min(cand) > 1e-3 * max(cand), "tags": ["h%d" % h, "best" + str(int(np.argmax(cand)))]}


USR = {"d": gen.regs(units=(0,), big=False, n=(18, 24), p=(2, 4), mags=(0,)), "meth": st.sampled_from(["dcov-sdr", "mdd-sdr", "user"]), "h": st.sampled_from([1, 2]),
       "con": st.sampled_from(["none", "dict", "tuple"]), "type": st.sampled_from(["eq", "ineq"]), "opts": st.lists(st.sampled_from(["max_iter", "tol", "constr_viol_tol", "print_level"]), unique=True),
       "arg": st.booleans(), "sd": st.just(True), "cd": st.just(True), "seed": gen.seeds()}


@CLAUSES.clause("user_settings", gen.D(USR), "constraints, options or arguments given", 60)
def user_settings(c):
    X, y = problem_data(c)
    n, p = X.shape
    h = c["h"]
    rng = np.random.default_rng(c["seed"])
    A, r = rng.standard_normal((2, p * h)), rng.standard_normal(2)
    start = ortho(rng, p, h).flatten(order="F")
    more = {"optimizer_start": start.copy()}
    con = {"type": c["type"], "fun": lambda b, *a: A @ b - r}
    con2 = {"type": "eq", "fun": lambda b, k: float(np.sum(b ** 2) - k), "args": (2.0,)}
    if c["con"] == "dict":
        more["optimizer_constraints"] = con
        want = lambda x: A @ x - r
    elif c["con"] == "tuple":
        more["optimizer_constraints"] = (con, con2)
        want = lambda x: np.append(A @ x - r, np.sum(x ** 2) - 2.0)
    vals = {"max_iter": 77, "tol": 3e-5, "constr_viol_tol": 1e-3, "print_level": 2}
    if c["opts"]:
        more["optimizer_options"] = {k: vals[k] for k in c["opts"]}
    if c["arg"] and c["meth"] == "user":
        Xu, yu = rng.standard_normal((n, p)), rng.standard_normal(n)
        more["optimizer_arguments"] = (Xu, yu, h, None, False, 0, "mean", "euclidean", False)
    snap = {k: repr(v) for k, v in more.items()}
    m, pb, first = fit_once(c, X, y, h, lambda _p, x0: x0, **more)
    require({k: repr(getattr(m, k)) for k in more} == snap, "settings were changed by the fit: %s, before %s", {k: repr(getattr(m, k)) for k in more}, snap)
    x = rng.standard_normal(p * h)
    for q in Problem.log:
        if c["con"] != "none":
            w = want(x)
            close(vec(q.obj.constraints(x.copy()), "constraints", w.size), w, "user constraints")
            up = np.append(np.full(2, 0.0 if c["type"] == "eq" else np.inf), [0.0] * (w.size - 2))
            cu = vec(q.cu, "cu", w.size)
            close(vec(q.cl, "cl", w.size), np.zeros(w.size), "lower bounds")
            require(all((u == 0) if t == 0 else (u > 1e15) for u, t in zip(cu, up)), "upper bounds %s for constraint types %s", cu, up)
        for k in c["opts"]:
            require(q.options.get(k) == vals[k], "option %s=%r reached the optimiser as %r", k, vals[k], q.options.get(k))
    close(Problem.log[0].x0, start, "user start", 1e-12)
    if c["arg"] and c["meth"] == "user":
        close(obj(pb, x), userfun(x, Xu, yu, h), "user criterion with user arguments", 1e-9)
    return {"nontrivial": c["con"] != "none" or bool(c["opts"]) or c["arg"], "tags": [c["con"], c["type"], c["meth"]]}


SOLVE = {"d": gen.regs(units=(0,), big=False, n=(30, 40), p=(2, 4), noise=(0.1,), fams=("normal", "unif"), mags=(0, 1), locs=(0, 3), sparse=(0,)),
         "meth": st.sampled_from(["dcov-sdr", "mdd-sdr", "user"]), "sq": st.sampled_from([False, False, True]), "sd": st.just(True), "cd": st.booleans(),
         "seed": gen.seeds(), "center": st.just("mean")}


def descend(pb, x0):
    """Minimise over the unit sphere (one direction) with scipy."""
    f = lambda x: obj(pb, x / np.linalg.norm(x))
    r = minimize(f, x0, method="Nelder-Mead", options={"maxfev": 400, "xatol": 1e-6, "fatol": 1e-8})
    return r.x / np.linalg.norm(r.x)


@CLAUSES.clause("end_to_end", gen.D(SOLVE), "every case", 24)
def end_to_end(c):
    X, y = problem_data(c)
    n, p = X.shape
    m, pb, first = fit_once(c, X, y, 1, descend)
    P = arr(att(m, "x_loadings_"), "x_loadings_", (p, 1))
    S = np.cov(X, rowvar=False)
    close((P.T @ S @ P)[0], [1.0], "variance of the score", 1e-6)
    got = dependence(c["meth"], X @ P, y, "euclidean")
    base = [dependence(c["meth"], X @ (b / np.sqrt(b @ S @ b))[:, None], y, "euclidean") for b in [np.linalg.solve(S, (X - X.mean(0)).T @ y)] + list(np.diag(1 / X.std(0)))]
    require(got >= 0.98 * max(base), "dependence %.6g of the direction found is below that of a simple direction, %.6g", got, max(base))
    T = X @ P
    close(vec(m.x_scores_, "x_scores_", n), T.ravel(), "x_scores_", 1e-9, scale=np.abs(X).max() * np.abs(P).max())
    return {"nontrivial": True, "tags": [c["meth"]]}


WR = {"n": gen.ints(1, 5), "ncon": gen.ints(0, 3), "seed": gen.seeds(), "jac": st.sampled_from(["none", "fun", "true"]), "cjac": st.booleans(),
      "bounds": st.booleans(), "args": st.booleans(), "kw": st.booleans(), "opts": st.dictionaries(st.sampled_from(["disp", "maxiter", "tol", "acceptable_tol", "mu_strategy"]), st.just(0)),
      "tol": st.sampled_from([None, 1e-4]), "none": st.booleans(), "asdict": st.booleans()}


@CLAUSES.clause("wrapper", gen.D(WR), "constraints or bounds present", 150)
def wrapper(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    Q = rng.standard_normal((n, n))
    Q = Q @ Q.T + np.eye(n)
    b = rng.standard_normal(n)
    s0 = float(rng.uniform(0.5, 2))
    kw = {"shift": 0.7} if c["kw"] else None
    f = lambda x, s=1.0, shift=0.0: s * (0.5 * x @ Q @ x + b @ x) + shift
    g = lambda x, s=1.0, shift=0.0: s * (Q @ x + b)
    args = (s0,) if c["args"] else ()
    s = s0 if c["args"] else 1.0
    sh = 0.7 if c["kw"] else 0.0
    cons, types_, funs, jacs = [], [], [], []
    for k in range(c["ncon"]):
        mk = int(rng.integers(1, 3))
        M, t, sc = rng.standard_normal((mk, n)), rng.standard_normal(mk), float(rng.uniform(0.5, 2))
        con = {"type": ["eq", "ineq"][int(rng.integers(2))]}
        if mk == 1:
            con["fun"] = lambda x, q=1.0, M=M, t=t: float(q * (M @ x)[0] ** 2 - t[0])
            jf = lambda x, q=1.0, M=M: 2 * q * (M @ x)[:, None] * M
        else:
            con["fun"] = lambda x, q=1.0, M=M, t=t: q * M @ x - t
            jf = lambda x, q=1.0, M=M: q * M
        if rng.integers(2):
            con["args"] = (sc,)
        else:
            sc = 1.0
        if c["cjac"] and rng.integers(2):
            con["jac"] = jf
        cons.append(con)
        types_ += [con["type"]] * mk
        funs.append((con["fun"], sc))
        jacs.append((jf, sc))
    sol = rng.standard_normal(n)
    bounds = [(-abs(v) - 1, abs(v) + 1) for v in rng.standard_normal(n)] if c["bounds"] else None
    vals = {"disp": 3, "maxiter": 55, "tol": 2e-5, "acceptable_tol": 1e-3, "mu_strategy": "monotone"}
    opts = None if c["none"] and not c["opts"] else {k: vals[k] for k in c["opts"]}
    before = None if opts is None else dict(opts)
    Problem.log = []
    Problem.answer = staticmethod(lambda pb, x0: sol)
    x0 = rng.standard_normal(n)
    fun, jac = f, None
    if c["jac"] == "fun":
        jac = g
    elif c["jac"] == "true":
        fun, jac = (lambda x, s=1.0, shift=0.0: (f(x, s, shift), g(x, s, shift))), True
    elif kw:
        kw, sh = None, 0.0  # scipy's difference quotient takes no keywords
    r = minimize_ipopt(fun, x0.copy(), args=args, kwargs=kw, jac=jac, bounds=bounds, options=opts, tol=c["tol"],
                       constraints=cons[0] if c["asdict"] and len(cons) == 1 else tuple(cons))
    pb = Problem.log[-1]
    m = len(types_)
    require(pb.n == n and pb.m == m, "problem with %d variables and %d constraints, expected %d and %d", pb.n, pb.m, n, m)
    close(pb.x0, x0, "start", 1e-12)
    close(vec(r.x, "solution", n), sol, "solution", 1e-12)
    require(r.success is True or r.success == 1, "success not reported")
    close(float(r.fun), f(sol, s, sh), "reported objective", 1e-9, atol=1e-9)
    if bounds:
        close(vec(pb.lb, "lb", n), [v[0] for v in bounds], "lower bounds")
        close(vec(pb.ub, "ub", n), [v[1] for v in bounds], "upper bounds")
    for i in range(3):
        x = rng.standard_normal(n) * 2
        close(obj(pb, x), f(x, s, sh), "objective", 1e-10, atol=1e-10)
        close(vec(pb.obj.gradient(x.copy()), "gradient", n), g(x, s), "gradient", 1e-5, atol=1e-5)
        if m:
            w = np.hstack([np.atleast_1d(fn(x, q)) for fn, q in funs])
            close(vec(pb.obj.constraints(x.copy()), "constraints", m), w, "constraints", 1e-10, atol=1e-10)
            wj = np.vstack([np.atleast_2d(jf(x, q)) for jf, q in jacs])
            close(arr(pb.obj.jacobian(x.copy()), "jacobian").reshape(m, n), wj, "constraint jacobian", 1e-5, atol=1e-5)
    if m:
        close(vec(pb.cl, "cl", m), np.zeros(m), "constraint lower bounds")
        for u, t in zip(vec(pb.cu, "cu", m), types_):
            require(u == 0 if t == "eq" else u > 1e15, "upper bound %r for a constraint of type %s", u, t)
    names = {"disp": "print_level", "maxiter": "max_iter"}
    for k in c["opts"]:
        require(pb.options.get(names.get(k, k)) == vals[k], "option %s=%r reached the optimiser as %r", k, vals[k], pb.options)
    if c["tol"] and "tol" not in c["opts"]:
        require(pb.options.get("tol") == c["tol"], "tol=%r not passed on: %r", c["tol"], pb.options)
    require(opts == before, "options changed by the call: %r, before %r", opts, before)
    return {"nontrivial": m > 0 or bool(bounds), "tags": [c["jac"], "m%d" % m, "b%d" % c["bounds"]]}


JAC = {"n": gen.ints(1, 5), "m": gen.ints(1, 3), "seed": gen.seeds(), "central": st.booleans(), "args": st.booleans(), "loc": st.sampled_from([0, 1, 10])}


@CLAUSES.clause("jacobians", gen.D(JAC), "vector valued function", 150)
def jacobians(c):
    rng = np.random.default_rng(c["seed"])
    n, m = c["n"], c["m"]
    M, N = rng.standard_normal((m, n)), rng.standard_normal((m, n))
    q = float(rng.uniform(0.5, 2))
    f = lambda x, s=1.0: s * (M @ x + 0.5 * (N @ x) ** 2)
    J = lambda x, s=1.0: s * (M + (N @ x)[:, None] * N)
    F = (FunctionWithApproxJacobianCentral if c["central"] else FunctionWithApproxJacobian)(f, epsilon=1e-5 if c["central"] else 1e-7, verbose=False)
    args = (q,) if c["args"] else ()
    for i in range(3):
        x = rng.standard_normal(n) * (1 + c["loc"])
        x1 = x.copy()
        w = J(x, *args)
        close(arr(F.jac(x1, *args), "jac", (m, n)), w, "numerical jacobian", 1e-4, atol=1e-4)
        close(x1, x, "argument left alone", 0, atol=0)
        close(arr(F(x1, *args), "value").ravel(), f(x, *args), "value", 1e-12)
        close(arr(F(x1, *args), "value").ravel(), f(x, *args), "value on a second call", 1e-12)
    return {"nontrivial": m > 1, "tags": ["central%d" % c["central"], "m%d" % m]}
