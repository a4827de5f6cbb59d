"""C01: location estimators."""
import numpy as np
from hypothesis import strategies as st

from direpack import VersatileScaler
from ..core import Registry, arr, close, require, skip, vec, att
from .. import gen, refs

CLAUSES = Registry()
ASSUMPTIONS = ["finite float64 data with |x| up to ~1e4; trimming fraction below 1/2",
               "l1median compared through the value of its objective (SLSQP tolerance)"]


def loc(X, center, trimming=0):
    X = X.copy()
    vs = VersatileScaler(center=center, scale="None", trimming=trimming)
    vs.fit(X)
    m = vec(att(vs, "center_"), "location (%s)" % center, X.shape[1])
    close(vec(att(vs, "col_loc_"), "col_loc_", X.shape[1]), m, "older-name location attribute")
    return m


def trims():
    return st.sampled_from([0, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.4, 0.45])


def off_edge(t, n):
    f = t * n
    return abs(f - round(f)) > 1e-6 or f == round(f)


def spread(X):
    return np.nanmax(np.abs(X)) + 1e-300


@CLAUSES.clause("mean", gen.D({"X": gen.mats(n=(1, 60), pbig=True), "t": trims()}),
                "at least two columns or non-zero effective trimming", 1500)
def c_mean(c):
    X = gen.mat(c["X"])
    n, p = X.shape
    skip(not off_edge(c["t"], n))
    skip(n == 1 and c["X"]["p"] > 1)
    m = loc(X, "mean", c["t"])
    close(m, refs.trimmed_mean(X, c["t"]), "trimmed mean (t=%g)" % c["t"], 1e-9, scale=spread(X))
    return {"nontrivial": p > 1 or int(c["t"] * n) > 0, "tags": ["trimmed" if int(c["t"] * n) else "plain"]}


@CLAUSES.clause("median", gen.D({"X": gen.mats(n=(2, 60), pbig=True)}),
                "more than two rows", 1200)
def c_median(c):
    X = gen.mat(c["X"])
    close(loc(X, "median"), refs.nan_median(X), "median", 1e-9, scale=spread(X))
    return {"nontrivial": X.shape[0] > 2, "tags": ["even" if X.shape[0] % 2 == 0 else "odd"]}


@CLAUSES.clause("missing", gen.D({
    "X": gen.mats(n=(4, 40), pbig=True), "miss": st.lists(st.tuples(gen.ints(0, 39), gen.ints(0, 5)), min_size=1, max_size=25),
    "center": st.sampled_from(["mean", "median"])}), "some cell missing, every column keeps two values", 1000)
def c_missing(c):
    X = gen.mat(c["X"])
    n, p = X.shape
    for i, j in c["miss"]:
        X[i % n, j % p] = np.nan
    skip(np.any((~np.isnan(X)).sum(0) < 2))
    want = refs.nan_mean(X) if c["center"] == "mean" else refs.nan_median(X)
    close(loc(X, c["center"]), want, "%s with missing cells" % c["center"], 1e-9, scale=spread(X))
    return {}


@CLAUSES.clause("spatial_median", gen.D({"X": gen.mats(n=(3, 40), p=(2, 6)), "u": gen.seeds()}),
                "p >= 2 and more than three rows", 500)
def c_l1(c):
    X = gen.mat(c["X"])
    n, p = X.shape
    m = loc(X, "l1median")
    ref = refs.spatial_median(X)
    best = refs.l1_objective(ref, X)
    got = refs.l1_objective(m, X)
    tot = refs.l1_objective(np.median(X, axis=0), X)
    require(got <= best + 2e-4 * max(best, tot) + 1e-10 * spread(X),
            "l1median is not a minimiser of the summed distances: %.10g vs %.10g", got, best)
    return {"nontrivial": n > 3}


def observed_objective(m, X):
    return np.sum(np.sqrt(np.nansum((X - m) ** 2, axis=1)))


@CLAUSES.clause("spatial_median_missing", gen.D({
    "X": gen.mats(n=(6, 40), p=(2, 6), mags=(0, 1)), "miss": st.lists(st.tuples(gen.ints(0, 39), gen.ints(0, 5)), min_size=1, max_size=12)}),
    "some cell missing, every column keeps four values", 200)
def c_l1_missing(c):
    """Distances over the observed cells: summed, they cannot be improved noticeably
    (rows with one observed cell give kinks at which the search may stop)."""
    X = gen.mat(c["X"])
    n, p = X.shape
    for i, j in c["miss"]:
        X[i % n, j % p] = np.nan
    obs = ~np.isnan(X)
    skip(np.any(obs.sum(0) < 4) or np.any(obs.sum(1) < 1))
    m = loc(X, "l1median")
    z = np.nanmedian(X, axis=0)
    tot = observed_objective(z, X)
    sc = np.nanstd(X, axis=0).mean() + 1e-300
    for _ in range(300):  # reweighting over the observed cells
        d = np.sqrt(np.nansum((X - z) ** 2, axis=1))
        w = 1 / np.maximum(d, 1e-7 * sc)
        z = np.nansum(np.where(obs, X, 0) * w[:, None], axis=0) / (obs * w[:, None]).sum(0)
    best = min(observed_objective(z, X), tot)
    got = observed_objective(m, X)
    require(got <= best + 2e-2 * tot, "spatial median with missing cells does not minimise the summed distances: %.10g vs %.10g", got, best)
    return {}


@CLAUSES.clause("spatial_median_p1", gen.D({"X": gen.mats(n=(2, 40), p=(1, 1))}),
                "single column: equals the median", 150)
def c_l1_p1(c):
    X = gen.mat(c["X"])
    close(loc(X, "l1median"), refs.nan_median(X), "l1median of one variable", 1e-9, scale=spread(X))
    return {}


def lts_steps(X, maxit=5, tol=1e-10):
    """Concentration steps from the spatial median; also the smallest margin
    by which a step's half-subset is determined."""
    n, p = X.shape
    h = (n + 1) // 2
    m = refs.spatial_median(X) if p > 1 else np.median(X, axis=0)
    margin = np.inf
    start = m
    for _ in range(maxit):
        d = np.sum((X - m) ** 2, axis=1)
        o = np.argsort(d, kind="stable")
        ds = np.sqrt(d[o])
        if h < n:
            margin = min(margin, ds[h] - ds[h - 1])
        m2 = X[o[:h]].mean(0)
        done = np.max(np.abs(m2 - m)) <= tol
        m = m2
        if done:
            break
    return start, m, margin


def half_obj(X, m):
    n = X.shape[0]
    d = np.sort(np.sum((X - m) ** 2, axis=1))
    return d[: (n + 1) // 2].sum()


@CLAUSES.clause("lts", gen.D({"X": gen.mats(n=(4, 50), p=(1, 5), mags=(0, 0.3)), "out": gen.ints(0, 40), "const": st.sampled_from([0, 0, 0, 1])}),
                "half-subsets determined with margin (otherwise only the objective bound is checked)", 700)
def c_lts(c):
    X = gen.mat(c["X"])
    n, p = X.shape
    k = int(c["out"] / 100.0 * n)
    if k:
        X[:k] += 25 * (np.std(X) + np.mean(np.abs(X)))
    if c["const"] and p > 2:
        X[:, c["out"] % p] = X[0, c["out"] % p]  # settled from the start
    m = loc(X, "kstepLTS")
    start, ref, margin = lts_steps(X)
    sc = np.sqrt(np.mean(np.var(X, axis=0))) + 1e-300
    o_start = half_obj(X, start)
    skip(margin < 1e-6 * sc, "tied distances: the half-subset is not unique")
    require(half_obj(X, m) <= o_start * (1 + 1e-3) + 1e-3 * sc**2,
            "k-step LTS is worse than its starting value: %.6g > %.6g", half_obj(X, m), o_start)
    sharp = margin > 2e-2 * sc
    if sharp:
        close(m, ref, "k-step LTS location", 1e-6, scale=spread(X))
    return {"nontrivial": bool(sharp), "tags": ["sharp" if sharp else "bound"]}


@CLAUSES.clause("lts_settled", gen.D({"X": gen.mats(n=(7, 19), p=(3, 5), mags=(0, 0.3), grid=False, fams=["exp", "t3", "lap", "normal"]), "out": gen.ints(0, 40), "const": st.just(1)}),
                "half-subsets determined with margin", 400)
def c_lts_settled(c):
    """One coordinate is settled from the start, the others are not."""
    return c_lts(c)


@CLAUSES.clause("lts_slow", gen.D({"n": gen.ints(24, 60), "p": gen.ints(2, 3), "off": st.floats(1.5, 4.0), "frac": st.floats(0.35, 0.5), "seed": gen.seeds()}),
                "the half-subset still changes after the third concentration step", 700)
def c_lts_slow(c):
    """Two overlapping groups of nearly equal size: the half-subset settles slowly."""
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p))
    X[: int(c["frac"] * n)] += c["off"] * rng.uniform(0.5, 1, p)
    _, ref, margin = lts_steps(X)
    _, early, _ = lts_steps(X, 3)
    skip(margin < 3e-3)
    close(loc(X, "kstepLTS"), ref, "k-step LTS location", 1e-6, scale=spread(X))
    return {"nontrivial": bool(np.max(np.abs(ref - early)) > 1e-4), "tags": ["n%d" % (10 * (n // 10))]}


@CLAUSES.clause("equivariance", gen.D({
    "X": gen.mats(n=(5, 40), p=(2, 5), mags=(0, 0.3)), "center": st.sampled_from(["mean", "median", "l1median"]),
    "t": st.sampled_from([0, 0.1, 0.25]), "shift": gen.ints(-30, 30), "mult": st.sampled_from([-4.0, -0.5, 0.25, 2.0, 16.0])}),
    "always", 700)
def c_equi(c):
    X = gen.mat(c["X"])
    n, p = X.shape
    t = c["t"] if c["center"] == "mean" else 0
    skip(not off_edge(t, n))
    v = c["shift"] * (1 + np.arange(p)) / 3.0
    m0 = loc(X, c["center"], t)
    m1 = loc(c["mult"] * X + v, c["center"], t)
    if c["center"] == "l1median":
        Y = c["mult"] * X + v
        o1 = refs.l1_objective(m1, Y)
        o2 = refs.l1_objective(c["mult"] * m0 + v, Y)
        require(abs(o1 - o2) <= 4e-4 * max(o1, o2) + 1e-300, "l1median is not shift/scale equivariant")
    else:
        close(m1, c["mult"] * m0 + v, "%s under shift and scaling" % c["center"], 1e-8,
              scale=spread(X) * abs(c["mult"]) + np.max(np.abs(v)))
    return {}


@CLAUSES.clause("callable", gen.D({"X": gen.mats(n=(3, 25)), "w": gen.ints(1, 5),
                                                   "t": st.sampled_from([0, 0.1, 0.3])}),
                "user supplied location function", 200)
def c_callable(c):
    X = gen.mat(c["X"])
    seen = []

    def my(Z, trimming=0, **kw):
        seen.append((np.array(Z), trimming))
        return np.max(Z, axis=0) / c["w"]

    m = loc(X, my, c["t"])
    close(m, X.max(0) / c["w"], "location by user function", 1e-12)
    require(len(seen) >= 1 and seen[0][1] == c["t"], "trimming fraction not passed to the user function")
    close(seen[0][0].reshape(X.shape), X, "data handed to the user function", 0)
    return {}
