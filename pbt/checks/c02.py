"""C02: scale estimators."""
import numpy as np
from hypothesis import strategies as st

from direpack import VersatileScaler
from ..core import Registry, close, require, skip, vec, att
from .. import gen, refs
from .c01 import off_edge, trims

CLAUSES = Registry()
ASSUMPTIONS = ["finite float64 data; tau scale checked for single variables (see known findings for several columns)"]


def sca(X, scale, trimming=0, center="None"):
    vs = VersatileScaler(center=center, scale=scale, trimming=trimming)
    vs.fit(X.copy())
    s = vec(att(vs, "scale_"), "scale (%s)" % scale, X.shape[1])
    close(vec(att(vs, "col_sca_"), "col_sca_", X.shape[1]), s, "older-name scale attribute")
    return s


def dev(X):
    return np.nanmax(np.abs(X)) + 1e-300


def trimmed_std(X, t):
    return np.sqrt(refs.trimmed_mean((X - refs.trimmed_mean(X, t)) ** 2, t))


@CLAUSES.clause("std", gen.D({"X": gen.mats(n=(2, 60), pbig=True), "t": trims(),
                                              "center": st.sampled_from(["None", "mean", "median"])}),
                "more than two rows", 1500)
def c_std(c):
    X = gen.mat(c["X"])
    n, p = X.shape
    skip(not off_edge(c["t"], n))
    close(sca(X, "std", c["t"], c["center"]), trimmed_std(X, c["t"]), "trimmed standard deviation (t=%g)" % c["t"],
          1e-9, scale=dev(X))
    return {"nontrivial": n > 2, "tags": ["trimmed" if int(c["t"] * n) else "plain"]}


@CLAUSES.clause("mad", gen.D({"X": gen.mats(n=(2, 60), pbig=True), "center": st.sampled_from(["None", "mean", "median", "l1median"])}),
                "more than two rows", 1200)
def c_mad(c):
    X = gen.mat(c["X"])
    close(sca(X, "mad", 0, c["center"]), refs.nan_mad(X), "median absolute deviation", 1e-9, scale=dev(X))
    return {"nontrivial": X.shape[0] > 2}


@CLAUSES.clause("missing", gen.D({
    "X": gen.mats(n=(4, 40), pbig=True), "miss": st.lists(st.tuples(gen.ints(0, 39), gen.ints(0, 5)), min_size=1, max_size=25),
    "scale": st.sampled_from(["std", "mad"])}), "some cell missing, every column keeps three values", 1000)
def c_missing(c):
    X = gen.mat(c["X"])
    n, p = X.shape
    for i, j in c["miss"]:
        X[i % n, j % p] = np.nan
    skip(np.any((~np.isnan(X)).sum(0) < 3))
    want = refs.nan_std(X) if c["scale"] == "std" else refs.nan_mad(X)
    close(sca(X, c["scale"]), want, "%s with missing cells" % c["scale"], 1e-9, scale=dev(X))
    return {}


@CLAUSES.clause("tau", gen.D({"X": gen.mats(n=(4, 60), p=(1, 1)), "out": gen.ints(0, 40)}),
                "non-zero median absolute deviation", 1000)
def c_tau(c):
    X = gen.mat(c["X"])
    n = X.shape[0]
    k = int(c["out"] / 100.0 * n)
    if k:
        X[:k] += 25 * (np.std(X) + np.mean(np.abs(X)))
    skip(refs.nan_mad(X)[0] < 1e-6 * dev(X))
    close(sca(X, "scaleTau2"), np.array([refs.tau_scale(X[:, 0])]), "tau scale", 1e-8)
    return {"tags": ["outliers" if k else "clean"]}


@CLAUSES.clause("equivariance", gen.D({
    "X": gen.mats(n=(5, 40), p=(1, 5), mags=(0, 0.3), grid=False), "scale": st.sampled_from(["std", "mad", "tau1"]),
    "t": st.sampled_from([0, 0.1, 0.25]), "shift": gen.ints(-30, 30), "mult": st.sampled_from([-4.0, -0.5, 0.25, 2.0, 16.0])}),
    "always", 900)
def c_equi(c):
    X = gen.mat(c["X"])
    name = c["scale"]
    if name == "tau1":
        X, name = X[:, :1], "scaleTau2"
        skip(refs.nan_mad(X)[0] < 1e-6 * dev(X))
    n, p = X.shape
    t = c["t"] if name == "std" else 0
    skip(not off_edge(t, n))
    v = c["shift"] * (1 + np.arange(p)) / 3.0
    s0 = sca(X, name, t)
    s1 = sca(c["mult"] * X + v, name, t)
    close(s1, abs(c["mult"]) * s0, "%s scale under shift and scaling" % name, 1e-7,
          scale=(dev(X) * abs(c["mult"]) + np.max(np.abs(v))))
    return {}


@CLAUSES.clause("consistency", gen.D({"seed": gen.seeds(), "sigma": st.sampled_from([0.01, 1.0, 30.0]),
                                                      "mu": st.sampled_from([-5.0, 0.0, 100.0]), "p1": st.booleans()}),
                "Gaussian samples of size 4000", 60)
def c_consist(c):
    rng = np.random.default_rng(c["seed"])
    X = c["mu"] + c["sigma"] * rng.standard_normal((4000, 1 if c["p1"] else 3))
    for name in ["std", "mad"] + (["scaleTau2"] if c["p1"] else []):
        s = sca(X, name)
        require(np.all(np.abs(s / c["sigma"] - 1) < 0.12), "%s is not consistent at the normal: %s for sigma=%g",
                name, s, c["sigma"])
    return {}


@CLAUSES.clause("none_and_callable", gen.D({"X": gen.mats(n=(3, 25)), "w": gen.ints(1, 5),
                                                            "t": st.sampled_from([0, 0.1, 0.3])}),
                "user supplied scale function", 200)
def c_callable(c):
    X = gen.mat(c["X"])
    close(sca(X, "None"), np.ones(X.shape[1]), "no scaling means unit scale", 0)
    seen = []

    def my(Z, trimming=0, **kw):
        seen.append(trimming)
        return np.ptp(Z, axis=0) / c["w"] + 1.0

    close(sca(X, my, c["t"]), np.ptp(X, axis=0) / c["w"] + 1.0, "scale by user function", 1e-12)
    require(seen and seen[0] == c["t"], "trimming fraction not passed to the user function")
    return {}
