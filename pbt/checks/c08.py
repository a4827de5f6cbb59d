"""C08: resistance of location, scale and preprocessing to a minority of outliers."""
import numpy as np
from hypothesis import strategies as st

from direpack import GenSpatialSignPreProcessor, VersatileScaler, Wrapper
from ..core import Registry, arr, att, close, require, skip, vec
from .. import gen

CLAUSES = Registry()
ASSUMPTIONS = ["strict minority of contaminated rows (up to 45% for the spatial median based estimators)",
               "outliers at 1e1 to 1e8 clean spreads (1e6 for the numerically optimised spatial median), clustered, one- or two-sided or scattered",
               "bounds are explicit multiples of the radius of the clean rows"]

KINDS = ["cluster", "ray", "scatter", "twoside", "onecol"]


def spec(pmax=5, top=8, nmax=40):
    return {"X": gen.mats(n=(7, nmax), p=(1, pmax), locs=(0, 3), grid=False),
            "frac": gen.ints(30, 130), "dist": gen.ints(1, top), "kind": st.sampled_from(KINDS),
            "where": st.sampled_from(["random", "first", "last"]), "s": gen.seeds()}


def contaminate(c, cap):
    """Clean rows, contaminated data, mask; a share c['frac']% of the largest admissible number m < n/2."""
    X = gen.mat(c["X"])
    n, p = X.shape
    rng = np.random.default_rng(c["s"])
    mmax = min((n - 1) // 2, int(cap * n))
    m = max(1, int(round(mmax * c["frac"] / 100.0)))
    m = min(m, mmax)
    skip(m < 1)
    idx = {"random": rng.permutation(n)[:m], "first": np.arange(m), "last": np.arange(n - m, n)}[c["where"]]
    sp = np.max(X.max(0) - X.min(0)) + 1e-12
    d = 10.0 ** c["dist"] * sp
    if c["kind"] == "onecol":
        u = np.zeros((m, p))
        u[:, rng.integers(p)] = 1
    elif c["kind"] == "scatter":
        u = rng.standard_normal((m, p))
        u /= np.linalg.norm(u, axis=1, keepdims=True)
    else:
        v = rng.standard_normal(p)
        v /= np.linalg.norm(v)
        u = np.tile(v, (m, 1))
        if c["kind"] == "ray":
            u = u * rng.uniform(1, 10, (m, 1))
        if c["kind"] == "twoside":
            u[: m // 2] *= -1
    Z = X.copy()
    Z[idx] = X.mean(0) + d * u
    bad = np.zeros(n, bool)
    bad[idx] = True
    return X[~bad], Z, bad


def fitted(Z, center, scale):
    vs = VersatileScaler(center=center, scale=scale)
    vs.fit(Z.copy())
    return vec(att(vs, "center_"), "location", Z.shape[1]), vec(att(vs, "scale_"), "scale", Z.shape[1])


def l1bound(C, n, m):
    """Centre, radius of the clean rows, and the displacement bound of the spatial median."""
    c0 = C.mean(0)
    R = np.max(np.linalg.norm(C - c0, axis=1)) + 1e-12
    return c0, R, 2.0 * R * (n - m) / (n - 2.0 * m)


@CLAUSES.clause("median_mad", gen.D(spec()), "at least a quarter of the rows contaminated", 1500)
def c_median(c):
    C, Z, bad = contaminate(c, 0.5)
    m, s = fitted(Z, "median", "mad")
    lo, hi = C.min(0), C.max(0)
    e = 1e-9 * (np.abs(lo) + np.abs(hi))
    require(np.all(m >= lo - e) and np.all(m <= hi + e), "median %s leaves the clean range", m)
    require(np.all(s <= (hi - lo) / 0.67448 + e), "mad %s exceeds the clean range %s / 0.6745", s, hi - lo)
    return {"nontrivial": bad.mean() >= 0.25, "tags": [c["kind"], c["where"]]}


@CLAUSES.clause("far_is_far", gen.D(spec(top=4)), "at least a quarter of the rows contaminated", 600)
def c_far(c):
    # moving the remote values further out changes neither median nor mad
    C, Z, bad = contaminate(c, 0.5)
    skip(c["kind"] == "onecol")
    Z2 = Z.copy()
    Z2[bad] = C.mean(0) + 1e3 * (Z[bad] - C.mean(0))
    thr = 4 * (C.max(0) - C.min(0))
    far = np.all(np.abs(Z[bad] - C.mean(0)) > thr)
    skip(not far)
    m, s = fitted(Z, "median", "mad")
    m2, s2 = fitted(Z2, "median", "mad")
    sc = np.max(np.abs(C)) + 1
    close(m2, m, "median after moving outliers 1000 times further", 1e-9, scale=sc)
    close(s2, s, "mad after moving outliers 1000 times further", 1e-9, scale=sc)
    return {"nontrivial": bad.mean() >= 0.25}


@CLAUSES.clause("tau", gen.D(spec(pmax=1)), "at least a quarter of the rows contaminated", 800)
def c_tau(c):
    C, Z, bad = contaminate(c, 0.5)
    x = Z[:, 0]
    s0 = np.median(np.abs(x - np.median(x)))
    skip(s0 < 1e-9 * (np.ptp(C) + 1e-300))
    _, s = fitted(Z, "median", "scaleTau2")
    # rho <= c2^2: tau <= raw mad * 3 / sqrt(Es2), and the raw mad is at most the clean range
    require(s[0] <= 3.6 * np.ptp(C), "tau scale %g against a clean range of %g", s[0], np.ptp(C))
    return {"nontrivial": bad.mean() >= 0.25, "tags": [c["kind"]]}


@CLAUSES.clause("l1median", gen.D(spec(top=6)), "at least a quarter of the rows contaminated", 500)
def c_l1(c):
    C, Z, bad = contaminate(c, 0.42)
    n, m = len(Z), int(bad.sum())
    c0, R, B = l1bound(C, n, m)
    t, _ = fitted(Z, "l1median", "None")
    dev = np.linalg.norm(t - c0)
    require(dev <= 1.02 * B, "spatial median moved by %g, bound %g (radius %g, %d of %d rows remote)", dev, B, R, m, n)
    return {"nontrivial": bad.mean() >= 0.25, "tags": [c["kind"], "1e%d" % c["dist"]]}


@CLAUSES.clause("kstepLTS", gen.D(spec(top=6)), "at least a quarter of the rows contaminated", 400)
def c_lts(c):
    C, Z, bad = contaminate(c, 0.42)
    n, m = len(Z), int(bad.sum())
    h = (n + 1) // 2
    skip(h <= m or n - m < h)
    c0, R, B = l1bound(C, n, m)
    t, _ = fitted(Z, "kstepLTS", "None")
    dev = np.linalg.norm(t - c0)
    lim = np.sqrt(h) * (1.02 * B + R) + R
    require(dev <= lim, "k-step LTS moved by %g, bound %g (radius %g, %d of %d rows remote)", dev, lim, R, m, n)
    if 10.0 ** c["dist"] * R > 20 * (B + R):
        # far outliers cannot be among the half closest to any admissible centre
        require(dev <= 1.02 * R, "k-step LTS at %g from the clean centre, clean radius %g", dev, R)
    return {"nontrivial": bad.mean() >= 0.25, "tags": [c["kind"], "1e%d" % c["dist"]]}


@CLAUSES.clause("wrap", gen.D(spec()), "at least a quarter of the rows contaminated", 800)
def c_wrap(c):
    C, Z, bad = contaminate(c, 0.5)
    w = Wrapper()
    o = arr(w.fit_transform(Z.copy()), "wrapped data", Z.shape)
    lo, hi = C.min(0), C.max(0)
    rg = hi - lo
    lim = 1.6 * rg / 0.67448 + 1e-9 * (np.abs(lo) + np.abs(hi))
    require(np.all(o >= lo - lim) and np.all(o <= hi + lim), "wrapped values leave the clean range by more than 1.6 scales")
    o2 = arr(w.transform(Z.copy()), "wrapped data (transform)", Z.shape)
    require(np.all(o2 >= lo - lim) and np.all(o2 <= hi + lim), "transform: wrapped values leave the clean range")
    return {"nontrivial": bad.mean() >= 0.25, "tags": [c["kind"]]}


@CLAUSES.clause("gss", gen.D(dict(spec(top=6), fun=st.sampled_from(
    ["ss", "ball", "shell", "quad", "winsor", "linear_redescending"]), center=st.sampled_from(["l1median", "median", "kstepLTS"]))),
    "at least a quarter of the rows contaminated", 900)
def c_gss(c):
    C, Z, bad = contaminate(c, 0.42)
    n, p = Z.shape
    m = int(bad.sum())
    h = (n + 1) // 2
    skip(n - m < (n + p + 1) // 2 or h <= m or n <= p)
    c0, R, B = l1bound(C, n, m)
    if c["center"] == "median":
        B = np.linalg.norm(C.max(0) - C.min(0))
    if c["center"] == "kstepLTS":
        B = np.sqrt(h) * (1.02 * B + R) + R
    o = GenSpatialSignPreProcessor(center=c["center"], fun=c["fun"])
    g = np.asarray(o.fit_transform(Z.copy()), dtype=float)
    require(g.shape == Z.shape, "shape %s", g.shape)
    if c["fun"] == "linear_redescending":
        skip(not np.all(np.isfinite(g)), "zero radial spread")
    g = arr(g, "preprocessed data")
    nr = np.linalg.norm(g, axis=1)
    if c["fun"] == "ss":
        require(np.all(nr <= 1 + 1e-9), "spatial sign longer than one")
    else:
        # every radial cut-off is an order statistic of clean distances
        lim = 6 * (1.02 * B + R)
        require(np.all(nr <= lim), "row of norm %g, clean rows lie within %g of the centre", nr.max(), B + R)
        nc = nr[~bad]
        require(np.all(nc <= 1.02 * B + R + 1e-9), "clean row grew to norm %g (bound %g)", nc.max(), B + R)
    return {"nontrivial": bad.mean() >= 0.25, "tags": [c["fun"], c["center"]]}
