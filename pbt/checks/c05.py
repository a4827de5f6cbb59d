"""C05: generalized spatial sign preprocessing."""
import numpy as np
from hypothesis import strategies as st

from direpack import GenSpatialSignPreProcessor, gen_ss_covmat, gen_ss_pp, VersatileScaler
from ..core import Registry, arr, att, close, require, skip, vec
from .. import gen, refs

CLAUSES = Registry()
ASSUMPTIONS = ["more rows than columns (the radial cut-offs are order statistics of rank floor((n+p+1)/2))",
               "the object's transform is applied to the data it was fitted on (known finding for other data)"]

FUNS = ["ss", "ball", "shell", "quad", "winsor", "linear_redescending"]
CENT = ["mean", "median", "l1median", "kstepLTS", "None"]
base = {"X": gen.mats(pbig=True, n=(6, 40), p=(1, 5), locs=(0, 3)), "fun": st.sampled_from(FUNS), "center": st.sampled_from(CENT),
        "out": gen.ints(0, 40)}


def data(c):
    X = gen.mat(c["X"])
    n, p = X.shape
    rng = gen.child_rng(c["X"], 4)
    k = int(c["out"] / 100.0 * n)
    if k:
        X[rng.permutation(n)[:k]] += 10.0 ** rng.uniform(0.5, 3) * (1 + np.std(X))
    return X


def centre(X, how):
    vs = VersatileScaler(center=how, scale="None")
    return arr(vs.fit_transform(X.copy()), "centred data", X.shape)


def ambiguous(fun, d, n, p):
    e = refs.radial_edges(fun, d, n, p)
    sc = np.max(d) + 1e-300
    amb = np.zeros(len(d), bool)
    for x in e:
        amb |= np.abs(d - x) <= 1e-9 * sc
    return amb


def check_pp(got, Xm, fun, what):
    n, p = Xm.shape
    d = np.sqrt((Xm**2).sum(1))
    xi = refs.radial(fun, d, n, p)
    g = arr(got, what, Xm.shape)
    amb = ambiguous(fun, d, n, p)
    want = Xm * xi[:, None]
    sc = np.max(np.abs(want)) if np.any(want) else 1.0
    close(g[~amb], want[~amb], what, 1e-7, scale=sc)
    # on a jump either side is admissible
    for i in np.flatnonzero(amb):
        ok = np.allclose(g[i], 0, atol=1e-7 * (d[i] + 1e-300)) or np.allclose(g[i], Xm[i], rtol=1e-7, atol=1e-7 * d[i])
        require(ok, "%s: case %d on a cut-off is neither kept nor removed", what, i)
    return xi, d


def dom(X, c, Xm):
    d = np.sqrt((Xm**2).sum(1))
    n, p = X.shape
    skip(n <= p)
    big = 1e-9 * np.max(np.abs(X))
    skip(np.max(d) < big, "constant data: the centred rows are rounding noise")
    skip(c["fun"] == "ss" and np.any((d < big) & (d > 0)))
    wh = d ** (2 / 3)
    if c["fun"] == "linear_redescending":
        m = refs.hmed(wh, n, p)
        skip(refs.hmed(np.abs(wh - m), n, p) < 1e-8 * (m + 1e-300), "degenerate radial spread")
    if c["fun"] == "ss":
        skip(np.any((d < 1e-8 * np.max(d)) & (d > 0)))
    if c["center"] in ("l1median", "kstepLTS"):
        skip(np.any(d < 1e-6 * (np.max(d) + 1e-300)) and c["fun"] == "ss")


@CLAUSES.clause("radial", gen.D(base), "some row whose norm changes", 1600)
def c_radial(c):
    X = data(c)
    n, p = X.shape
    Xm = centre(X, c["center"])
    dom(X, c, Xm)
    o = GenSpatialSignPreProcessor(center=c["center"], fun=c["fun"])
    g = o.fit_transform(X.copy())
    xi, d = check_pp(g, Xm, c["fun"], "preprocessed data (%s)" % c["fun"])
    gs = vec(att(o, "gss_"), "gss_", n)
    amb = ambiguous(c["fun"], d, n, p)
    close(gs[~amb], xi[~amb], "radial factors", 1e-7)
    close(arr(att(o, "Xm_"), "Xm_", (n, p)), Xm, "centred data attribute", 1e-9, scale=np.max(np.abs(X)))
    return {"nontrivial": bool(np.any(xi != 1)), "tags": [c["fun"]]}


@CLAUSES.clause("forms_agree", gen.D(base), "always", 800)
def c_forms(c):
    X = data(c)
    n, p = X.shape
    Xm = centre(X, c["center"])
    dom(X, c, Xm)
    check_pp(gen_ss_pp(X.copy(), center=c["center"], fun=c["fun"]), Xm, c["fun"], "gen_ss_pp (%s)" % c["fun"])
    o = GenSpatialSignPreProcessor(center=c["center"], fun=c["fun"])
    o.fit(X.copy())
    check_pp(o.transform(X.copy()), Xm, c["fun"], "fit then transform (%s)" % c["fun"])
    return {"tags": [c["center"]]}


@CLAUSES.clause("covariance", gen.D(base), "p >= 2", 800)
def c_cov(c):
    X = data(c)
    n, p = X.shape
    Xm = centre(X, c["center"])
    dom(X, c, Xm)
    d = np.sqrt((Xm**2).sum(1))
    skip(np.any(ambiguous(c["fun"], d, n, p)) and c["fun"] not in ("ball", "shell"))
    G = arr(gen_ss_pp(X.copy(), center=c["center"], fun=c["fun"]), "gen_ss_pp", (n, p))
    S = arr(gen_ss_covmat(X.copy(), center=c["center"], fun=c["fun"]), "covariance", (p, p))
    want = G.T @ G / n
    close(S, want, "generalized spatial sign covariance (%s)" % c["fun"], 1e-7)
    ev = np.linalg.eigvalsh((S + S.T) / 2)
    require(ev[0] >= -1e-8 * max(1.0, ev[-1]), "covariance is not positive semidefinite")
    if c["fun"] == "ss":
        nz = np.mean(d > 0)
        require(abs(np.trace(S) - nz) < 1e-6, "trace of the spatial sign covariance is %.6g, expected %.6g", np.trace(S), nz)
    return {"nontrivial": p > 1}


@CLAUSES.clause("rotation", gen.D({**base, "fun": st.sampled_from(["ss", "quad", "winsor", "linear_redescending"]),
                                   "center": st.sampled_from(["mean", "None"])}), "p >= 2", 500)
def c_rot(c):
    """Radial transforms commute with rotations of (mean-centred) data."""
    X = data(c)
    n, p = X.shape
    Xm = centre(X, c["center"])
    dom(X, c, Xm)
    skip(np.min(np.sqrt((Xm**2).sum(1))) < 1e-6 * np.max(np.abs(Xm)) or np.min(np.sqrt((Xm**2).sum(1))) < 1e-8 * np.max(np.abs(X)))
    rng = gen.child_rng(c["X"], 9)
    Q = np.linalg.qr(rng.standard_normal((p, p)))[0]
    A = arr(gen_ss_pp(X.copy(), center=c["center"], fun=c["fun"]), "gen_ss_pp", (n, p)) @ Q
    B = arr(gen_ss_pp(X @ Q, center=c["center"], fun=c["fun"]), "gen_ss_pp of rotated data", (n, p))
    close(B, A, "rotation equivariance (%s)" % c["fun"], 1e-5)
    return {"nontrivial": p > 1}


@CLAUSES.clause("callable", gen.D({"X": gen.mats(n=(6, 20), p=(1, 4)), "k": gen.ints(1, 5)}), "user radial function", 200)
def c_call(c):
    X = gen.mat(c["X"])
    n, p = X.shape
    seen = []

    def f(dd, pp, nn):
        seen.append((pp, nn))
        return np.minimum(1.0, c["k"] / (1.0 + np.asarray(dd)))

    Xm = X - X.mean(0)
    d = np.sqrt((Xm**2).sum(1))
    want = Xm * np.minimum(1.0, c["k"] / (1 + d))[:, None]
    close(arr(gen_ss_pp(X.copy(), center="mean", fun=f), "gen_ss_pp", (n, p)), want, "user radial function", 1e-8)
    close(arr(GenSpatialSignPreProcessor(center="mean", fun=f).fit_transform(X.copy()), "class", (n, p)), want,
          "user radial function (class)", 1e-8)
    close(arr(gen_ss_covmat(X.copy(), center="mean", fun=f), "covmat", (p, p)), want.T @ want / n,
          "user radial function (covariance)", 1e-8)
    require(all(s == (p, n) for s in seen), "radial function not given the dimensions (p, n)")
    return {}
