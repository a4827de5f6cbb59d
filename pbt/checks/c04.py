"""C04: wrapping transformation."""
import numpy as np
from hypothesis import strategies as st

from direpack import Wrapper, wrap
from ..core import Registry, arr, att, close, require, skip, vec
from .. import gen, refs

CLAUSES = Registry()
ASSUMPTIONS = ["points within 1e-9 of the cut-offs 1.5 and 4 are compared with either branch",
               "no missing cells"]


def data(c):
    X = gen.mat(c["X"])
    n, p = X.shape
    rng = gen.child_rng(c["X"], 3)
    k = int(c["out"] / 100.0 * n)
    if k:
        rows = rng.permutation(n)[:k]
        X[rows] += rng.choice([-1, 1], (k, p)) * 10.0 ** rng.uniform(0, 4, (k, p)) * (1 + np.std(X, axis=0))
    if c["const"]:
        X[:, c["const"] % p] = 3.25
    s = refs.nan_mad(X)
    s1 = np.where(s == 0, 1.0, s)
    z = rng.uniform(-7, 7, (c["m"], p))
    Xn = refs.nan_median(X) + s1 * z
    return X, Xn


def ref(Z, m, s):
    z = (Z - m) / s
    return m + s * refs.wrap_ref(z), z


def agree(got, Z, m, s, what):
    want, z = ref(Z, m, s)
    a = np.abs(z)
    edge = (np.abs(a - 1.5) < 1e-7) | (np.abs(a - 4) < 1e-7)
    g = arr(got, what, Z.shape)
    sc = (np.abs(m) + s * 4).max() + 1e-300
    # at an edge both branches are admissible up to the jump of the function
    # beyond the cut-off the wrapped value is the centre whatever the input's size
    close(np.where(edge, 0, g), np.where(edge, 0, want), what, 1e-8, scale=sc + 1e-3 * np.max(np.abs(Z) * (a < 4.1)))
    return a


base = {"X": gen.mats(pbig=True, n=(4, 40), p=(1, 5)), "out": gen.ints(0, 45), "const": gen.ints(0, 9), "m": gen.ints(1, 12)}


@CLAUSES.clause("training", gen.D(base), "some value in the descending part or beyond the cut-off", 1300)
def c_train(c):
    X, _ = data(c)
    n, p = X.shape
    w = Wrapper()
    w.fit(X.copy())
    m = vec(att(w, "center_"), "center_", p)
    s0 = vec(att(w, "scale_"), "scale_", p)
    big = np.max(np.abs(X)) + 1
    close(m, refs.nan_median(X), "wrapper location", 1e-10, scale=big)
    close(s0, refs.nan_mad(X), "wrapper scale", 1e-10, scale=big)
    s = np.where(s0 == 0, 1.0, s0)
    a = agree(w.transform(X.copy()), X, m, s, "wrapped training data")
    agree(Wrapper().fit_transform(X.copy()), X, m, s, "fit_transform")
    agree(wrap(X.copy(), m, s0), X, m, s, "wrap function")
    return {"nontrivial": bool(np.any(a > 1.5)), "tags": ["mid" if np.any((a > 1.5) & (a < 4)) else "nomid",
                                                          "far" if np.any(a > 4) else "nofar",
                                                          "zeroscale" if np.any(s0 == 0) else "regular"]}


@CLAUSES.clause("new_data", gen.D(base), "some new value beyond 1.5 scales", 1300)
def c_new(c):
    X, Xn = data(c)
    n, p = X.shape
    w = Wrapper()
    w.fit(X.copy())
    m = refs.nan_median(X)
    s = refs.nan_mad(X)
    s = np.where(s == 0, 1.0, s)
    w.transform(X.copy())
    a = agree(w.predict(Xn.copy()), Xn, m, s, "wrapped new data (predict)")
    agree(w.transform(Xn.copy()), Xn, m, s, "wrapped new data (transform)")
    one = w.predict(Xn[:1].copy())
    agree(one, Xn[:1], m, s, "wrapped single new case")
    close(vec(att(w, "center_"), "center_", p), m, "location after predict", 1e-10, scale=np.max(np.abs(X)))
    return {"nontrivial": bool(np.any(a > 1.5)), "tags": ["single" if len(Xn) == 1 else "batch"]}


@CLAUSES.clause("bounded", gen.D(base), "a cell moved beyond four scales", 600)
def c_bound(c):
    """The wrapped value never leaves a band of 1.6 scales about the location,
    and cells within 1.5 scales are untouched."""
    X, Xn = data(c)
    n, p = X.shape
    w = Wrapper()
    w.fit(X.copy())
    m = refs.nan_median(X)
    s = refs.nan_mad(X)
    s = np.where(s == 0, 1.0, s)
    far = Xn.copy()
    far[0] = m + s * 10.0 ** np.linspace(1, 9, p)
    for Z in (X, Xn, far):
        g = arr(w.predict(Z.copy()), "wrapped data", Z.shape)
        z = (g - m) / s
        tol = 1e-6 * (1 + np.abs(m) / s)
        require(np.all(np.abs(z) <= 1.541 + tol), "wrapped value %.4g scales away from the location", np.max(np.abs(z)))
        core = np.abs((Z - m) / s) < 1.5 - 1e-6
        close(g[core], Z[core], "cells within 1.5 scales", 1e-9, scale=np.max(np.abs(m) + 2 * s))
        out = np.abs((Z - m) / s) > 4 + 1e-6
        mm = np.broadcast_to(m, Z.shape)
        close(g[out], mm[out], "cells beyond 4 scales go to the location", 1e-9, scale=np.max(np.abs(m) + s))
    return {}
