"""C03: the scaler is the affine map given by the training statistics."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.pipeline import make_pipeline

from direpack import VersatileScaler, versatile_scale
from ..core import Registry, arr, att, close, require, skip, vec
from .. import gen, refs

CLAUSES = Registry()
ASSUMPTIONS = ["tau scale only with one column (known finding C02)", "no missing cells in this property"]

CENT = ["mean", "median", "l1median", "kstepLTS", "None"]
SCAL = ["std", "mad", "None", "scaleTau2"]
cfg = gen.D({"center": st.sampled_from(CENT), "scale": st.sampled_from(SCAL),
             "t": st.sampled_from([0, 0, 0.1, 0.3])})


def data(c):
    X = gen.mat(c["X"])
    rng = gen.child_rng(c["X"], 5)
    if c.get("const"):
        X[:, c["const"] % X.shape[1]] = [0.0, 7.0, -2.5][c["const"] % 3]
    m = c.get("m", 6)
    Xn = X[rng.integers(0, X.shape[0], m)] + rng.standard_normal((m, X.shape[1])) * np.where(np.std(X, axis=0) > 0, np.std(X, axis=0), 1.0)
    return X, Xn


def build(c, X):
    sc = c["cfg"]["scale"]
    if sc == "scaleTau2" and (X.shape[1] > 1 or refs.nan_mad(X)[0] == 0):
        sc = "mad"
    return VersatileScaler(center=c["cfg"]["center"], scale=sc, trimming=c["cfg"]["t"])


base = {"X": gen.mats(pbig=True, n=(3, 30), p=(1, 6), mags=(0, 1, 3)), "cfg": cfg, "const": gen.ints(0, 8), "m": gen.ints(1, 9)}


def stats(vs, p):
    m = vec(att(vs, "center_"), "center_", p)
    s = vec(att(vs, "scale_"), "scale_", p)
    return m, np.where(s == 0, 1.0, s), s


@CLAUSES.clause("affine", gen.D(base), "some column with a scale different from one", 1200)
def c_affine(c):
    X, Xn = data(c)
    n, p = X.shape
    vs = build(c, X)
    vs.fit(X.copy())
    m, s, raw = stats(vs, p)
    tr = arr(vs.transform(X.copy()), "transform(training)", (n, p))
    newt = arr(vs.transform(Xn.copy()), "transform(new data)", Xn.shape)
    newp = arr(vs.predict(Xn.copy()), "predict(new data)", Xn.shape)
    # every column in its own units
    for j in range(p):
        big = np.max(np.abs(X[:, j])) + abs(m[j]) + np.max(np.abs(Xn[:, j]))
        close(tr[:, j], (X[:, j] - m[j]) / s[j], "transform of training data, column %d" % j, 1e-9, scale=big / s[j])
        close(newt[:, j], (Xn[:, j] - m[j]) / s[j], "transform of new data, column %d" % j, 1e-9, scale=big / s[j])
        close(newp[:, j], (Xn[:, j] - m[j]) / s[j], "predict of new data, column %d" % j, 1e-9, scale=big / s[j])
    m2, s2, raw2 = stats(vs, p)
    close(m2, m, "location after transforming", 0)
    close(raw2, raw, "scale after transforming", 0)
    return {"nontrivial": bool(np.any(s != 1)), "tags": ["const" if np.any(raw == 0) else "regular",
                                                         "single" if len(Xn) == 1 else "batch"]}


@CLAUSES.clause("roundtrip", gen.D(base), "some column with a scale different from one", 1000)
def c_round(c):
    X, Xn = data(c)
    n, p = X.shape
    vs = build(c, X)
    vs.fit(X.copy())
    m, s, raw = stats(vs, p)
    back = arr(vs.inverse_transform(vs.transform(X.copy())), "inverse_transform", (n, p))
    vs.transform(X.copy())
    last = arr(vs.inverse_transform(), "inverse_transform()", (n, p))
    backn = arr(vs.inverse_transform(vs.predict(Xn.copy())), "inverse_transform(new)", Xn.shape)
    Z = Xn / np.max(np.abs(Xn), axis=0, initial=1e-300)
    inv = arr(vs.inverse_transform(Z.copy()), "inverse_transform(Z)", Xn.shape)
    forth = arr(vs.transform(inv.copy()), "transform(inverse)", Xn.shape)
    for j in range(p):
        big = np.max(np.abs(X[:, j])) + abs(m[j]) + np.max(np.abs(Xn[:, j]))
        close(back[:, j], X[:, j], "inverse_transform(transform(X)), column %d" % j, 1e-9, atol=1e-300, scale=big)
        close(last[:, j], X[:, j], "inverse_transform() of the last transform, column %d" % j, 1e-9, atol=1e-300, scale=big)
        close(backn[:, j], Xn[:, j], "inverse_transform(predict(new data)), column %d" % j, 1e-9, atol=1e-300, scale=big)
        close(inv[:, j], Z[:, j] * s[j] + m[j], "inverse_transform(Z), column %d" % j, 1e-9, atol=1e-300, scale=abs(m[j]) + s[j])
        close(forth[:, j], Z[:, j], "transform(inverse_transform(Z)), column %d" % j, 1e-9, scale=1 + abs(m[j]) / s[j])
    return {"nontrivial": bool(np.any(s != 1)), "tags": ["const" if np.any(raw == 0) else "regular"]}


@CLAUSES.clause("standardised", gen.D(base), "non-constant columns", 700)
def c_std(c):
    """Re-estimating on standardised data gives location 0 and scale 1."""
    X, _ = data(c)
    n, p = X.shape
    t = c["cfg"]["t"]
    vs = build(c, X)
    Z = arr(vs.fit_transform(X.copy()), "fit_transform", (n, p))
    m, s, raw = stats(vs, p)
    close(Z, arr(att(vs, "datas_"), "stored transformed data"), "stored transformed data", 0)
    cond = np.max(np.abs(X)) / np.min(s)
    skip(cond > 1e6)
    if c["cfg"]["center"] in ("mean", "median"):
        loc = refs.trimmed_mean(Z, t) if c["cfg"]["center"] == "mean" else refs.nan_median(Z)
        close(loc, np.zeros(p), "location of standardised data", 1e-9, scale=cond)
    if vs.scale in ("std", "mad") and not (vs.scale == "std" and t > 0):
        sc = refs.nan_std(Z) if vs.scale == "std" else refs.nan_mad(Z)
        ok = raw > 1e-9 * np.max(np.abs(X))
        close(sc[ok], np.ones(ok.sum()), "scale of standardised data", 1e-9, scale=cond)
    return {"nontrivial": bool(np.any(raw > 0))}


@CLAUSES.clause("function_form", gen.D(base), "always", 500)
def c_fun(c):
    X, Xn = data(c)
    n, p = X.shape
    vs = build(c, X)
    vs.fit(X.copy())
    Z = arr(vs.transform(X.copy()), "transform", (n, p))
    Z2 = arr(versatile_scale(X.copy(), center=vs.center, scale=vs.scale, trimming=vs.trimming), "versatile_scale", (n, p))
    close(Z2, Z, "versatile_scale against the class", 1e-10)
    Z3 = arr(clone(vs).fit_transform(X.copy()), "fit_transform", (n, p))
    close(Z3, Z, "fit_transform against fit then transform", 1e-10)
    Z4 = arr(make_pipeline(clone(vs), VersatileScaler(center="None", scale="None")).fit(X.copy()).transform(Xn.copy()), "pipeline", Xn.shape)
    close(Z4, arr(vs.transform(Xn.copy()), "transform(new)"), "pipelined scaler against the scaler", 1e-10)
    return {}


@CLAUSES.clause("rowwise", gen.D(base), "more than one new row", 600)
def c_rowwise(c):
    """New rows are standardised independently of the batch they arrive in."""
    X, Xn = data(c)
    n, p = X.shape
    vs = build(c, X)
    vs.fit(X.copy())
    whole = arr(vs.predict(Xn.copy()), "predict(batch)", Xn.shape)
    whole_t = arr(vs.transform(Xn.copy()), "transform(batch)", Xn.shape)
    for i in range(len(Xn)):
        one = arr(vs.predict(Xn[i:i + 1].copy()), "predict(single row)", (1, p))
        close(one[0], whole[i], "single row against batch (predict)", 1e-10, scale=np.max(np.abs(whole)))
        one = arr(vs.transform(Xn[i:i + 1].copy()), "transform(single row)", (1, p))
        close(one[0], whole_t[i], "single row against batch (transform)", 1e-10, scale=np.max(np.abs(whole_t)))
    return {"nontrivial": len(Xn) > 1}
