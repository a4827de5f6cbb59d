"""C06: product-moment statistics."""
import numpy as np
import scipy.stats as sps
from hypothesis import strategies as st

from direpack import dicomo
from ..core import Registry, att, close, require, scalar, skip
from .. import gen, refs
from .c01 import off_edge

CLAUSES = Registry()
ASSUMPTIONS = [
    "univariate samples; trimming below 1/2; effective sample size round(n(1-t)) with no half-way case",
    "bias correction stated for orders 2 to 4; co-kurtosis correction only on standardised samples (as the code documents)",
    "median centring: orders 1 and 2, variance and covariance (correlation: known finding)",
]

TR = st.sampled_from([0, 0, 0, 0.1, 0.2, 0.25, 0.4])
SHAPES = st.sampled_from(["1d", "2d"])
XY = gen.D({"n": gen.sizes(5, 60), "fam": st.sampled_from(gen.FAMS), "rho": st.sampled_from([-0.9, 0.0, 0.6, 0.99]),
            "sx": st.sampled_from([0.01, 1.0, 20.0, 1e-5]), "sy": st.sampled_from([0.1, 1.0, 50.0]),
            "loc": st.sampled_from([0.0, 4.0, -30.0]), "seed": gen.seeds()})


def xy(s):
    rng = np.random.default_rng(s["seed"])
    Z = gen.draw_family(rng, s["fam"], s["n"], 2)
    x = Z[:, 0]
    y = s["rho"] * Z[:, 0] + np.sqrt(1 - s["rho"] ** 2) * Z[:, 1] + 0.1 * Z[:, 0] ** 2
    return s["sx"] * x + s["loc"], s["sy"] * y - 0.5 * s["loc"]


def shaped(v, how):
    return v.copy() if how == "1d" else v.reshape(-1, 1).copy()


def nt(n, t):
    f = n * (1 - t)
    skip(abs(f - np.floor(f) - 0.5) < 1e-6)
    m = int(np.floor(f + 0.5))
    skip(m < 4, "bias corrections are undefined for fewer than four effective cases")
    return m


def tm(v, t):
    return float(refs.trimmed_mean(np.asarray(v, float).reshape(-1, 1), t)[0])


def com(x, y, a, b, t):
    """trimmed mean of centred products"""
    return tm((x - tm(x, t)) ** a * (y - tm(y, t)) ** b, t)


def sc(x, y, a, b):
    return np.max(np.abs(x - x.mean())) ** a * np.max(np.abs(y - y.mean())) ** b + 1e-300


def fit(mode, x, center="mean", est="arithmetic", **kw):
    o = dicomo(est=est, mode=mode, center=center)
    v = scalar(o.fit(x, **kw), "%s statistic" % mode)
    close(np.array(scalar(att(o, "moment_"), "moment_")), np.array(v), "stored statistic against returned one", 1e-12)
    return v, o


def eq(got, want, what, scale, rtol=1e-7):
    close(np.array(got), np.array(want), what, rtol, scale=scale + abs(want))


def factor(n, order, bias):
    if not bias:
        return 1.0
    if order == 2:
        return n / (n - 1.0)
    if order == 3:
        return n * n / ((n - 1.0) * (n - 2))
    return n * n / ((n - 2.0) * (n - 3))


@CLAUSES.clause("moments", gen.D({"d": XY, "order": gen.ints(1, 6), "t": TR, "bias": st.booleans(), "sh": SHAPES}),
                "order above one", 1200)
def c_mom(c):
    x, _ = xy(c["d"])
    n, t, k = len(x), c["t"], c["order"]
    skip(not off_edge(t, n))
    bias = c["bias"] and 2 <= k <= 4
    m = nt(n, t)
    v, _ = fit("mom", shaped(x, c["sh"]), order=k, trimming=t, biascorr=bias)
    want = tm(x, t) if k == 1 else com(x, x, k, 0, t) * factor(m, k, bias)
    eq(v, want, "moment of order %d" % k, np.max(np.abs(x)) if k == 1 else sc(x, x, k, 0))
    return {"nontrivial": k > 1, "tags": ["order%d" % k, "bias" if bias else "plain", "trim" if t else "full"]}


@CLAUSES.clause("named", gen.D({"d": XY, "t": TR, "bias": st.booleans(), "sh": SHAPES, "fisher": st.sampled_from([None, True, False])}),
                "always (variance, deviation, skewness, kurtosis of one sample)", 1200)
def c_named(c):
    x, _ = xy(c["d"])
    n, t, bias = len(x), c["t"], c["bias"]
    skip(not off_edge(t, n))
    m = nt(n, t)
    skip(com(x, x, 2, 0, t) < 1e-6 * sc(x, x, 2, 0))
    X = shaped(x, c["sh"])
    kw = dict(trimming=t, biascorr=bias)
    m2 = com(x, x, 2, 0, t)
    v, _ = fit("var", X, **kw)
    eq(v, m2 * factor(m, 2, bias), "variance", sc(x, x, 2, 0))
    v, _ = fit("std", X, **kw)
    eq(v, np.sqrt(m2 * factor(m, 2, bias)), "standard deviation", sc(x, x, 1, 0))
    g1 = com(x, x, 3, 0, t) / m2**1.5
    want = g1 * np.sqrt(m * (m - 1.0)) / (m - 2) if bias else g1
    v, _ = fit("skew", X, **kw)
    eq(v, want, "skewness", 1.0, 1e-6)
    b2 = com(x, x, 4, 0, t) / m2**2
    want = b2
    if c["fisher"] is not None:
        kw["Fisher"] = c["fisher"]
    if bias:
        want = (m - 1.0) / ((m - 2) * (m - 3)) * ((m + 1) * b2 - 3 * (m - 1))
        if c["fisher"] is False:
            want += 3
    v, _ = fit("kurt", X, **kw)
    eq(v, want, "kurtosis", 1.0 + abs(b2), 1e-6)
    if t == 0:
        eq(fit("skew", X, biascorr=bias)[0], sps.skew(x, bias=not bias), "skewness against scipy", 1.0, 1e-6)
        if bias:
            eq(fit("kurt", X, biascorr=True)[0], sps.kurtosis(x, bias=False), "kurtosis against scipy", 1 + abs(b2), 1e-6)
        else:
            eq(fit("kurt", X)[0], sps.kurtosis(x, fisher=False), "kurtosis against scipy", 1 + abs(b2), 1e-6)
    return {"tags": ["bias" if bias else "plain", "trim" if t else "full"]}


@CLAUSES.clause("comoments", gen.D({"d": XY, "order": gen.ints(2, 5), "opt": gen.ints(0, 9), "t": TR, "bias": st.booleans(),
                                    "sh": SHAPES, "sh2": SHAPES}), "order above two", 1200)
def c_com(c):
    x, y = xy(c["d"])
    n, t, k = len(x), c["t"], c["order"]
    skip(not off_edge(t, n))
    bias = c["bias"] and k <= 4
    m = nt(n, t)
    b = 1 if k == 2 else 1 + c["opt"] % (k - 1)
    a = k - b
    X, Y = shaped(x, c["sh"]), shaped(y, c["sh2"])
    v, _ = fit("com", X, y=Y, order=k, option=b, trimming=t, biascorr=bias)
    want = com(x, y, a, b, t) * factor(m, k, bias)
    eq(v, want, "co-moment (%d,%d)" % (a, b), sc(x, y, a, b))
    w, _ = fit("com", Y, y=X, order=k, option=a, trimming=t, biascorr=bias)
    eq(w, v, "swapping the samples swaps the orders", sc(x, y, a, b))
    if k == 2:
        v, _ = fit("cov", X, y=Y, trimming=t, biascorr=bias)
        eq(v, want, "covariance", sc(x, y, 1, 1))
    if k == 3:
        v, _ = fit("M3", X, y=Y, option=b, trimming=t, biascorr=bias)
        eq(v, want, "third order co-moment", sc(x, y, a, b))
        if b == 1:
            v, _ = fit("M3", X, y=Y, trimming=t, biascorr=bias)
            eq(v, want, "third order co-moment, default option", sc(x, y, a, b))
    s, _ = fit("com", X, y=X.copy(), order=k, option=b, trimming=t, biascorr=bias)
    r, _ = fit("mom", X, order=k, trimming=t, biascorr=bias)
    eq(s, r, "co-moment of x with itself", sc(x, x, k, 0))
    return {"nontrivial": k > 2, "tags": ["o%d.%d" % (a, b), "bias" if bias else "plain"]}


@CLAUSES.clause("coskew_cokurt", gen.D({"d": XY, "opt": gen.ints(1, 3), "t": TR, "bias": st.booleans(), "sh": SHAPES,
                                        "std": st.sampled_from([None, True, False]), "fisher": st.sampled_from([None, False])}),
                "always", 1000)
def c_cos(c):
    x, y = xy(c["d"])
    n, t, bias = len(x), c["t"], c["bias"]
    skip(not off_edge(t, n))
    m = nt(n, t)
    vx, vy = com(x, x, 2, 0, t), com(y, y, 2, 0, t)
    skip(vx < 1e-6 * sc(x, x, 2, 0) or vy < 1e-6 * sc(y, y, 2, 0))
    X, Y = shaped(x, c["sh"]), shaped(y, c["sh"])
    kw = dict(trimming=t)
    if c["std"] is not None:
        kw["standardized"] = c["std"]
    stz = c["std"] is not False
    b = min(c["opt"], 2)
    a = 3 - b
    f = factor(m, 2, bias)
    sx, sy = np.sqrt(vx * f), np.sqrt(vy * f)
    want = com(x, y, a, b, t) * factor(m, 3, bias)
    scale = sc(x, y, a, b)
    if stz:
        want, scale = want / (sx**a * sy**b), scale / (sx**a * sy**b)
    v, _ = fit("cos", X, y=Y, option=b, biascorr=bias, **kw)
    eq(v, want, "co-skewness (%d,%d)" % (a, b), scale, 1e-6)
    # co-kurtosis
    b = c["opt"]
    a = 4 - b
    want = com(x, y, a, b, t)
    scale = sc(x, y, a, b)
    kk = dict(kw)
    if not bias:
        if stz:
            want, scale = want / (np.sqrt(vx) ** a * np.sqrt(vy) ** b), scale / (np.sqrt(vx) ** a * np.sqrt(vy) ** b)
        v, _ = fit("cok", X, y=Y, option=b, biascorr=False, **kk)
        eq(v, want, "co-kurtosis (%d,%d)" % (a, b), scale, 1e-6)
    elif t == 0 and stz:
        xs, ys = (x - x.mean()) / x.std(ddof=1), (y - y.mean()) / y.std(ddof=1)
        q = com(xs, ys, a, b, 0)
        want = (n * n - 1.0) / ((n - 2) * (n - 3)) * q - 3 * (n - 1.0) ** 2 / ((n - 2) * (n - 3))
        if c["fisher"] is not None:
            kk["Fisher"] = c["fisher"]
            want += 3
        v, _ = fit("cok", shaped(xs, c["sh"]), y=shaped(ys, c["sh"]), option=b, biascorr=True, **kk)
        eq(v, want, "bias corrected co-kurtosis of standardised samples", 1 + abs(q), 1e-6)
    return {"tags": ["bias" if bias else "plain", "std" if stz else "raw"]}


@CLAUSES.clause("correlation", gen.D({"d": XY, "t": TR, "bias": st.booleans(), "sh": SHAPES, "alpha": st.sampled_from([0, 0.5, 1, 2, 3.5]),
                                      "f": st.sampled_from([0.01, 0.5, 3.0, 400.0])}), "always", 1200)
def c_corr(c):
    x, y = xy(c["d"])
    n, t, bias = len(x), c["t"], c["bias"]
    skip(not off_edge(t, n))
    m = nt(n, t)
    vx, vy = com(x, x, 2, 0, t), com(y, y, 2, 0, t)
    skip(vx < 1e-6 * sc(x, x, 2, 0) or vy < 1e-6 * sc(y, y, 2, 0))
    X, Y = shaped(x, c["sh"]), shaped(y, c["sh"])
    cv = com(x, y, 1, 1, t)
    r, o = fit("corr", X, y=Y, trimming=t, biascorr=bias)
    eq(r, cv / np.sqrt(vx * vy), "correlation", 1.0)
    f = factor(m, 2, bias)
    eq(scalar(att(o, "x_moment_"), "x_moment_"), vx * f, "stored variance of x", sc(x, x, 2, 0))
    eq(scalar(att(o, "y_moment_"), "y_moment_"), vy * f, "stored variance of y", sc(y, y, 2, 0))
    eq(fit("corr", Y, y=X, trimming=t, biascorr=bias)[0], r, "symmetry of correlation", 1.0)
    eq(fit("corr", c["f"] * X + 1, y=Y / c["f"] - 2, trimming=t, biascorr=bias)[0], r, "correlation under rescaling", 1.0, 1e-6)
    eq(fit("corr", X, y=-Y, trimming=0, biascorr=bias)[0], -fit("corr", X, y=Y, trimming=0, biascorr=bias)[0], "correlation under sign change", 1.0)
    if t == 0:
        require(abs(r) <= 1 + 1e-9, "correlation %g exceeds one", r)
        eq(fit("corr", X, y=X.copy(), biascorr=bias)[0], 1.0, "correlation with itself", 1.0)
    v, _ = fit("continuum", X, y=Y, trimming=t, biascorr=bias, alpha=c["alpha"])
    want = (cv * f) ** 2 * np.sqrt(vx * f) ** (c["alpha"] - 1)
    eq(v, want, "continuum association, alpha=%g" % c["alpha"], sc(x, y, 2, 2) * np.sqrt(vx * f) ** (c["alpha"] - 1))
    return {}


@CLAUSES.clause("median_centre", gen.D({"d": XY, "sh": SHAPES, "bias": st.booleans(), "t": TR}), "always", 700)
def c_med(c):
    x, y = xy(c["d"])
    X, Y = shaped(x, c["sh"]), shaped(y, c["sh"])
    mx, my = np.median(x), np.median(y)
    mad = 1.4826 * np.median(np.abs(x - mx))
    for mode, kw in (("var", {}), ("mom", {"order": 2})):
        v, _ = fit(mode, X, center="median", biascorr=c["bias"], trimming=c["t"], **kw)
        eq(v, mad, "%s about the median" % mode, np.max(np.abs(x - mx)))
    skip(np.all(x == y))
    cm = np.median((x - mx) * (y - my))
    for mode, kw in (("cov", {}), ("com", {"order": 2})):
        v, _ = fit(mode, X, center="median", y=Y, biascorr=c["bias"], trimming=c["t"], **kw)
        eq(v, cm, "%s about the medians (comedian)" % mode, sc(x, y, 1, 1))
    v, _ = fit("mom", X, center="median", order=1)
    eq(v, mx, "first moment about the median", np.max(np.abs(x)))
    # modes defined about the mean whatever the centring option
    m2 = com(x, x, 2, 0, 0)
    skip(m2 < 1e-6 * sc(x, x, 2, 0))
    eq(fit("std", X, center="median")[0], np.sqrt(m2), "standard deviation ignores median centring", sc(x, x, 1, 0))
    eq(fit("skew", X, center="median")[0], com(x, x, 3, 0, 0) / m2**1.5, "skewness ignores median centring", 1.0, 1e-6)
    eq(fit("kurt", X, center="median")[0], com(x, x, 4, 0, 0) / m2**2, "kurtosis ignores median centring", 1.0, 1e-6)
    for k, modes in ((3, ("cos", "M3")), (4, ("cok",))):
        for b in range(1, k):
            a = k - b
            v = com(x, y, a, b, 0)
            for mode in modes:
                eq(fit(mode, X, center="median", y=Y, option=b, standardized=False)[0], v, "%s (%d,%d) ignores median centring" % (mode, a, b), sc(x, y, a, b), 1e-6)
    return {}


@CLAUSES.clause("shift_scale", gen.D({"d": XY, "order": gen.ints(2, 4), "opt": gen.ints(0, 5), "t": TR, "bias": st.booleans(),
                                      "f": st.sampled_from([-3.0, -1.0, 0.2, 5.0]), "g": st.sampled_from([-2.0, 0.5, 10.0]),
                                      "v": st.sampled_from([0.0, 11.0, -200.0]), "center": st.sampled_from(["mean", "median"])}),
                "factor other than one", 800)
def c_shift(c):
    x, y = xy(c["d"])
    n, t, k = len(x), c["t"], c["order"]
    skip(not off_edge(t, n))
    nt(n, t)
    if c["center"] == "median":
        k, t = 2, 0
        skip(np.all(x == y))
    b = 1 if k == 2 else 1 + c["opt"] % (k - 1)
    a = k - b
    f, g = c["f"], c["g"]
    kw = dict(order=k, option=b, trimming=t, biascorr=c["bias"] and c["center"] == "mean")
    v, _ = fit("com", x, y=y, center=c["center"], **kw)
    w, _ = fit("com", f * x + c["v"], y=g * y - c["v"], center=c["center"], **kw)
    eq(w, f**a * g**b * v, "homogeneity and shift invariance of co-moment (%d,%d)" % (a, b),
       abs(f**a * g**b) * sc(x, y, a, b) * 10, 1e-6)
    return {}
