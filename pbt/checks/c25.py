"""C25: unusable settings and mismatched data are refused."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from direpack import (GenSpatialSignPreProcessor, VersatileScaler, Wrapper, capi, dicomo, estimate_structural_dim, gen_ss_covmat, gen_ss_pp, ppdire, rm, snipls, sprm, sudire, versatile_scale)
from direpack.plot.ppdire_plot import ppdire_plot
from direpack.plot.sprm_plot import sprm_plot
from direpack.plot.sudire_plot import sudire_plot
from ..core import Registry, Violation, require, short, skip
from .. import gen

CLAUSES = Registry()
ASSUMPTIONS = ["any exception counts as a refusal; no particular exception class or message is asked for",
               "accepted neighbours are drawn away from degenerate fits (generic Gaussian data, more cases than variables)"]


def refused(f, what):
    try:
        r = f()
    except Exception as e:
        return e
    raise Violation("%s is accepted and gives %s" % (what, short(np.asarray(r)) if not hasattr(r, "fit") else type(r).__name__))


def same(a, b, what):
    for k in b:
        require(np.shape(a[k]) == np.shape(b[k]) and np.allclose(a[k], b[k], rtol=1e-7, atol=1e-9, equal_nan=True), "%s: %s is %s, a fresh object gives %s", what, k, short(a[k]), short(b[k]))


def data(c):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p)) * rng.uniform(0.5, 3, p) + rng.uniform(-2, 2, p)
    b = rng.uniform(0.5, 2, p) * rng.choice([-1, 1], p)
    y = X @ b + rng.standard_normal(n) * 0.2
    return rng, X, y, rng.standard_normal((5, p + 3))


PP = dict(projection_index=dicomo, pi_arguments={"mode": "var"}, n_components=1, optimizer="grid", optimizer_options={"maxiter": 3, "ndir": 10}, verbose=False)
CLS = {
    "snipls": (snipls, dict(eta=0.2, n_components=1, verbose=False), ["coef_", "intercept_"], ["predict", "transform"]),
    "rm": (rm, dict(verbose=False), ["coef_", "intercept_", "caseweights_"], ["predict"]),
    "sprm": (sprm, dict(eta=0.2, n_components=1, verbose=False), ["coef_", "intercept_", "caseweights_"], ["predict", "transform", "weightnewx"]),
    "ppdire": (ppdire, PP, ["x_weights_", "coef_", "intercept_"], ["predict", "transform"]),
    "sudire": (sudire, dict(sudiremeth="sir", n_components=1, n_slices=3, verbose=False), ["x_loadings_", "proj_mat_"], ["predict", "transform"]),
}


def make(est, **over):
    cls, kw, _, _ = CLS[est]
    return cls(**dict(kw, **over))


def state(est, m, Xn, p):
    out = {a: np.asarray(getattr(m, a), float) for a in CLS[est][2]}
    for u in CLS[est][3]:
        out[u] = np.asarray(getattr(m, u)(Xn[:, :p].copy()), float)
    return out


COL = ["white", "lightgrey", "blue", "k", "k", "green", "red", "orange", "k"]

BASE = {"n": gen.ints(12, 22), "p": gen.ints(3, 5), "seed": gen.seeds(), "k": gen.ints(0, 9), "u": st.floats(0.0, 1.0)}


@CLAUSES.clause("response_length", gen.D(dict(BASE, est=st.sampled_from(sorted(CLS)), by=st.sampled_from([-5, -2, -1, 1, 2, 5]), form=st.sampled_from(["vector", "column", "series", "frame"]), v=gen.ints(0, 3))), "every case", 150)
def response_length(c):
    rng, X, y, Xn = data(c)
    est, p = c["est"], c["p"]
    over = {}
    if est == "sudire":
        over = {"sudiremeth": ["sir", "save", "dr", "phd"][c["v"]]}
    if est == "ppdire":
        over = {"pi_arguments": {"mode": ["var", "cov", "corr", "var"][c["v"]]}}
    yb = np.concatenate([y, y])[:len(y) + c["by"]]
    yb = {"vector": yb, "column": yb.reshape(-1, 1), "series": pd.Series(yb), "frame": pd.DataFrame({"y": yb})}[c["form"]]
    m = make(est, **over)
    refused(lambda: m.fit(X.copy(), yb), "%s: response with %d values for %d cases" % (est, len(yb), len(y)))
    m.fit(X.copy(), y.copy())
    f = make(est, **over)
    f.fit(X.copy(), y.copy())
    same(state(est, m, Xn, p), state(est, f, Xn, p), "%s fitted after a refusal" % est)
    # a second refusal does not disturb the fitted model
    refused(lambda: m.fit(X.copy(), yb), "%s: response with %d values for %d cases" % (est, len(yb), len(y)))
    same({u: np.asarray(getattr(m, u)(Xn[:, :p].copy()), float) for u in CLS[est][3]}, {u: np.asarray(getattr(f, u)(Xn[:, :p].copy()), float) for u in CLS[est][3]}, "%s used after a refused refit" % est)
    return {"nontrivial": True, "tags": [est, c["form"], "by%+d" % c["by"]]}


@CLAUSES.clause("new_data_columns", gen.D(dict(BASE, est=st.sampled_from(sorted(CLS) + ["scaler", "wrapper"]), cols=st.sampled_from(["one", "less", "more", "more3"]), rows=st.sampled_from([1, 2, 5, "p"]), frame=st.booleans())), "every case", 170)
def new_data_columns(c):
    rng, X, y, Xn = data(c)
    est, p = c["est"], c["p"]
    q = {"one": 1, "less": p - 1, "more": p + 1, "more3": p + 3}[c["cols"]]
    r = {"p": p}.get(c["rows"], c["rows"])
    if est in ("scaler", "wrapper"):
        skip(r == 1 and q != p, "a single row may be read as a column there")
        m = VersatileScaler(center=["mean", "median"][c["k"] % 2], scale=["std", "mad"][c["k"] % 2]) if est == "scaler" else Wrapper()
        m.fit(X.copy())
        uses = ["transform", "predict"] + (["inverse_transform"] if est == "scaler" else [])
    else:
        m = make(est)
        m.fit(X.copy(), y.copy())
        uses = CLS[est][3]
    before = {u: np.asarray(getattr(m, u)(Xn[:, :p].copy()), float) for u in uses}
    A = np.vstack([Xn, Xn])[:r, :q]
    A = pd.DataFrame(A) if c["frame"] else A
    for u in uses:
        refused(lambda: getattr(m, u)(A), "%s.%s: new data with %d rows and %d columns for a model of %d variables" % (est, u, r, q, p))
    after = {u: np.asarray(getattr(m, u)(Xn[:, :p].copy()), float) for u in uses}
    same(after, before, "%s after refusing new data" % est)
    return {"nontrivial": True, "tags": [est, c["cols"], "rows%s" % c["rows"]]}


def far(c, lo, hi):
    """a value below lo or above hi, close to or far from the limit"""
    d = [1e-6, 1e-3, 0.1, 1.0, 10.0][c["k"] % 5]
    return lo - d if c["k"] >= 5 else hi + d


NAMES = ["foo", "Mean", "hampel", "", "medians", "stdev", "xyz"]


def settings(c, p, n):
    """(estimator, bad setting, good neighbour)"""
    k, u = c["k"], c["u"]
    hbad = [0, -1, -3, p + 1, p + 2, n, n + 1, n + 10][k % 8]
    name = NAMES[k % len(NAMES)]
    eta_bad = far(c, 0.0, 1.0) if k % 3 else 1.0
    S = {
        "snipls_eta": ("snipls", {"eta": eta_bad}, {"eta": [0.0, 0.05, 0.9][k % 3]}),
        "snipls_h": ("snipls", {"n_components": hbad, "eta": 0.0}, {"n_components": 1 + int(u * (p - 1.001)), "eta": 0.0}),
        "sprm_eta": ("sprm", {"eta": eta_bad}, {"eta": [0.0, 0.05, 0.5][k % 3]}),
        "sprm_h": ("sprm", {"n_components": hbad, "eta": 0.0}, {"n_components": 1 + int(u * (p - 1.001)), "eta": 0.0}),
        "ppdire_h": ("ppdire", {"n_components": hbad}, {"n_components": 1 + int(u * (p - 1.001))}),
        "sudire_h": ("sudire", {"n_components": hbad}, {"n_components": 1 + int(u * (p - 1.001))}),
        "ppdire_center": ("ppdire", {"center": name}, {"center": ["mean", "median"][k % 2]}),
        "ppdire_fit_h": ("ppdire", {}, {"n_components": 1 + int(u * (p - 1.001))}),
        "sudire_center": ("sudire", {"center": name}, {"center": ["mean", "median"][k % 2]}),
        "sudire_method": ("sudire", {"sudiremeth": ["foo", "SIR", "pca", "", "sav"][k % 5]}, {"sudiremeth": ["sir", "save", "dr", "phd"][k % 4]}),
        "ppdire_mode": ("ppdire", {"pi_arguments": {"mode": name}}, {"pi_arguments": {"mode": ["var", "cov"][k % 2]}}),
        "ppdire_est": ("ppdire", {"pi_arguments": {"mode": "var", "est": name}}, {"pi_arguments": {"mode": "var", "est": "arithmetic"}}),
    }
    for e in ("rm", "sprm"):
        lo, hi = 0.55 + 0.3 * u, 0.9 + 0.05 * u
        S[e + "_fun"] = (e, {"fun": ["foo", "hampel", "Tukey", "", "huber"][k % 5]}, {"fun": ["Hampel", "Huber", "Fair"][k % 3]})
        S[e + "_prob1"] = (e, {"probp1": far(c, 0.0, 1.0) if k % 4 else 0.0, "fun": ["Hampel", "Huber", "Fair"][k % 3]}, {"probp1": [0.6, 0.9][k % 2], "fun": ["Hampel", "Huber", "Fair"][k % 3]})
        S[e + "_order"] = (e, {"probp1": hi, "probp2": lo, "fun": "Hampel"}, {"probp1": lo, "probp2": hi, "fun": "Hampel"})
        S[e + "_order23"] = (e, {"probp1": 0.51, "probp2": hi, "probp3": lo, "fun": "Hampel"}, {"probp1": 0.51, "probp2": lo, "probp3": hi, "fun": "Hampel"})
        S[e + "_scale"] = (e, {"scale": name}, {"scale": ["mad", "std"][k % 2]})
        S[e + "_centre"] = (e, {"centre": name}, {"centre": ["median", "mean"][k % 2]})
    S["snipls_scale"] = ("snipls", {"scale": name}, {"scale": ["std", "mad", "None"][k % 3]})
    S["snipls_centre"] = ("snipls", {"centre": name}, {"centre": ["mean", "median"][k % 2]})
    return S


SETTINGS = sorted(settings({"k": 0, "u": 0.5}, 4, 20))


@CLAUSES.clause("settings", gen.D(dict(BASE, what=st.sampled_from(SETTINGS))), "every case", 420)
def settings_clause(c):
    rng, X, y, Xn = data(c)
    est, bad, good = settings(c, c["p"], c["n"])[c["what"]]
    try:
        m = make(est, **bad)
    except Exception:
        m = None
    fkw = {}
    if c["what"] == "ppdire_fit_h":  # the number of components given to fit
        fkw = {"h": [c["p"] + 1, c["p"] + 2, c["n"], c["n"] + 1][c["k"] % 4]}
    if m is not None:
        refused(lambda: m.fit(X.copy(), y.copy(), **fkw), "%s with %s %s" % (est, bad, fkw))
    f = make(est, **good)
    f.fit(X.copy(), y.copy())
    ref = state(est, f, Xn, c["p"])
    require(all(np.all(np.isfinite(v)) for v in ref.values()), "%s with valid %s has results that are not finite", est, good)
    if m is not None and est not in ("ppdire", "sudire"):
        m.set_params(**good)
        m.fit(X.copy(), y.copy())
        same(state(est, m, Xn, c["p"]), ref, "%s given valid settings after a refusal" % est)
    return {"nontrivial": True, "tags": [c["what"]]}


TWO = {"arithmetic": ["cov", "corr", "com", "cos", "cok", "continuum", "M3"], "distance": ["cov", "corr", "continuum", "mdd"]}


@CLAUSES.clause("moments", gen.D(dict(BASE, est=st.sampled_from(["arithmetic", "distance"]), what=st.sampled_from(["mode", "est", "center", "second", "length", "empty", "trimming", "mdd"]), mode=gen.ints(0, 6), by=st.sampled_from([-3, -1, 1, 3]))), "every case", 260)
def moments(c):
    rng, X, y, Xn = data(c)
    x, n, k = X[:, 0], c["n"], c["k"]
    est = c["est"]
    mode = TWO[est][c["mode"] % len(TWO[est])]
    w = c["what"]
    name = NAMES[k % len(NAMES)]
    good = dict(est=est, mode=mode)
    opts = {"option": 2} if mode == "com" else {}
    if mode in ("cos", "cok"):
        opts = {"option": 1}
    m = None
    if w == "mode":
        refused(lambda: dicomo(est=est, mode=["foo", "Var", "covar", "", "mean"][k % 5]).fit(x.copy(), y=y.copy()), "unknown moment name")
    elif w == "est":
        refused(lambda: dicomo(est=["foo", "Distance", "", "arith"][k % 4], mode=mode).fit(x.copy(), y=y.copy()), "unknown estimation mode")
    elif w == "center":
        refused(lambda: dicomo(center=name, mode=mode, est=est).fit(x.copy(), y=y.copy(), **opts), "unknown centre %r" % name)
    elif w == "mdd":
        refused(lambda: dicomo(est="arithmetic", mode="mdd").fit(x.copy(), y=y.copy()), "arithmetic martingale difference divergence")
    elif w == "second":
        m = dicomo(**good)
        refused(lambda: m.fit(x.copy(), **opts), "%s %s without second sample" % (est, mode))
    elif w == "length":
        yy = np.concatenate([y, y])[:n + c["by"]]
        m = dicomo(**good)
        refused(lambda: m.fit(x.copy(), y=yy.reshape(-1, 1) if k % 2 else yy, **opts), "%s %s of samples of %d and %d" % (est, mode, n, len(yy)))
    elif w == "empty":
        m = dicomo(**good)
        refused(lambda: m.fit(x[:0].copy(), y=y[:0].copy(), **opts), "%s %s of empty samples" % (est, mode))
    else:
        t = [-0.5, -0.1, -1.0, 0.995, 1.0, 1.5, 2.0][k % 7]
        if est == "distance":
            mode = good["mode"] = "cov"
            skip(True, "trimming plays no part in distance statistics")
        m = dicomo(**good)
        refused(lambda: m.fit(x.copy(), y=y.copy(), trimming=t, **opts), "%s with trimming %s" % (mode, t))
    if m is None:
        m = dicomo(**good)
    a = np.ravel(m.fit(x.copy(), y=y.copy(), **opts))
    b = np.ravel(dicomo(**good).fit(x.copy(), y=y.copy(), **opts))
    same({"m": a}, {"m": b}, "%s %s after a refusal" % (est, mode))
    require(np.all(np.isfinite(b)), "%s %s of ordinary samples is %s", est, mode, short(b))
    return {"nontrivial": True, "tags": [w, est + " " + mode]}


@CLAUSES.clause("preprocessing", gen.D(dict(BASE, what=st.sampled_from(["center", "scale", "trimming", "gss_fun", "gss_center", "gss_pp", "gss_cov", "vscale"]))), "every case", 120)
def preprocessing(c):
    rng, X, y, Xn = data(c)
    k, w = c["k"], c["what"]
    name = ["foo", "Mean", "medians", "avg", "l2median"][k % 5]
    t = [-0.5, -1e-3, 0.995, 1.0, 1.5][k % 5]
    bad = {
        "center": lambda: VersatileScaler(center=name).fit(X.copy()),
        "scale": lambda: VersatileScaler(scale=["foo", "sd", "Mad", "variance"][k % 4]).fit(X.copy()),
        "trimming": lambda: VersatileScaler(center="mean", scale="std", trimming=t).fit(X.copy()),
        "gss_fun": lambda: GenSpatialSignPreProcessor(fun=name).fit(X.copy()),
        "gss_center": lambda: GenSpatialSignPreProcessor(center=name).fit(X.copy()),
        "gss_pp": lambda: gen_ss_pp(X.copy(), fun=name),
        "gss_cov": lambda: gen_ss_covmat(X.copy(), fun=name),
        "vscale": lambda: versatile_scale(X.copy(), center=name),
    }[w]
    refused(bad, "%s with an unknown name or fraction (%s / %s)" % (w, name, t))
    good = {
        "center": lambda: VersatileScaler(center=["mean", "median", "l1median", "kstepLTS", "None"][k % 5]).fit_transform(X.copy()),
        "scale": lambda: VersatileScaler(scale=["std", "mad", "None"][k % 3]).fit_transform(X.copy()),
        "trimming": lambda: VersatileScaler(center="mean", scale="std", trimming=[0, 0.05, 0.2, 0.4][k % 4]).fit_transform(X.copy()),
    }.get(w, lambda: gen_ss_pp(X.copy(), fun=["ss", "ball", "shell", "quad", "winsor", "linear_redescending"][k % 6]))
    require(np.all(np.isfinite(np.asarray(good(), float))), "%s: valid setting gives results that are not finite", w)
    return {"nontrivial": True, "tags": [w]}


@CLAUSES.clause("other", gen.D(dict(BASE, what=st.sampled_from(["capi", "dimension", "valscore", "columns", "ppdire_second"]))), "every case", 90)
def other(c):
    rng, X, y, Xn = data(c)
    k, w = c["k"], c["what"]
    if w == "capi":
        refused(lambda: capi(max_degree=[5, 6, 9, 1, 0, -1][k % 6]).fit(X[:, :1].copy(), y=y[:, None].copy()), "co-moment analysis of degree %d" % [5, 6, 9, 1, 0, -1][k % 6])
        require(np.isfinite(np.ravel(capi(max_degree=2 + k % 3).fit(X[:, :1].copy(), y=y[:, None].copy()))[0]), "co-moment analysis of degree %d is not finite", 2 + k % 3)
    elif w == "dimension":
        refused(lambda: estimate_structural_dim(["foo", "SIR", "pca"][k % 3], X.copy(), y.copy(), B=2), "structural dimension by an unknown method")
    elif w == "valscore":
        m = make("sprm").fit(X.copy(), y.copy())
        refused(lambda: m.valscore(X.copy(), y.copy(), ["foo", "Normal", "", "r2"][k % 4]), "unknown scoring")
        refused(lambda: m.valscore(Xn[:, :c["p"] + 1], y[:5].copy(), "normal"), "scoring data with too many columns")
        require(np.isfinite(m.valscore(X.copy(), y.copy(), ["normal", "weighted"][k % 2])), "score of the training data is not finite")
    elif w == "columns":
        e = ["sprm", "snipls"][k % 2]
        refused(lambda: make(e, columns=True).fit(X.copy(), y.copy()), "%s: column names of an array" % e)
        make(e, columns=True).fit(pd.DataFrame(X.copy(), columns=["a%d" % j for j in range(c["p"])]), y.copy())
    else:
        mode = ["cov", "corr"][k % 2]
        refused(lambda: make("ppdire", pi_arguments={"mode": mode}).fit(X.copy()), "two-block projection index without response")
    return {"nontrivial": True, "tags": [w]}


ALL = {"scaler": VersatileScaler, "wrapper": Wrapper, "signs": GenSpatialSignPreProcessor, "dicomo": dicomo,
       "capi": lambda: capi(max_degree=3, projection_index=dicomo)}
ALL.update({e: (lambda e=e: make(e)) for e in CLS})
BAD = ["nonsense", "Center", "Scale", "funs", "n_component", "trimmings", "mode_", "eta_", "", "centered"]


@CLAUSES.clause("unknown_parameter", gen.D(dict(BASE, est=st.sampled_from(sorted(ALL)), first=st.booleans())), "every case", 80)
def unknown_parameter(c):
    """Reconfiguring by a name that is not a parameter is refused and leaves the object usable."""
    rng, X, y, Xn = data(c)
    e = c["est"]
    o = ALL[e]()
    before = o.get_params(deep=False)
    kw = {BAD[c["k"]]: [1, "mean", None, 0.3][c["n"] % 4]}
    refused(lambda: o.set_params(**kw), "%s: set_params of the unknown parameter %r" % (e, list(kw)[0]))
    refused(lambda: type(o)(**dict(kw)) if e not in ("capi", "ppdire") else make("ppdire", **kw) if e == "ppdire" else capi(max_degree=3, projection_index=dicomo, **kw),
            "%s: constructor with the unknown parameter %r" % (e, list(kw)[0]))
    after = o.get_params(deep=False)
    require(set(after) == set(before), "%s: parameters %s after a refused set_params", e, sorted(after))
    for k in before:
        require(after[k] is before[k] or after[k] == before[k], "%s: %s changed by a refused set_params", e, k)
    good = sorted(before)
    if good:
        k = good[c["k"] % len(good)]
        r = o.set_params(**{k: before[k]})
        require(r is o, "%s: set_params does not return the object", e)
    if e in CLS:
        o.fit(X.copy(), y.copy())
        f = ALL[e]()
        f.fit(X.copy(), y.copy())
        same(state(e, o, Xn, c["p"]), state(e, f, Xn, c["p"]), "%s fitted after a refused set_params" % e)
    return {"nontrivial": True, "tags": [e]}


@CLAUSES.clause("plots", gen.D(dict(BASE, what=st.sampled_from(["object", "onlyval", "mode"]), est=st.sampled_from(["sprm", "ppdire", "sudire"]))), "every case", 60)
def plots(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    rng, X, y, Xn = data(c)
    P = {"sprm": sprm_plot, "ppdire": ppdire_plot, "sudire": sudire_plot}
    est = c["est"]
    w = c["what"]
    try:
        m = make(est, n_components=2)
        m.fit(X.copy(), y.copy())
        if w == "object":
            others = [e for e in ("sprm", "ppdire", "sudire", "snipls") if e != est]
            e2 = others[c["k"] % 3]
            o = make(e2)
            o.fit(X.copy(), y.copy())
            refused(lambda: P[est](o, COL), "%s plot of a %s object" % (est, e2))
            P[est](m, COL)
        elif w == "onlyval" or est != "sprm":
            pl = P[est](m, COL)
            f = ["plot_projections", "plot_yyp"][c["k"] % 2]
            if f == "plot_yyp":
                refused(lambda: pl.plot_yyp(onlyval=True), "%s.plot_yyp of new cases only, without new cases" % est)
            else:
                refused(lambda: pl.plot_projections(onlyval=True), "%s.plot_projections of new cases only, without new cases" % est)
            if est == "sprm":
                refused(lambda: pl.plot_caseweights(onlyval=True), "sprm.plot_caseweights of new cases only, without new cases")
            Xv = Xn[:, :c["p"]].copy()
            pl.plot_projections(Xn=Xv, onlyval=True)
        else:
            pl = P[est](m, COL)
            refused(lambda: pl.plot_caseweights(mode=["foo", "X", "all"][c["k"] % 3]), "case weight plot of unknown mode")
            pl.plot_caseweights(mode=["overall", "x", "y"][c["k"] % 3])
    finally:
        plt.close("all")
    return {"nontrivial": True, "tags": [w, est]}
