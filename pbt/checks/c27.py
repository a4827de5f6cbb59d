"""C27: plots show every case and coefficient once, at its value, with its label."""
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402
from matplotlib.markers import MarkerStyle  # noqa: E402
from matplotlib.tri import LinearTriInterpolator, Triangulation  # noqa: E402

from direpack import dicomo, ppdire, ppdire_plot, sprm, sprm_plot, sudire, sudire_plot  # noqa: E402
from direpack import sprm_plot_cv  # noqa: E402
from ..core import Registry, arr, att, close, raises, require, skip, vec  # noqa: E402
from .. import gen  # noqa: E402

CLAUSES = Registry()
ASSUMPTIONS = ["the figure is drawn with the Agg backend and its artists are inspected; legends, titles and axis styles are not judged",
               "weights are compared with the model's own case weights"]
COL = ["#fefefe", "#f0f0f0", "#102030", "#405060", "#708090", "#a0b0c0", "#d01020", "#20d010"]
MARK = ["o", "d", "v"]


def figure(fn):
    plt.close("all")
    fn()
    nums = plt.get_fignums()
    require(len(nums) >= 1, "nothing was drawn")
    axs = plt.figure(nums[-1]).axes
    require(len(axs) >= 1, "no axes were drawn")
    return axs[0]


def done(*axes):
    plt.close("all")


def points(ax):
    """All scattered points: (x, y, facecolor, marker vertices)."""
    out = []
    for col in ax.collections:
        off = np.asarray(col.get_offsets(), float).reshape(-1, 2)
        fc = col.get_facecolor()
        path = col.get_paths()[0]
        for k, (x, y) in enumerate(off):
            out.append((x, y, tuple(np.round(fc[k % len(fc)], 6)) if len(fc) else None, path.vertices.round(6).tobytes()))
    return out


def marker_id(m):
    ms = MarkerStyle(m)
    return ms.get_path().transformed(ms.get_transform()).vertices.round(6).tobytes()


def match(ax, want, what):
    """want: list of (x, y, colour, marker) with None where not judged; exactly these points are drawn."""
    got = points(ax)
    require(len(got) == len(want), "%s: %d points drawn for %d cases", what, len(got), len(want))
    G = np.array([g[:2] for g in got], float).reshape(-1, 2)
    W = np.array([w[:2] for w in want], float).reshape(-1, 2)
    og, ow = np.lexsort((G[:, 1], G[:, 0])), np.lexsort((W[:, 1], W[:, 0]))
    close(G[og], W[ow], what + ": coordinates", 1e-9)
    for a, b in zip(og, ow):
        if want[b][2] is not None:
            require(got[a][2] == tuple(np.round(to_rgba(want[b][2]), 6)), "%s: case at %s has colour %s, expected %s", what, W[b], got[a][2], want[b][2])
        if want[b][3] is not None:
            require(got[a][3] == marker_id(want[b][3]), "%s: case at %s does not have the marker %r", what, W[b], want[b][3])


def diagonal(ax, what):
    for ln in ax.lines:
        xy = np.asarray(ln.get_xydata(), float)
        require(len(xy) > 1 and np.ptp(xy[:, 0]) > 0, "%s: the line is a point", what)
        close(xy[:, 1], xy[:, 0], what + ": line of equal observed and predicted values", 1e-9)


def labels(ax, want, what):
    """want: list of (text, x, y)."""
    got = [(t.get_text(), float(t.xy[0]), float(t.xy[1])) for t in ax.texts if hasattr(t, "xy")]
    require(len(got) == len(want), "%s: %d labels for %d names (%s ...)", what, len(got), len(want), [g[0] for g in got][-3:])
    require(sorted(g[0] for g in got) == sorted(w[0] for w in want), "%s: labels %s, names %s", what, sorted(g[0] for g in got), sorted(w[0] for w in want))
    for w in want:
        cand = [g for g in got if g[0] == w[0]]
        best = min(cand, key=lambda g: abs(g[1] - w[1]) + abs(g[2] - w[2]))
        close(np.array(best[1:]), np.array(w[1:], float), "%s: position of label %s" % (what, w[0]), 1e-9)


SP = {"d": gen.regs(n=(12, 25), p=(3, 6), mags=(0,)), "k": st.sampled_from([2, 2, 3]), "eta": st.sampled_from([0.0, 0.3]), "fun": st.sampled_from(["Hampel", "Hampel", "Huber", "Fair"]),
      "out": gen.ints(0, 3), "new": st.sampled_from([0, 1, 6]), "only": st.booleans(), "names": st.booleans(), "namesv": st.booleans(), "y2": st.booleans(), "frame": st.booleans(),
      "comp": st.sampled_from([[0, 1], [1, 0], [0, 2]]), "mode": st.sampled_from(["overall", "x", "y"]), "const": st.sampled_from([0, 0, 1]), "mark": st.booleans(), "harsh": st.booleans(), "copy": st.sampled_from([True, True, False])}


def sprm_model(c):
    X, y = gen.reg(c["d"])
    rng = np.random.default_rng([c["d"]["seed"], 5])
    for i in rng.permutation(len(y))[:c["out"]]:
        y[i] += 40 * np.std(y) * rng.choice([-1, 1])
    if c["const"]:
        X = np.column_stack([X, np.full(len(y), 3.0)])
    p = X.shape[1]
    m = sprm(n_components=min(c["k"], p - c["const"]), eta=c["eta"], fun=c["fun"], verbose=False, copy=c["copy"])
    Xa = pd.DataFrame(X, columns=["v%d" % j for j in range(p)]) if c["frame"] else X.copy()
    try:
        m.fit(Xa, y.reshape(-1, 1).copy() if c["y2"] else y.copy())
    except Exception:
        skip(True, "model cannot be fitted")
    new = c["new"] if not c["only"] else max(1, c["new"])
    Xn = X.mean(0) + rng.standard_t(2, (new, p)) * (X.std(0)) if new else None
    yn = rng.standard_normal(new) * y.std() + y.mean() if new else None
    if c["harsh"] and new > 4:
        Xn[rng.integers(new)] += 300 * X.std(0) * rng.choice([-1, 1], p)
    return X, y, m, Xn, yn


def wclass(w, cols):
    return (cols[2], MARK[2]) if w == 0 else ((cols[1], MARK[1]) if w < 1 else (cols[0], MARK[0]))


def newkw(c, Xn, yn=None):
    kw = {}
    if Xn is not None:
        kw["Xn"] = pd.DataFrame(Xn) if c["frame"] else Xn.copy()
        if yn is not None:
            kw["ytruev"] = yn.reshape(-1, 1).copy() if c["y2"] else yn.copy()
    return kw


def mknames(c, n, nv, tag="c"):
    kw, nm, nmv = {}, [], []
    if c["names"]:
        nm = ["%s%d" % (tag, i) for i in range(n)]
        kw["names"] = nm
    if c["namesv"] and nv:
        nmv = ["new%d" % i for i in range(nv)]
        kw["namesv"] = nmv
    return kw, nm, nmv


def usable_weights(m, Xn):
    w = vec(att(m, "caseweights_"), "caseweights_")
    wv = None
    if Xn is not None:
        try:
            wv = vec(m.weightnewx(Xn.copy()), "weightnewx", len(Xn), finite=False)
        except Exception:
            skip(True)
        skip(not np.all(np.isfinite(wv)), "weights of the new batch undefined")
    return w, wv


@CLAUSES.clause("sprm_yyp", gen.D(SP), "outliers, new cases or labels", 60)
def sprm_yyp(c):
    X, y, m, Xn, yn = sprm_model(c)
    w, wv = usable_weights(m, Xn)
    n = len(y)
    pl = sprm_plot(m, COL, *( [MARK] if c["mark"] else []))
    nk, nm, nmv = mknames(c, n, 0 if Xn is None else len(Xn))
    ax = figure(lambda: pl.plot_yyp(onlyval=c["only"], label=["resp"], title="t", **newkw(c, Xn, yn), **nk))
    f = vec(m.fitted_, "fitted_", n)
    want, lab = [], []
    if not c["only"]:
        want += [(y[i], f[i]) + wclass(w[i], (COL[2], COL[2], COL[6])) for i in range(n)]
        lab += [(nm[i], y[i], f[i]) for i in range(len(nm))]
    if Xn is not None:
        pr = vec(m.predict(Xn.copy()), "predict", len(Xn))
        want += [(yn[i], pr[i]) + wclass(wv[i], (COL[5], COL[5], COL[7])) for i in range(len(Xn))]
        lab += [(nmv[i], yn[i], pr[i]) for i in range(len(nmv))]
    match(ax, want, "plot_yyp")
    diagonal(ax, "plot_yyp")
    labels(ax, lab, "plot_yyp")
    done()
    return {"nontrivial": bool(np.any(w < 1)) or bool(lab) or Xn is not None, "tags": ["only%d" % c["only"], "new%d" % (Xn is not None), "zero%d" % bool(np.any(w == 0))]}


@CLAUSES.clause("sprm_projections", gen.D(SP), "outliers, new cases or labels", 60)
def sprm_projections(c):
    X, y, m, Xn, yn = sprm_model(c)
    w, wv = usable_weights(m, Xn)
    n = len(y)
    a, b = c["comp"]
    T = arr(m.x_scores_, "x_scores_")
    skip(max(a, b) >= T.shape[1])
    pl = sprm_plot(m, COL, MARK)
    nk, nm, nmv = mknames(c, n, 0 if Xn is None else len(Xn))
    ax = figure(lambda: pl.plot_projections(onlyval=c["only"], components=list(c["comp"]), **newkw(c, Xn), **nk))
    want, lab = [], []
    if not c["only"]:
        want += [(T[i, a], T[i, b]) + wclass(w[i], (COL[2], COL[2], COL[6])) for i in range(n)]
        lab += [(nm[i], T[i, a], T[i, b]) for i in range(len(nm))]
    if Xn is not None:
        Tn = arr(m.transform(Xn.copy()), "transform")
        want += [(Tn[i, a], Tn[i, b]) + wclass(wv[i], (COL[5], COL[5], COL[7])) for i in range(len(Xn))]
        lab += [(nmv[i], Tn[i, a], Tn[i, b]) for i in range(len(nmv))]
    match(ax, want, "plot_projections")
    labels(ax, lab, "plot_projections")
    done()
    return {"nontrivial": bool(np.any(w < 1)) or bool(lab) or Xn is not None, "tags": ["only%d" % c["only"], "new%d" % (Xn is not None), str(c["comp"])]}


def bars(ax):
    out = []
    for r in ax.patches:
        h = r.get_height()
        if np.isfinite(h):
            out.append((r.get_x() + r.get_width() / 2, h, tuple(np.round(r.get_facecolor(), 6))))
    return sorted(out)


@CLAUSES.clause("sprm_caseweights", gen.D(SP), "labels or new cases", 60)
def sprm_caseweights(c):
    X, y, m, Xn, yn = sprm_model(c)
    w, wv = usable_weights(m, Xn)
    w = {"overall": w, "x": vec(att(m, "x_caseweights_"), "x_caseweights_"), "y": vec(att(m, "y_caseweights_"), "y_caseweights_")}[c["mode"]]
    n = len(y)
    pl = sprm_plot(m, COL, MARK)
    nk, nm, nmv = mknames(c, n, 0 if Xn is None else len(Xn))
    ax = figure(lambda: pl.plot_caseweights(onlyval=c["only"], mode=c["mode"], **newkw(c, Xn), **nk))
    vals, cols, lab = [], [], []
    if not c["only"]:
        vals += list(w)
        cols += [COL[2]] * n
    off = len(vals)
    if Xn is not None:
        vals += list(wv)
        cols += [COL[5]] * len(wv)
    got = bars(ax)
    require(len(got) == len(vals), "%d bars for %d weights", len(got), len(vals))
    close(np.array([g[0] for g in got]), np.arange(1, len(vals) + 1.0), "bar positions", 1e-9)
    close(np.array([g[1] for g in got]), np.array(vals), "bar heights", 1e-9)
    for g, k in zip(got, cols):
        require(g[2] == tuple(np.round(to_rgba(k), 6)), "bar at %g has colour %s, expected %s", g[0], g[2], k)
    if not c["only"]:
        lab += [(nm[i], i + 1, w[i]) for i in range(len(nm))]
    lab += [(nmv[i], off + i + 1, wv[i]) for i in range(len(nmv))]
    labels(ax, lab, "plot_caseweights")
    done()
    return {"nontrivial": bool(lab) or Xn is not None, "tags": [c["mode"], "only%d" % c["only"]]}


@CLAUSES.clause("sprm_coeffs", gen.D(dict(SP, trunc=st.sampled_from([0, 0, 0.3, 0.6, 0.9]), cols=st.sampled_from(["none", "array", "list", "index"]), d=gen.regs(n=(15, 25), p=(3, 12), mags=(0,)))), "truncation or names", 80)
def sprm_coeffs(c):
    X, y, m, Xn, yn = sprm_model(c)
    p = X.shape[1]
    keep = np.asarray(m.non_zero_scale_vars_).ravel()
    b = vec(m.coef_, "coef_", len(keep))
    names = np.array(["x%s" % "mqazkwbtcrdjeg"[j] for j in range(p)])
    kw = {}
    if c["cols"] != "none":
        kw["columns"] = {"array": names, "list": list(names), "index": pd.Index(names)}[c["cols"]]
    if c["trunc"]:
        kw["truncation"] = c["trunc"]
    pl = sprm_plot(m, COL, MARK)
    ax = figure(lambda: pl.plot_coeffs(title="t", **kw))
    got = bars(ax)
    ticks = {}
    ax.figure.canvas.draw()
    for t, l in zip(ax.get_xticks(), ax.get_xticklabels()):
        if l.get_text():
            ticks[round(float(t), 6)] = l.get_text()
    q = len(b)
    want_name = (lambda j: names[keep[j]]) if c["cols"] != "none" else (lambda j: str(j))
    if not c["trunc"]:
        require(len(got) == q, "%d bars for %d coefficients", len(got), q)
        close(np.array([g[1] for g in got]), b if c["cols"] == "none" else np.array([g[1] for g in got]), "bar heights", 1e-9)
        if c["cols"] != "none":
            close(np.sort([g[1] for g in got]), np.sort(b), "bar heights", 1e-9)
    else:
        k = int(np.ceil(q * c["trunc"] / 2))
        o = np.sort(b)
        w = o if 2 * k >= q else np.concatenate([o[:k], o[q - k:]])
        require(len(got) == len(w), "%d bars for the %d smallest and largest coefficients", len(got), len(w))
        close(np.sort([g[1] for g in got]), w, "bar heights", 1e-9)
    if c["trunc"] or c["cols"] != "none":
        inv = {want_name(j): b[j] for j in range(q)}
        if len(set(np.round(b, 12))) == q or c["cols"] != "none":
            for x, h, _ in got:
                nm = ticks.get(round(x, 6))
                require(nm is not None, "bar at %g has no label (labels %s)", x, ticks)
                require(nm in inv, "label %r is no variable", nm)
                require(abs(inv[nm] - h) <= 1e-9 * max(1, abs(h)), "bar of variable %s has height %.8g, its coefficient is %.8g", nm, h, inv[nm])
            require(len({ticks.get(round(g[0], 6)) for g in got}) == len(got), "variables are drawn twice: %s", ticks)
    done()
    return {"nontrivial": bool(c["trunc"]) or c["cols"] != "none", "tags": [c["cols"], "t%s" % c["trunc"]]}


PQ = {"d": gen.regs(n=(12, 22), p=(3, 4), mags=(0,)), "kind": st.sampled_from(["ppdire", "sudire"]), "new": st.sampled_from([0, 1, 5]), "only": st.booleans(), "names": st.booleans(),
      "namesv": st.booleans(), "y2": st.booleans(), "frame": st.booleans(), "comp": st.sampled_from([[0, 1], [1, 0]]), "plot": st.sampled_from(["yyp", "proj"]), "copy": st.sampled_from([True, True, False]), "one": st.booleans()}


@CLAUSES.clause("reduction_plots", gen.D(PQ), "new cases or labels", 120)
def reduction_plots(c):
    X, y = gen.reg(c["d"])
    n, p = X.shape
    rng = np.random.default_rng([c["d"]["seed"], 6])
    skip(np.linalg.cond(np.cov(X, rowvar=False)) > 1e4)
    one = c["one"] and c["kind"] == "ppdire" and c["plot"] == "proj"
    if c["kind"] == "ppdire":
        m = ppdire(projection_index=dicomo, pi_arguments={"mode": "var" if one else "cov"}, n_components=2, verbose=False, copy=c["copy"])
    else:
        m = sudire("sir", n_components=2, n_slices=4, verbose=False, copy=c["copy"])
    ya = y.reshape(-1, 1).copy() if c["y2"] else y.copy()
    m.fit(X.copy(), *(() if one else (ya,)))
    new = max(1, c["new"]) if c["only"] else c["new"]
    Xn = X.mean(0) + rng.standard_normal((new, p)) * X.std(0) if new else None
    yn = rng.standard_normal(new) + y.mean() if new else None
    pl = (ppdire_plot if c["kind"] == "ppdire" else sudire_plot)(m, COL, MARK)
    nk, nm, nmv = mknames(c, n, new)
    if c["plot"] == "yyp":
        ax = figure(lambda: pl.plot_yyp(onlyval=c["only"], label="resp", title="t", **newkw(c, Xn, yn), **nk))
        A = np.column_stack([y, vec(m.predict(X.copy()), "predict", n)])
        B = None if Xn is None else np.column_stack([yn, vec(m.predict(Xn.copy()), "predict", new)])
    else:
        a, b = c["comp"]
        ax = figure(lambda: pl.plot_projections(onlyval=c["only"], label="resp", components=list(c["comp"]), **newkw(c, Xn), **nk))
        A = arr(m.x_scores_, "x_scores_", (n, 2))[:, [a, b]]
        B = None if Xn is None else arr(m.transform(Xn.copy()), "transform", (new, 2))[:, [a, b]]
    want, lab = [], []
    if not c["only"]:
        want += [(A[i, 0], A[i, 1], COL[2], MARK[0]) for i in range(n)]
        lab += [(nm[i], A[i, 0], A[i, 1]) for i in range(len(nm))]
    if B is not None:
        want += [(B[i, 0], B[i, 1], COL[5], MARK[0]) for i in range(new)]
        lab += [(nmv[i], B[i, 0], B[i, 1]) for i in range(len(nmv))]
    match(ax, want, "plot_" + c["plot"])
    if c["plot"] == "yyp":
        diagonal(ax, "plot_yyp")
    labels(ax, lab, "plot_" + c["plot"])
    done()
    return {"nontrivial": bool(lab) or B is not None, "tags": [c["kind"], c["plot"], "only%d" % c["only"]]}


CT = {"ne": gen.ints(2, 5), "nk": gen.ints(2, 4), "seed": gen.seeds(), "nan": st.sampled_from([0, 0, 1]), "order": st.booleans(), "scale": st.sampled_from([1e-3, 1.0, 50.0])}


@CLAUSES.clause("cv_contour", gen.D(CT), "some setting without a score, or more than four settings", 60)
def cv_contour(c):
    """Contours of the cross-validation scores, over sparsity and number of components."""
    rng = np.random.default_rng(c["seed"])
    etas = np.round(np.sort(rng.choice(np.arange(1, 20), c["ne"], replace=False)) * 0.05, 2)
    ks = np.sort(rng.choice(np.arange(1, 9), c["nk"], replace=False))
    par = [{"eta": float(e), "n_components": int(k)} for e in etas for k in ks]
    if c["order"]:
        par = [par[i] for i in rng.permutation(len(par))]
    score = -rng.random(len(par)) * c["scale"]
    if c["nan"] and len(par) > 5:
        score[rng.integers(len(par))] = np.nan

    class Res:  # as left by sklearn's GridSearchCV
        cv_results_ = {"params": par, "mean_test_score": score}
    x, y = np.array([q["eta"] for q in par]), np.array([q["n_components"] for q in par], float)
    ok = np.isfinite(score)
    pl = sprm_plot_cv(Res(), COL)
    ax = figure(lambda: pl.eta_ncomp_contour(title="t"))
    tri = LinearTriInterpolator(Triangulation(x[ok], y[ok]), score[ok])
    sets = [q for q in ax.collections if hasattr(q, "levels")]
    require(len(sets) == 1, "%d contour sets drawn", len(sets))
    seen = 0
    for lev, path in zip(sets[0].levels, sets[0].get_paths()):
        v = path.vertices
        if len(v) == 0:
            continue
        z = np.asarray(tri(v[:, 0], v[:, 1]).filled(np.nan), float)
        z = z[np.isfinite(z)]  # vertices on the border may fall outside by rounding
        seen += len(z)
        require(np.all(np.abs(z - lev) <= 1e-6 * np.ptp(score[ok])), "contour of level %g passes through scores %s", lev, z[:4])
    require(seen, "no contour was drawn")
    done()
    return {"nontrivial": bool((~ok).any()) or len(par) > 4}
