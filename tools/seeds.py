"""Planted bugs: id, property, edits (file, old, new), demo program."""
SEEDS = []
# These touch only lines that my own fixes rewrote: still used to try the
# checks ("mkseed.py ID"), but not kept under seeded/.
OWN_LINES = {"cos-median", "inverse-zero", "mdd-metric", "nan-names", "rm-mean-start", "scale-kept", "start-order",
             "zero-scale-global"}


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("lts-half", "C01",
     [("preprocessing/_preproc_utilities.py", "int(np.floor((n + 1) / 2)) - 1]", "int(np.floor(n / 2)) - 1]")],
     "an odd number of rows, several columns, k-step LTS location",
     "the concentration subset has one row too few for odd n, so the k-step LTS location is not the mean of the nearest half",
     '''
import numpy as np
from direpack import VersatileScaler
X = np.array([[0., 0.], [1., 0.], [0., 1.2], [5., 5.5], [-4., 6.]])
vs = VersatileScaler(center="kstepLTS", scale="None"); vs.fit(X)
want = X[:3].mean(0)
assert np.allclose(vs.center_, want, atol=1e-6), (vs.center_, want)
''')

seed("mad-center", "C02",
     [("preprocessing/_preproc_utilities.py", "    if trimming == 0:\n        if np.isnan(X).any():\n            s = np.power(np.nanvar(X, axis=0), 0.5)",
       "    if trimming == 0:\n        if np.isnan(X).any():\n            s = np.power(np.nanvar(X), 0.5) * np.ones(X.shape[1])")],
     "missing cells in a matrix with columns of different spread, standard deviation scaling",
     "with missing cells one pooled standard deviation is used for all columns",
     '''
import numpy as np
from direpack import VersatileScaler
X = np.array([[0., 10.], [1., 30.], [2., np.nan], [3., 80.]])
vs = VersatileScaler(center="mean", scale="std"); vs.fit(X)
want = np.nanstd(X, axis=0)
assert np.allclose(vs.scale_, want), (vs.scale_, want)
''')

seed("gss-shell", "C05",
     [("preprocessing/_gsspp_utils.py", "    idxlow = np.where(dd < cutoff1)[0] \n", "    idxlow = np.where(dd < cutoff1/2)[0] \n")],
     "shell radial function and a case whose norm lies just below the inner cut-off",
     "cases inside the shell's inner cut-off keep weight one",
     '''
import numpy as np
from direpack import gen_ss_pp
d = np.array([0.8, 1.0, 4.0, 4.1, 4.2, 4.3, 4.4, 4.5, 4.6, 9.0])
X = np.column_stack([d, 0 * d])
G = gen_ss_pp(X, center="None", fun="shell")
wh = d ** (2 / 3); n, p = X.shape; h = (n + p + 1) // 2 - 1
m = np.sort(wh)[h]; s = np.sort(abs(wh - m))[h]
keep = (d >= max(0, m - s) ** 1.5 - 1e-9) & (d <= (m + s) ** 1.5 + 1e-9)
lo = max(0, m - s) ** 1.5
X[0, 0] = 0.75 * lo
G = gen_ss_pp(X, center="None", fun="shell")
d = X[:, 0]; wh = d ** (2 / 3); m = np.sort(wh)[h]; s = np.sort(abs(wh - m))[h]
lo = max(0, m - s) ** 1.5
assert d[0] < 0.95 * lo, (d[0], lo)
assert G[0, 0] == 0, G
''')

PU = "preprocessing/_preproc_utilities.py"

seed("lts-tol", "C01",
     [(PU, "unconverged = max(abs(m1 - m2)) > tol", "unconverged = min(abs(m1 - m2)) > tol")],
     "k-step LTS on data in which one coordinate settles before the others (e.g. a constant column)",
     "the concentration steps stop as soon as any coordinate has settled",
     '''
import numpy as np
from direpack import VersatileScaler
rng = np.random.default_rng(3)
bad = 0
for t in range(20):
    X = np.column_stack([np.full(31, 2.0), rng.standard_t(1.5, 31), rng.standard_t(1.5, 31)])
    vs = VersatileScaler(center="kstepLTS", scale="None").fit(X)
    vs2 = VersatileScaler(center="kstepLTS", scale="None").fit(X[:, 1:])
    bad += not np.allclose(np.ravel(vs.center_)[1:], np.ravel(vs2.center_), atol=1e-4 * np.abs(X).max())
assert bad <= 2, bad
''')

seed("tau-trunc", "C02",
     [(PU, "rho[np.where(rho > c2**2)[0]] = c2**2", "rho[np.where(rho > 2 * c2**2)[0]] = c2**2")],
     "tau scale of a single variable with cases between 3 and 4.24 initial scales",
     "cases just beyond the truncation point are not truncated",
     '''
import numpy as np
from direpack import VersatileScaler
x = np.array([-2., -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2])
a = np.append(x, [3.4 * 1.0]); b = np.append(x, [3.9 * 1.0])
# both far cases are beyond 3 initial scales (median |x - med| = 1) and are truncated alike, but for the small shift of the centre
def tau(v): return float(np.ravel(VersatileScaler(center="None", scale="scaleTau2").fit(v.reshape(-1, 1)).scale_)[0])
ra, rb = tau(a), tau(b)
def ref(v):
    from scipy.stats import norm
    m = np.median(v); s0 = np.median(abs(v - m)); u = (v - m) / (4.5 * s0)
    w = np.where(abs(u) <= 1, (1 - u**2)**2, 0); mu = (w * v).sum() / w.sum()
    bb = 3 * norm.ppf(0.75); E = 2 * ((1 - bb**2) * norm.cdf(bb) - bb * norm.pdf(bb) + bb**2) - 1
    return s0 * np.sqrt(np.minimum(((v - mu) / s0)**2, 9).sum() / (len(v) * E))
for v in [a, b] + [np.append(x, [f]) for f in np.arange(3, 9, 0.25)]:
    assert abs(tau(v) - ref(v)) < 1e-8, (tau(v), ref(v))
''')

seed("small-scale", "C03",
     [(PU, "        scale[scale == 0.0] = 1.0\n", "        scale[scale < 1e-3] = 1.0\n")],
     "a column in small units (scale below 1e-3)",
     "columns with a small but non-zero scale are not scaled",
     '''
import numpy as np
from direpack import VersatileScaler
X = np.array([[1., 2e-4], [2., 5e-4], [4., 1e-4], [3., 9e-4]])
Z = VersatileScaler(center="mean", scale="std").fit_transform(X)
assert np.allclose(Z, (X - X.mean(0)) / X.std(0)), Z
''')

seed("wrap-negative", "C04",
     [(PU, "indHigh = np.where(np.abs(xi) >= c)[0]", "indHigh = np.where(xi >= c)[0]")],
     "a cell far below the median",
     "cells more than four scales below the median are not wrapped",
     '''
import numpy as np
from direpack import Wrapper
X = np.array([[-1.], [-.5], [0.], [.5], [1.], [-50.], [40.]])
w = Wrapper().fit(X); Z = w.transform(X)
assert abs(Z[5, 0]) < 1 and abs(Z[6, 0]) < 1, Z.ravel()
''')

seed("sign-precision", "C05",
     [("preprocessing/_gsspp_utils.py", "prec=1e-10", "prec=1e-2")],
     "a row whose centred norm is small (below 0.01) with the spatial sign function",
     "rows close to the centre are not brought to unit length",
     '''
import numpy as np
from direpack import gen_ss_pp
X = np.array([[1e-3, 2e-3], [3., 4.], [-1., 2.], [-5e-3, 1e-3]])
G = gen_ss_pp(X, center="None", fun="ss")
assert np.allclose(np.linalg.norm(G, axis=1), 1), G
''')

seed("moment-trim-count", "C06",
     [("dicomo/_dicomo_utils.py", "                ntrim = round(n * (1-trimming)) \n", "                ntrim = int(n * (1-trimming)) \n")],
     "bias correction with a trimming fraction that does not divide the sample",
     "the small sample factor counts one case too few",
     '''
import numpy as np
from direpack import dicomo
rng = np.random.default_rng(1)
x = rng.standard_normal(17)
a = dicomo(mode="var").fit(x, trimming=0.2, biascorr=True)
b = dicomo(mode="var").fit(x, trimming=0.2, biascorr=False)
k = round(17 * 0.8)
assert np.allclose(a, b * k / (k - 1)), (a, b)
''')

seed("cokurt-powers", "C06",
     [("dicomo/dicomo.py", "            como /= np.power(x2sd,iter_stop_1)\n            como /= np.power(y2sd,iter_stop_2)",
       "            como /= np.power(x2sd,iter_stop_2)\n            como /= np.power(y2sd,iter_stop_1)")],
     "standardised co-moment with unequal orders of two samples of different spread",
     "the standardisation uses the other sample's order",
     '''
import numpy as np
from direpack import dicomo
rng = np.random.default_rng(1)
x, y = rng.standard_normal(30), 5 * rng.gamma(2, 1, 30)
a = dicomo(mode="cos").fit(x, y=y, option=1, biascorr=False)
xc, yc = x - x.mean(), y - y.mean()
w = np.mean(xc**2 * yc) / (x.std()**2 * y.std())
assert np.allclose(a, w), (a, w)
''')

seed("ucentre-grand", "C07",
     [("dicomo/_dicomo_utils.py", "mu *= (n1**2) / ((n1-1) * (n1-2))", "mu *= (n1**2) / ((n1-1) * (n1-1))")],
     "bias corrected distance statistic in the direct computation",
     "the grand mean of the U-centred distances is wrong",
     '''
import numpy as np, dcor
from direpack import dicomo
rng = np.random.default_rng(1)
x = rng.standard_normal((15, 1)); y = x**2 + 0.1 * rng.standard_normal((15, 1))
a = dicomo(est="distance", mode="com").fit(x, y=y, biascorr=True, calcmode="slow")
w = np.sqrt(dcor.u_distance_covariance_sqr(x, y))
assert np.allclose(a, w), (a, w)
''')

seed("winsor-cut", "C08",
     [("preprocessing/_gsspp_utils.py", "    d_hmed  = np.sort(dd,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]", "    d_hmed  = np.sort(dd,axis=0)[int(np.floor(3 * (n + p + 1) / 4))-1][0]")],
     "winsor radial function with more than a quarter of the rows contaminated",
     "the winsorising radius is taken from the contaminated rows",
     '''
import numpy as np
from direpack import gen_ss_pp
rng = np.random.default_rng(2)
X = rng.standard_normal((30, 2)); X[:11] *= 1e6
G = gen_ss_pp(X, center="None", fun="winsor")
assert np.linalg.norm(G, axis=1).max() < 20, np.linalg.norm(G, axis=1).max()
''')

seed("new-weights-cutoff", "C09",
     [("sprm/sprm.py", "wtn = Fair(wtn, self.probctx_)", "wtn = Fair(wtn, self.probcty_)")],
     "Fair weights of new cases",
     "new cases are weighted with the cut-offs of the residuals instead of those of the scores",
     '''
import numpy as np
from scipy.stats import chi2
from direpack import sprm, VersatileScaler
rng = np.random.default_rng(0)
X = rng.standard_normal((40, 4)); y = X @ [1., 2, 0, -1] + 0.1 * rng.standard_normal(40)
m = sprm(n_components=2, eta=0.0, fun="Fair", probp1=0.6, probp2=0.8, probp3=0.99, centre="median", scale="mad", verbose=False).fit(X, y)
Xn = rng.standard_normal((25, 4)) * 2
T = m.transform(Xn)
D = (T - np.median(T, 0)) / (np.median(abs(T - np.median(T, 0)), 0) / 0.6744897501960817)
d = np.linalg.norm(D, axis=1); d = d / np.median(d)
assert not np.isclose(m.probctx_, m.probcty_)
w = 1 / (1 + d / (2 * m.probctx_))**2
assert np.allclose(np.ravel(m.weightnewx(Xn)), w), (m.weightnewx(Xn), w)
''')

seed("rm-intercept", "C10",
     [("sprm/rm.py", '        if self.centre == "mean":\n            intercept = np.mean(y - yp_rescaled)', '        if self.scale == "std":\n            intercept = np.mean(y - yp_rescaled)')],
     "robust M regression with median centring and standard deviation scaling, skewed residuals",
     "the intercept is the mean instead of the median of what the slope leaves over",
     '''
import numpy as np
from direpack import rm
rng = np.random.default_rng(0)
X = rng.standard_normal((30, 2)); y = X @ [1., 2] + rng.exponential(1, 30)
m = rm(centre="median", scale="std", verbose=False).fit(X, y)
w = np.median(y - X @ np.ravel(m.coef_))
assert np.allclose(m.intercept_, w), (m.intercept_, w)
''')

seed("pls-no-centre", "C11",
     [("sprm/snipls.py", '        elif self.centre == "None":\n            intercept = 0\n', '        elif self.centre == "None":\n            intercept = np.nanmean(y - yp_rescaled)\n')],
     "sparse NIPALS without centring on data with a mean",
     "a model without centring gets an intercept",
     '''
import numpy as np
from direpack import snipls
rng = np.random.default_rng(0)
X = rng.standard_normal((30, 2)) + 3; y = X @ [1., 2] + 5
m = snipls(eta=0.0, n_components=2, centre="None", scale="None", verbose=False).fit(X, y)
b = np.linalg.lstsq(X, y, rcond=None)[0]
assert np.allclose(m.predict(X).ravel(), X @ b), m.intercept_
''')

seed("pls-y-variance", "C11",
     [("sprm/snipls.py", "                np.nansum(np.power(y0, 2)) * 100", "                np.nansum(np.power(y0 - ch * th if i > 2 else y0, 2)) * 100")],
     "explained response variance of the third and later components",
     "from the third component on, the explained response variance is relative to what is left",
     '''
import numpy as np
from direpack import snipls
rng = np.random.default_rng(0)
X = rng.standard_normal((30, 4)); y = X @ [1., 2, -1, 3] + rng.standard_normal(30)
m = snipls(eta=0.0, n_components=4, verbose=False).fit(X, y)
r2 = 1 - np.var(y - m.predict(X).ravel()) / np.var(y)
assert np.allclose(np.sum(m.y_ev_), 100 * r2), (np.sum(m.y_ev_), 100 * r2)
''')

seed("missing-detect", "C13",
     [("sprm/snipls.py", "if np.isnan(X0).any() or np.isnan(y0).any():", "if np.isnan(X0).any(axis=1).sum() > 1 or np.isnan(y0).any():")],
     "missing cells in a single row only",
     "a single incomplete row is not noticed, so the model is nan",
     '''
import numpy as np
from direpack import snipls
rng = np.random.default_rng(0)
X = rng.standard_normal((20, 3)); y = X @ [1., 2, -1]; X[4, 1] = np.nan
try:
    m = snipls(eta=0.0, n_components=2, verbose=False).fit(X, y)
except Exception as e:
    raise AssertionError(e)
assert np.all(np.isfinite(m.coef_)) and np.abs(m.coef_).max() > 0.1, m.coef_
''')

seed("zero-scale-predict", "C14",
     [("sprm/sprm.py", "        Xn = Xn[:, self.non_zero_scale_vars_]\n        return np.matmul(Xn, self.coef_) + self.intercept_", "        Xn = Xn[:, : len(self.non_zero_scale_vars_)]\n        return np.matmul(Xn, self.coef_) + self.intercept_")],
     "a zero-scale variable that is not the last column",
     "predictions use the first columns instead of those with non-zero scale",
     '''
import numpy as np
from direpack import sprm
rng = np.random.default_rng(0)
X = rng.standard_normal((30, 4)); X[:, 1] = 2.0; y = X @ [1., 0, 2, -1] + 0.1 * rng.standard_normal(30)
m = sprm(n_components=2, eta=0.0, verbose=False).fit(X, y)
assert np.allclose(np.ravel(m.predict(X)), np.ravel(m.fitted_))
''')

seed("rm-small-units", "C16",
     [("sprm/rm.py", "b_rescaled = np.multiply(np.reshape(sy / sX, (p, 1)), b)", "b_rescaled = np.multiply(np.reshape(sy / np.maximum(sX, 1e-3), (p, 1)), b)")],
     "a predictor in small units (scale below 1e-3)",
     "coefficients of predictors in small units do not follow the change of units",
     '''
import numpy as np
from direpack import rm
rng = np.random.default_rng(0)
X = rng.standard_normal((40, 3)); y = X @ [1., 2, -1] + 0.1 * rng.standard_normal(40)
a = rm(verbose=False).fit(X, y); Z = X * [1, 1e-5, 1]
b = rm(verbose=False).fit(Z, y)
assert np.allclose(np.ravel(a.predict(X)), np.ravel(b.predict(Z)), atol=1e-6)
''')

seed("pp-transform", "C17",
     [("ppdire/ppdire.py", "return(np.dot(Xnc, self.x_rotations_))", "return(np.dot(Xnc, self.x_weights_))")],
     "scores of new data for two or more components",
     "new data are projected on the weights instead of the rotations",
     '''
import numpy as np
from direpack import ppdire, dicomo
rng = np.random.default_rng(0)
X = rng.standard_normal((40, 4)) @ rng.standard_normal((4, 4)); y = X @ [1., 2, -1, 0] + 0.1 * rng.standard_normal(40)
m = ppdire(projection_index=dicomo, pi_arguments={"mode": "cov"}, n_components=3, optimizer="SLSQP", optimizer_options={"maxiter": 500}); m.fit(X, y=y)
assert np.allclose(m.transform(X), m.x_scores_, atol=1e-6)
''')

seed("grid-quarter", "C18",
     [("ppdire/_ppdire_utils.py", "nangle = np.linspace(anglestart,anglestop,pi_arguments['ndir'],endpoint=False)", "nangle = np.linspace(anglestart,anglestop/2 if anglestop > 3 else anglestop,pi_arguments['ndir'],endpoint=False)")],
     "grid search for two variables whose best direction has coefficients of opposite sign",
     "only a quarter of the plane is searched",
     '''
import numpy as np
from direpack import ppdire, dicomo
rng = np.random.default_rng(0)
t = rng.standard_normal(60)
X = np.column_stack([t, -t]) + 0.3 * rng.standard_normal((60, 2))
m = ppdire(projection_index=dicomo, pi_arguments={"mode": "var"}, n_components=1, optimizer="grid", optimizer_options={"ndir": 500, "maxiter": 50}, scale_data=False); m.fit(X)
v = np.var(np.ravel(m.x_scores_)); w = np.linalg.eigvalsh(np.cov(X.T, bias=True))[-1]
assert v > 0.99 * w, (v, w)
''')

seed("capi-swap", "C19",
     [("ppdire/capi.py", 'fit_arguments["option"] = j\n', 'fit_arguments["option"] = i - j\n')],
     "co-moment analysis with different weights for the two co-skewness (or outer co-kurtosis) terms",
     "the co-moments are weighted in the wrong order",
     '''
import numpy as np
from direpack import capi
rng = np.random.default_rng(0)
x = rng.gamma(2, 1, (40, 1)); y = rng.standard_normal((40, 1)) + x
a = capi(max_degree=3, weights=[0, 1, 0, 0, 0, 0], scaling=True).fit(x, y=y, biascorr=False)
xc, yc = x - x.mean(), y - y.mean()
w = np.mean(xc**2 * yc) / (x.std()**2 * y.std())
assert np.allclose(a, w), (a, w)
''')

seed("slice-size", "C20",
     [("sudire/_sudire_utils.py", "m = np.floor(n / h)", "m = np.round(n / h)")],
     "a sample size that is not a multiple of the number of slices",
     "slices have the wrong size and the last one is short",
     '''
import numpy as np
from direpack.sudire._sudire_utils import discretize
y = np.arange(23.) 
d = discretize(y, 6)
assert np.bincount(d)[1:].tolist() == [3, 3, 3, 3, 3, 8], np.bincount(d)
''')

seed("phd-centre", "C20",
     [("sudire/_sudire_utils.py", "yc = y - np.mean(y, axis=0)", "yc = y - np.median(y, axis=0)")],
     "principal Hessian directions with a skewed response",
     "the response is centred at its median, so the Hessian is shifted by the covariance",
     '''
import numpy as np
from direpack import sudire
rng = np.random.default_rng(0)
X = rng.standard_normal((60, 3)); y = np.exp(X[:, 0]) + X[:, 1]**2
m = sudire("phd", n_components=1, center_data=False, scale_data=False); m.fit(X, y)
K = (X * (y - y.mean())[:, None]).T @ X / 60
w = np.linalg.eigh(K)[1][:, -1]
b = np.ravel(m.x_loadings_); b = b / np.linalg.norm(b)
assert abs(b @ w) > 1 - 1e-8, (b, w)
''')

seed("phd-projection", "C21",
     [("sudire/sudire.py", '''            P = PHD(Xs, ys, self.n_components, center_data, scale_data)
            if scale_data:
                P = np.matmul(N2, P)
            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
''', '''            P = PHD(Xs, ys, self.n_components, center_data, scale_data)
            if scale_data:
                P = np.matmul(N2, P)
            projMat = np.matmul(P, P.T)
''')],
     "principal Hessian directions on scaled predictors",
     "the reported projection matrix is not a projection",
     '''
import numpy as np
from direpack import sudire
rng = np.random.default_rng(0)
X = 3 * rng.standard_normal((60, 3)); y = X[:, 0]**2 + X[:, 1]
m = sudire("phd", n_components=2); m.fit(X, y)
assert np.allclose(m.proj_mat_ @ m.proj_mat_, m.proj_mat_), m.proj_mat_
''')

seed("sudire-median-loc", "C21",
     [("sudire/sudire.py", "        return np.matmul(Xn, self.x_loadings_)\n", "        return np.matmul(Xn - (np.mean(Xn, axis=0) if self.center != 'mean' and len(Xn) > 1 else 0), self.x_loadings_)\n")],
     "scores of new data for a model with median centring",
     "new data are centred at their own mean before projecting, so scores are not those of the reduction",
     '''
import numpy as np
from direpack import sudire
rng = np.random.default_rng(0)
X = rng.standard_normal((60, 3)) + 5; y = X[:, 0] + X[:, 1]**2
m = sudire("sir", n_components=1, center="median"); m.fit(X, y)
assert np.allclose(m.transform(X), m.x_scores_)
''')

seed("start-choice", "C22",
     [("sudire/sudire.py", "if dc_save >= dc_sir and dc_save >= dc_DR:", "if dc_save >= dc_sir or dc_save >= dc_DR:")],
     "optimisation based reduction when the second best inverse regression beats only one competitor",
     "the optimisation does not start at the best inverse regression solution",
     '''
import sys, types
import numpy as np
class Problem:
    last = None
    def __init__(self, n, m, problem_obj=None, **kw):
        self.m, self.obj = m, problem_obj; Problem.last = self
    def add_option(self, k, v): pass
    def solve(self, x0):
        self.x0 = np.array(x0)
        return self.x0.copy(), {"status": 0, "status_msg": b"", "obj_val": 0.0, "x": self.x0.copy()}
mod = types.ModuleType("cyipopt"); mod.Problem = Problem; sys.modules["cyipopt"] = mod
from direpack import sudire
from scipy.spatial.distance import cdist

def cen(D): return D - D.mean(0) - D.mean(1)[:, None] + D.mean()
def dcov(T, y): return np.mean(cen(cdist(T, T)) * cen(cdist(y[:, None], y[:, None])))
rng = np.random.default_rng(4)
for k in range(40):
    X = rng.standard_normal((60, 3))
    y = X[:, 0] ** (1 + k % 2) + 0.3 * X[:, 1] + 0.1 * rng.standard_normal(60)
    start = dcov(X @ sudire("dcov-sdr", n_components=1).fit(X, y).x_loadings_, y)
    for meth, ns in (("sir", 6), ("save", 3), ("dr", 6)):
        other = dcov(X @ sudire(meth, n_components=1, n_slices=ns).fit(X, y).x_loadings_, y)
        assert start >= other * (1 - 1e-6), (k, meth, start, other)
''')

seed("constraint-diagonal", "C22",
     [("sudire/sudire.py", "                    for j in range(0, self.n_components):\n", "                    for j in range(i, i + 1):\n")],
     "two or more directions in an optimisation based reduction",
     "the directions are no longer required to be orthogonal",
     '''
import sys, types
import numpy as np
class Problem:
    last = None
    def __init__(self, n, m, problem_obj=None, **kw):
        self.m, self.obj = m, problem_obj; Problem.last = self
    def add_option(self, k, v): pass
    def solve(self, x0):
        self.x0 = np.array(x0)
        return self.x0.copy(), {"status": 0, "status_msg": b"", "obj_val": 0.0, "x": self.x0.copy()}
mod = types.ModuleType("cyipopt"); mod.Problem = Problem; sys.modules["cyipopt"] = mod
from direpack import sudire
from scipy.spatial.distance import cdist

rng = np.random.default_rng(4)
X = rng.standard_normal((60, 3)); y = X[:, 0] + X[:, 1] ** 2
sudire("dcov-sdr", n_components=2).fit(X, y)
b = np.zeros((3, 2)); b[0, 0] = 1; b[0, 1] = 1   # unit vectors, not orthogonal
assert np.abs(Problem.last.obj.constraints(b.flatten(order="F"))).max() > 0.5
''')

seed("scale-in-place", "C23",
     [(PU, "def _handle_zeros_in_scale(scale, copy=True):", "def _handle_zeros_in_scale(scale, copy=False):")],
     "a constant column, and a transform between fit and the use of the fitted scale",
     "using a scaler rewrites its fitted scale",
     '''
import numpy as np
from direpack import VersatileScaler
X = np.array([[1., 2.], [1., 3.], [1., 5.]])
vs = VersatileScaler(center="mean", scale="std").fit(X); s = np.array(vs.scale_)
vs.transform(X)
assert np.array_equal(vs.scale_, s), (vs.scale_, s)
''')

seed("frame-precision", "C24",
     [("utils/utils.py", "        X = X.to_numpy().astype('float64')\n    return(X)", "        X = X.to_numpy().astype('float32')\n    return(X)")],
     "predictors in a data frame with values that differ in late digits",
     "data frames lose precision",
     '''
import numpy as np, pandas as pd
from direpack import sudire
rng = np.random.default_rng(0)
X = rng.standard_normal((60, 3)) * 1e-3 + 100; y = 1e3 * (X[:, 0] - 100) + rng.standard_normal(60) * 0.1
a = sudire("sir", n_components=1); a.fit(X, y)
b = sudire("sir", n_components=1); b.fit(pd.DataFrame(X), y)
u, v = np.ravel(a.x_loadings_), np.ravel(b.x_loadings_)
c = abs(u @ v) / np.linalg.norm(u) / np.linalg.norm(v)
assert c > 1 - 1e-8, c
''')

seed("series-row", "C24",
     [("utils/utils.py", "    if type(Xn) == ps.core.series.Series:\n        Xn = Xn.to_numpy()\n", "    if type(Xn) == ps.core.series.Series:\n        Xn = Xn.sort_index().to_numpy()\n")],
     "a single new case given as a series whose labels are not in alphabetical order",
     "the values of a single new case are reordered by label",
     '''
import numpy as np, pandas as pd
from direpack import snipls
rng = np.random.default_rng(0)
X = rng.standard_normal((30, 3)); y = X @ [1., 2, -1]
m = snipls(eta=0.0, n_components=2, verbose=False).fit(X, y)
s = pd.Series(X[0], index=["c", "a", "b"])
assert np.allclose(np.ravel(m.predict(s)), np.ravel(m.predict(X[:1])))
''')

seed("hampel-order", "C25",
     [("sprm/sprm.py", "                & (self.probp2 < self.probp3)\n                & (self.probp3 <= 1)", "                & (self.probp3 <= 1)")],
     "Hampel probabilities with the last below the second",
     "cut-offs in the wrong order are accepted",
     '''
import numpy as np
from direpack import sprm
rng = np.random.default_rng(0)
X = rng.standard_normal((30, 3)); y = X @ [1., 2, -1]
try:
    sprm(n_components=1, eta=0.0, fun="Hampel", probp1=0.5, probp2=0.95, probp3=0.8, verbose=False).fit(X, y)
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
''')

seed("score-split", "C26",
     [("cross_validation/_cv_support_functions.py", "res_sprm_cv.cv_results_['mean_test_score']", "res_sprm_cv.cv_results_['split0_test_score']")],
     "a score table of a cross-validation with several splits",
     "the table lists the score of the first split instead of the mean",
     '''
import numpy as np
from direpack import sprm
from direpack.cross_validation._cv_support_functions import cv_score_table
from sklearn.model_selection import GridSearchCV
rng = np.random.default_rng(0)
X = rng.standard_normal((30, 3)); y = X @ [1., 2, -1] + rng.standard_normal(30)
g = GridSearchCV(sprm(verbose=False), cv=3, param_grid={"n_components": [1, 2], "eta": [0.0, 0.5]}).fit(X, y)
t = cv_score_table(g)
assert np.allclose(t["score"], g.cv_results_["mean_test_score"])
''')

seed("weighted-score", "C26",
     [("sprm/sprm.py", "sample_weight=self.caseweights_)", "sample_weight=self.x_caseweights_)")],
     "weighted validation score with outliers in the response",
     "the score ignores the residual weights",
     '''
import numpy as np
from sklearn.metrics import r2_score
from direpack import sprm
rng = np.random.default_rng(0)
X = rng.standard_normal((40, 3)); y = X @ [1., 2, -1] + 0.1 * rng.standard_normal(40); y[:5] += 30
m = sprm(n_components=2, eta=0.0, verbose=False).fit(X, y)
w = r2_score(y, np.ravel(m.predict(X)), sample_weight=m.caseweights_)
assert np.allclose(m.valscore(X, y, "weighted"), w)
''')

seed("plot-components", "C27",
     [("plot/sudire_plot.py", "ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,", "ax1.scatter(Tv[:,0], Tv[:,1],c=self.colors[5],label=label,")],
     "score plot with new cases of other components than the first two",
     "new cases are drawn at the scores of the first two components",
     '''
import numpy as np
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from direpack import sudire
from direpack.plot.sudire_plot import sudire_plot
rng = np.random.default_rng(0)
X = rng.standard_normal((40, 4)); y = X[:, 0] + X[:, 1]**2
m = sudire("sir", n_components=3); m.fit(X, y)
pl = sudire_plot(m, ["w", "w", "b", "k", "k", "g", "r", "r", "k"])
pl.plot_projections(Xn=X[:5], label="new", components=[0, 2], onlyval=True)
o = np.vstack([c.get_offsets() for c in plt.gcf().axes[0].collections])
assert np.allclose(np.asarray(o, float), m.transform(X[:5])[:, [0, 2]])
''')

seed("plot-weight-mode", "C27",
     [("plot/sprm_plot.py", "                wc = self.res_sprm.x_caseweights_\n", "                wc = self.res_sprm.caseweights_\n")],
     "case weight plot of the predictor block",
     "the predictor weights are not the ones drawn",
     '''
import numpy as np
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from direpack import sprm
from direpack.plot.sprm_plot import sprm_plot
rng = np.random.default_rng(0)
X = rng.standard_normal((40, 3)); y = X @ [1., 2, -1] + 0.1 * rng.standard_normal(40); y[:5] += 30
m = sprm(n_components=2, eta=0.0, verbose=False).fit(X, y)
pl = sprm_plot(m, ["w", "w", "b", "k", "k", "g", "r", "r", "k"])
pl.plot_caseweights(label="w", mode="x")
h = np.array([p.get_height() for p in plt.gcf().axes[0].patches])
assert np.allclose(h, m.x_caseweights_)
''')

SN = "sprm/snipls.py"
SP = "sprm/sprm.py"
RM = "sprm/rm.py"
PP = "ppdire/ppdire.py"

seed("selection-union", "C12",
     [(SN, "            oldgoodies = goodies\n", "            oldgoodies = goodies if i < 3 else oldgoodies\n")],
     "four or more components whose own selections differ",
     "from the fourth component on, a variable first selected by the third drops out of the weights",
     '''
import numpy as np
from direpack import snipls
bad = 0
for s in range(40):
    rng = np.random.default_rng(s)
    X = rng.standard_normal((30, 8)); X[:, 3:] *= [1, 2, 3, 4, 5]
    y = X @ rng.standard_normal(8) + rng.standard_normal(30)
    m = snipls(eta=0.8, n_components=4, verbose=False).fit(X, y)
    sel = [set(np.flatnonzero(m.x_weights_[:, k])) for k in range(4)]
    bad += any(not sel[k] <= sel[k + 1] for k in range(3))
assert bad == 0, bad
''')

seed("scale-kept", "C23",
     [(SP, '                scale = "mad"\n', '                scale = self.scale = "mad"\n')],
     "tau scaling and a column whose median absolute deviation is zero",
     "fitting changes the object's scale parameter",
     '''
import numpy as np
from direpack import sprm
rng = np.random.default_rng(0)
X = rng.standard_normal((40, 3)); X[5:, 2] = 0.0
y = X[:, 0] + 0.1 * rng.standard_normal(40)
m = sprm(n_components=1, eta=0.0, scale="scaleTau2", verbose=False)
try:
    m.fit(X, y)
except Exception:
    pass
assert m.get_params()["scale"] == "scaleTau2", m.get_params()["scale"]
''')

seed("rm-absolute-stop", "C16",
     [(RM, "            difference = abs(b2sum - rold) / rold\n", "            difference = abs(b2sum - rold) / max(rold, 1e-4)\n")],
     "raw predictors or response in units that make the coefficients small",
     "robust regression stops early when coefficients are small in the given units",
     '''
import numpy as np
from direpack import rm
rng = np.random.default_rng(1)
X = rng.standard_normal((50, 3)); y = X @ [1., -2, 1] + rng.standard_normal(50)
y[:10] += 8
a = rm(fun="Hampel", centre="median", scale="None", verbose=False); a.fit(X, y)
b = rm(fun="Hampel", centre="median", scale="None", verbose=False); b.fit(1e5 * X, y)
d = np.abs(a.coef_ - 1e5 * b.coef_).max() / np.abs(a.coef_).max()
assert d < 0.02, d
''')

seed("continuum-power", "C06",
     [("dicomo/dicomo.py", "como *= como * (np.sqrt(xmom)**(alpha -1))", "como *= como * (xmom**(alpha -1))")],
     "continuum association with a continuum coefficient other than one",
     "the variance enters continuum association with twice the power",
     '''
import numpy as np
from direpack import dicomo
rng = np.random.default_rng(1)
x = 3 * rng.standard_normal(30); y = x + rng.standard_normal(30)
c = np.mean((x - x.mean()) * (y - y.mean())); v = x.var()
g = dicomo(mode="continuum").fit(x, y=y, alpha=2.0, biascorr=False)
assert np.isclose(float(g), c * c * np.sqrt(v)), (g, c * c * np.sqrt(v))
''')

seed("dcor-bias-mix", "C07",
     [("dicomo/dicomo.py", "ymom = np.sqrt(dc.u_distance_covariance_sqr(y,y))", "ymom = np.sqrt(dc.distance_covariance_sqr(y,y))")],
     "bias-corrected distance correlation in the fast computation",
     "the response's distance variance is not bias-corrected",
     '''
import numpy as np
from direpack import dicomo
rng = np.random.default_rng(1)
x = rng.standard_normal((12, 1)); y = x + rng.standard_normal((12, 1))
a = dicomo(est="distance", mode="corr").fit(x, y=y, biascorr=True, calcmode="fast")
b = dicomo(est="distance", mode="corr").fit(x, y=y, biascorr=True, calcmode="naive")
assert np.isclose(float(a), float(b)), (a, b)
''')

seed("pp-trim-intercept", "C17",
     [(PP, "                intercept = sps.trim_mean(y - np.matmul(X,bi),trimming)", "                intercept = sps.trim_mean(y,trimming) - np.dot(mX,bi)")],
     "trimmed projection pursuit with a response",
     "the intercept is not the trimmed mean of what the slope leaves over",
     '''
import numpy as np
from scipy.stats import trim_mean
from direpack import dicomo, ppdire
rng = np.random.default_rng(1)
X = rng.standard_normal((40, 3)) ** 3; y = X[:, 0] + rng.standard_normal(40) ** 3
m = ppdire(dicomo, {"mode": "cov"}, n_components=1, trimming=0.2, optimizer="grid",
           optimizer_options={"ndir": 40, "maxiter": 40}, verbose=False)
m.fit(X, y=y)
want = trim_mean(y - X @ m.coef_[:, 0], 0.2)
assert np.allclose(m.intercept_, want), (m.intercept_, want)
''')

seed("pp-h-unchecked", "C25",
     [(PP, "        if h > min(n,p):\n", "        if self.n_components > min(n,p):\n")],
     "the number of components given to fit rather than to the constructor",
     "too many components asked for at fit time are not refused",
     '''
import numpy as np
from direpack import dicomo, ppdire
rng = np.random.default_rng(1)
X = rng.standard_normal((20, 3))
m = ppdire(dicomo, {"mode": "var"}, n_components=1, optimizer="grid",
           optimizer_options={"ndir": 20, "maxiter": 20}, verbose=False)
try:
    m.fit(X, h=4)
except Exception:
    pass
else:
    raise SystemExit("accepted")
''')

seed("cok-third", "C19",
     [("ppdire/capi.py", "            l = min(i - 1, len(options))\n", "            l = min(i - 1, len(options), 2)\n")],
     "fourth order index with weight on the last co-kurtosis",
     "the third co-kurtosis is left out of the index",
     '''
import numpy as np
from direpack import capi, dicomo
rng = np.random.default_rng(1)
x = rng.standard_normal((50, 1)); y = x + rng.standard_normal((50, 1))
c = capi(max_degree=4, projection_index=dicomo, scaling=True, weights=[0, 0, 0, 0, 0, 1.0])
v = float(c.fit(x, y=y))
w = float(dicomo(mode="cok").fit(x, y=y, order=4, option=3))
assert np.isclose(v, w), (v, w)
''')

seed("function-trimming", "C03",
     [("preprocessing/robcent.py", "    rc = VersatileScaler(center=center, scale=scale, trimming=trimming)\n", "    rc = VersatileScaler(center=center, scale=scale)\n")],
     "the function form with a trimming fraction",
     "the function form forgets the trimming fraction",
     '''
import numpy as np
from direpack import VersatileScaler
from direpack.preprocessing.robcent import versatile_scale
X = np.random.default_rng(0).standard_normal((30, 3)) ** 3
a = versatile_scale(X, center="mean", scale="std", trimming=0.2)
b = VersatileScaler(center="mean", scale="std", trimming=0.2).fit_transform(X)
assert np.allclose(a, b)
''')

seed("nan-names", "C14",
     [(SP, "                columns = columns[vars_to_keep]\n", "                columns = columns[: len(vars_to_keep)]\n")],
     "column names given and a zero-scale column before the last",
     "after removal of a zero-scale column the retained variables are reported with their neighbours' names",
     '''
import numpy as np, pandas as pd
from direpack import sprm
rng = np.random.default_rng(1)
X = rng.standard_normal((40, 4)); X[:, 1] = 2.0
y = X[:, 3] + 0.1 * rng.standard_normal(40)
d = pd.DataFrame(X, columns=list("abcd"))
m = sprm(n_components=1, eta=0.8, columns=True, verbose=False).fit(d, y)
assert list(m.colret_) == ["d"], m.colret_
''')

seed("nan-matrix", "C13",
     [(SN, "        if np.isnan(X0).any() or np.isnan(y0).any():\n            S = nanmatdot(X0.T, X0)\n", "        if np.isnan(X0).any() or np.isnan(y0).any():\n            S = np.matmul(np.nan_to_num(X0).T, np.nan_to_num(X0))\n            Z = ~np.isnan(X0)\n            S = S * n / np.maximum(Z.T.astype(float) @ Z, 1)\n")],
     "missing cells",
     "the cross-product matrix of data with missing cells is inflated by the number of pairs available, the others are not",
     '''
import numpy as np
from direpack import snipls
rng = np.random.default_rng(1)
X = rng.standard_normal((30, 4)); y = X @ [1., 2, 0, 1] + 0.1 * rng.standard_normal(30)
X[rng.random(X.shape) < 0.2] = np.nan
m = snipls(eta=0.0, n_components=1, centre="mean", scale="std", verbose=False).fit(X, y)
Z = np.nan_to_num((X - np.nanmean(X, 0)) / np.nanstd(X, 0)); u = (y - y.mean()) / y.std()
w = Z.T @ u; b = w * (w @ w) / np.sum((Z @ w) ** 2) * y.std() / np.nanstd(X, 0)
assert np.allclose(m.coef_.ravel(), b), (m.coef_.ravel(), b)
''')

seed("grid-early-stop", "C18",
     [(PP, "(abs(objfold - objf)/abs(objf) > 1e-4)", "(abs(objfold - objf)/abs(objf) > 1e-1)")],
     "more than two variables and a slowly converging search",
     "the plane search stops while the index is still growing",
     '''
import numpy as np
from direpack import dicomo, ppdire
bad = []
for s in range(16):
    rng = np.random.default_rng(s)
    p = 5 + s % 4
    Q = np.linalg.qr(rng.standard_normal((p, p)))[0]
    X = (rng.standard_normal((60, p)) * np.r_[3, 2.6, np.ones(p - 2)]) @ Q
    m = ppdire(dicomo, {"mode": "var"}, n_components=1, optimizer="grid", scale_data=False,
               optimizer_options={"ndir": 200, "maxiter": 200}, verbose=False)
    m.fit(X)
    Z = X - X.mean(0); w = m.x_weights_[:, 0]
    bad.append(np.var(Z @ w) / (np.linalg.eigvalsh(np.cov(Z.T, bias=True))[-1] * (w @ w)))
assert min(bad) > 0.99, bad
''')

seed("ineq-as-eq", "C22",
     [("ipopt_temp/ipopt_wrapper.py", "            cu.extend(INF*np.ones(m))\n", "            cu.extend(np.ones(m))\n")],
     "an inequality constraint handed to the interior point optimiser",
     "an inequality constraint gets an upper bound of one",
     '''
import numpy as np
from direpack.ipopt_temp.ipopt_wrapper import get_constraint_bounds
lo, up = get_constraint_bounds([{"type": "ineq", "fun": lambda x: x}], np.zeros(2))
assert (up >= 1e18).all() and (lo == 0).all(), (lo, up)
''')

seed("leverage-mean", "C15",
     [(RM, "        wx = wx / np.median(wx)\n", "        wx = wx / max(np.median(wx), np.mean(wx) / 1.5)\n")],
     "a third of the cases far out in the predictors",
     "the guard on the median distance lets remote leverage points mask one another",
     '''
import numpy as np
from direpack import rm
rng = np.random.default_rng(1)
X = rng.standard_normal((60, 3)); y = X @ [1., -2, 1] + 0.1 * rng.standard_normal(60)
X[:20] += 1e3 * np.array([1, 1, 1])
m = rm(fun="Hampel", centre="median", scale="mad", verbose=False); m.fit(X, y)
assert m.caseweights_[:20].max() < 1e-3, m.caseweights_[:20]
''')

seed("lts-steps", "C01",
     [(PU, "def kstepLTS(X, maxit=5, tol=1e-10, **kwargs):", "def kstepLTS(X, maxit=3, tol=1e-10, **kwargs):")],
     "data for which the concentration steps need more than three rounds",
     "the k-step LTS location stops before the half-subset has settled",
     '''
import numpy as np
from direpack import VersatileScaler
from direpack.preprocessing._preproc_utilities import l1median
worst = 0
for s in range(200):
    rng = np.random.default_rng(s)
    X = rng.standard_normal((40, 2)); X[:18] += 2.5
    m = l1median(X)
    for k in range(5):
        d = ((X - m) ** 2).sum(1); m = X[d <= np.sort(d)[(41) // 2 - 1]].mean(0)
    v = VersatileScaler(center="kstepLTS", scale="None"); v.fit(X)
    worst = max(worst, np.max(np.abs(v.center_ - m)))
assert worst < 1e-4, worst
''')

seed("inverse-zero", "C03",
     [("preprocessing/robcent.py", "            np.multiply(Xs, _handle_zeros_in_scale(self.scale_)) + self.center_\n", "            np.multiply(Xs, self.scale_) + self.center_\n")],
     "new data that vary in a column that was constant in the training data",
     "the inverse transform loses columns of zero scale",
     '''
import numpy as np
from direpack import VersatileScaler
X = np.column_stack([np.arange(6.), np.full(6, 3.)])
v = VersatileScaler(center="mean", scale="std"); v.fit(X)
N = X + np.array([[0.5, 2.]])
assert np.allclose(v.inverse_transform(v.transform(N)), N)
''')

seed("zero-scale-global", "C16",
     [("sprm/sprm.py", "zero_scale = np.where(sX <= 1e-10 * np.max(np.abs(X), axis=0))[0]", "zero_scale = np.where(sX <= 1e-10 * np.max(np.abs(X)))[0]")],
     "predictors in very different units",
     "a predictor in units ten orders of magnitude smaller than another is dropped",
     '''
import numpy as np
from direpack import sprm
rng = np.random.default_rng(1)
X = rng.standard_normal((30, 3)); y = X @ [1., 2, -1] + 0.1 * rng.standard_normal(30)
m = sprm(n_components=2, eta=0., verbose=False); m.fit(X, y)
f = np.array([1e5, 1e-6, 1.])
k = sprm(n_components=2, eta=0., verbose=False); k.fit(X * f, y)
assert len(k.coef_) == 3 and np.allclose(np.ravel(k.predict(X * f)), np.ravel(m.predict(X)), atol=1e-6)
''')

seed("save-pair-slice", "C20",
     [("sudire/_sudire_utils.py", "        if slice_data.shape[0] > 1:\n            vxy[i, :, :] = np.cov(slice_data, rowvar=0)", "        if slice_data.shape[0] > 2:\n            vxy[i, :, :] = np.cov(slice_data, rowvar=0)")],
     "a slice or class of exactly two cases",
     "slices of two cases do not contribute to the average variance estimate",
     '''
import numpy as np
from direpack.sudire._sudire_utils import SAVE
rng = np.random.default_rng(3)
X = rng.standard_normal((21, 3)); y = np.repeat([0, 1, 2, 3], [2, 6, 6, 7])
X[:2] *= 4
B = SAVE(X, y, 4, 1, ytype="discrete")[:, 0]
S = np.cov(X.T); v, U = np.linalg.eigh(S); R = U @ np.diag(v ** -.5) @ U.T
Z = (X - X.mean(0)) @ R
K = sum((np.mean(y == g)) * (np.cov(Z[y == g].T) - np.eye(3)) @ (np.cov(Z[y == g].T) - np.eye(3)) for g in range(4))
b = R @ np.linalg.eigh(K)[1][:, -1]
assert abs(b @ B) / np.linalg.norm(b) / np.linalg.norm(B) > 0.9999
''')

seed("class-truncation", "C20",
     [("sudire/_sudire_utils.py", "        ydis = discretize(y, n_slices)\n    else:\n        ydis = y\n    ylabel = np.unique(ydis)\n    n_slices = len(ylabel)\n    prob = []\n    exy = []\n\n    for i in range(n_slices):\n        prob.append(len(ydis[ydis == ylabel[i]]) / n)\n        xres", "        ydis = discretize(y, n_slices)\n    else:\n        ydis = y.astype(int)\n    ylabel = np.unique(ydis)\n    n_slices = len(ylabel)\n    prob = []\n    exy = []\n\n    for i in range(n_slices):\n        prob.append(len(ydis[ydis == ylabel[i]]) / n)\n        xres")],
     "a discrete response whose class labels are not whole numbers",
     "classes whose labels share the integer part are merged by sliced inverse regression",
     '''
import numpy as np
from direpack.sudire._sudire_utils import SIR
rng = np.random.default_rng(3)
X = rng.standard_normal((40, 3)); g = np.repeat([0, 1, 2, 3], 10); X[g == 1] += [2, 0, 0]; X[g == 3] += [0, 3, 0]
a = SIR(X, g, 4, 2, ytype="discrete"); b = SIR(X, np.array([0.1, 0.6, 1.1, 1.6])[g], 4, 2, ytype="discrete")
qa, qb = np.linalg.qr(a)[0], np.linalg.qr(b)[0]
assert np.linalg.svd(qa.T @ qb)[1].min() > 0.9999
''')

seed("eta-rounded", "C26",
     [("cross_validation/_cv_support_functions.py", "    etas = [res_sprm_cv.cv_results_['params'][i]['eta'] for i", "    etas = [round(res_sprm_cv.cv_results_['params'][i]['eta'],2) for i")],
     "a grid of sparsity parameters with more than two decimals",
     "the table reports rounded settings, so two settings look the same",
     '''
from types import SimpleNamespace as N
from direpack.cross_validation._cv_support_functions import cv_score_table
r = N(cv_results_={"params": [{"eta": e, "n_components": 1} for e in (0.125, 0.121, 0.5)], "mean_test_score": [1., 2, 3]})
assert list(cv_score_table(r)["etas"]) == [0.125, 0.121, 0.5]
''')

seed("start-order", "C22",
     [("sudire/sudire.py", '                    optimizer_start = save_start.flatten(order="F")', '                    optimizer_start = save_start.flatten()')],
     "two directions and a model in which sliced average variance estimation is the best start",
     "the starting basis is scrambled",
     '''
import sys, types
import numpy as np
class Problem:
    def __init__(self, n, m, problem_obj=None, **kw):
        pass
    def add_option(self, k, v): pass
    def solve(self, x0):
        x0 = np.array(x0)
        return x0, {"status": 0, "status_msg": b"", "obj_val": 0.0, "x": x0.copy()}
mod = types.ModuleType("cyipopt"); mod.Problem = Problem; sys.modules["cyipopt"] = mod
from direpack import sudire
rng = np.random.default_rng(4)
for k in range(12):
    X = rng.standard_normal((90, 4))
    y = X[:, 0] ** 2 + (X[:, 1] - 0.2) ** 2 + 0.05 * rng.standard_normal(90)
    q = np.linalg.qr(sudire("dcov-sdr", n_components=2).fit(X, y).x_loadings_)[0]
    c = []
    for meth, ns in (("sir", 6), ("save", 3), ("dr", 6)):
        o = np.linalg.qr(sudire(meth, n_components=2, n_slices=ns).fit(X, y).x_loadings_)[0]
        c.append(np.linalg.svd(q.T @ o)[1].min())
    assert max(c) > 0.999, (k, c)
''')

seed("rm-few-loops", "C10",
     [("sprm/rm.py", "        while (difference > self.tol) & (loops < self.maxit):", "        while (difference > self.tol) & (loops < min(self.maxit, 15)):")],
     "data for which the reweighting settles slowly",
     "the reweighting stops before the coefficients have settled",
     '''
import numpy as np
from direpack import rm
bad = 0
for s in range(200):
    rng = np.random.default_rng(s)
    X = rng.standard_normal((15, 3)); y = X @ [1., 2, -1] + rng.standard_t(1, 15)
    a = rm(fun="Fair", tol=1e-10, maxit=500, centre="median", scale="mad", verbose=False).fit(X, y)
    Xs = (X - a.x_loc_) / a.x_sca_; ys = (y - a.y_loc_) / a.y_sca_
    w = np.sqrt(a.caseweights_)
    b = np.linalg.lstsq(Xs * w[:, None], ys * w, rcond=None)[0]
    if np.abs(b - a.coef_scaled_.ravel()).max() > 1e-4 * np.abs(b).max(): bad += 1
assert bad == 0, bad
''')

seed("gss-median-rank", "C05",
     [("preprocessing/_gsspp_utils.py", "    dWH = np.power(dd,2/3) \n    dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]\n    d_hmed = np.power(dWH_hmed,3/2)\n    idx = np.where(dd > d_hmed)[0]", "    dWH = np.power(dd,2/3) \n    dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + 1) / 2))+int(np.floor(p / 2))-1][0]\n    d_hmed = np.power(dWH_hmed,3/2)\n    idx = np.where(dd > d_hmed)[0]")],
     "the ball radial function, an even number of cases and an odd number of variables",
     "the ball radius is one order statistic too small",
     '''
import numpy as np
from direpack import gen_ss_pp
rng = np.random.default_rng(0)
X = rng.standard_normal((10, 3))
G = gen_ss_pp(X, center="None", fun="ball")
assert np.sum(np.abs(G).sum(1) > 0) == (10 + 3 + 1) // 2
''')

seed("plot-name-val", "C27",
     [("plot/sprm_plot.py", "                ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))", "                ax1.annotate(namesv[i], (name_indices[len(names)+i],wv[i]))")],
     "labels for the new cases without labels for the training cases",
     "the labels of the new cases stand at the bars of training cases",
     '''
import numpy as np
import matplotlib.pyplot as plt
from direpack import sprm, sprm_plot
rng = np.random.default_rng(0)
X = rng.standard_normal((20, 3)); y = X @ [1., 2, 0] + .1 * rng.standard_normal(20)
m = sprm(n_components=2, eta=.1, verbose=False).fit(X, y)
plt.close("all")
sprm_plot(m, ["w", "w", "#0000AA", "w", "b", "#FF0000", "r", "g"], ["o", "d", "v"]).plot_caseweights(Xn=rng.standard_normal((6, 3)), label="a", namesv=["n%d" % i for i in range(6)])
t = [a for a in plt.gcf().axes[0].texts if a.get_text() == "n0"]
assert len(t) == 1 and abs(t[0].xy[0] - 21) < 1e-9, t[0].xy
''')

seed("mdd-metric", "C07",
     [("dicomo/dicomo.py", "                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr,dmetric=dmetric))", "                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))")],
     "martingale difference divergence with a metric other than the Euclidean one, on several variables",
     "the requested metric is ignored",
     '''
import numpy as np
from direpack import dicomo
rng = np.random.default_rng(0)
X = rng.standard_normal((30, 3)); y = rng.standard_normal(30)
o = dicomo(est="distance", mode="mdd")
a, b = o.fit(X, y=y), o.fit(X, y=y, dmetric="cityblock")
assert abs(a - b) > 1e-6
''')

seed("pcapp-none", "C14",
     [("sprm/sprm.py", "            relcomp = max(\n                np.where(spc - brokenstick(min(p, n))[:, 0] <= 0)[0][0], 1)", "            relcomp = np.where(\n                spc - brokenstick(min(p, n))[:, 0] <= 0)[0][0]")],
     "predictors without a dominating principal component, so that the broken stick retains none",
     "starting values from principal components are undefined",
     '''
import numpy as np
from direpack import sprm
rng = np.random.default_rng(1)
X = np.linalg.qr(rng.standard_normal((40, 4)))[0]; X -= X.mean(0); X = np.linalg.qr(X)[0]; y = X @ [1., 2, 0, 1] + .01 * rng.standard_normal(40)
m = sprm(n_components=2, eta=.1, centre="mean", scale="std", start_X_init="pcapp", verbose=False).fit(X, y)
assert np.all(np.isfinite(m.coef_)) and np.any(m.coef_ != 0)
''')

seed("xweights-kept", "C09",
     [("sprm/sprm.py", "        wt = wte\n        wt[w0] = 0\n", "        wt = np.where(np.isin(np.arange(n), w0), 0, wte)\n")],
     "an outlying response",
     "the reported score weights of rejected cases are not zero",
     '''
import numpy as np
from direpack import sprm
rng = np.random.default_rng(1)
X = rng.standard_normal((40, 4)); y = X @ [1., 2, 0, 1] + .1 * rng.standard_normal(40)
y[:3] = np.median(y) - .5 * np.sign(X[:3] @ [1., 2, 0, 1])
m = sprm(n_components=2, eta=.1, maxit=2, verbose=False).fit(X, y)
z = m.caseweights_ == 0
assert z.any() and np.all(np.asarray(m.x_caseweights_).ravel()[z] == 0)
''')

seed("pp-robust-prob", "C17",
     [("ppdire/ppdire.py", "probp2=probp2,probp3=probp3,", "probp2=(probp1+probp3)/2,probp3=probp3,")],
     "robust regression with the second Hampel probability away from the default",
     "the second cut-off is ignored",
     '''
import numpy as np
from direpack import ppdire, dicomo
rng = np.random.default_rng(3)
X = rng.standard_normal((40, 3)) * [1, 4, 1]; y = X @ [1., 2, 0] + rng.standard_t(2, 40)
def fit(p2):
    m = ppdire(projection_index=dicomo, pi_arguments={"mode": "cov"}, n_components=1, optimizer="SLSQP", optimizer_options={"maxiter": 1000}, regopt="robust", verbose=False)
    return m.fit(X, y, fun="Hampel", probp1=.8, probp2=p2, probp3=.9999, scale="std").y_loadings_[0, 0]
v = [fit(p) for p in (.82, .9, .95, .99)]
assert len(set(np.round(v, 10))) > 1, v
''')

seed("sprm-raw-intercept", "C14",
     [("sprm/sprm.py", "                b0 = np.median(np.array(y - np.matmul(X, b)))", "                b0 = np.median(y) - np.median(np.matmul(X, b))")],
     "a model without scaling, with median centring",
     "the intercept in scaled units is not that of the residuals",
     '''
import numpy as np
from direpack import sprm
rng = np.random.default_rng(1)
X = rng.standard_normal((41, 3)); y = X @ [1., 2, 0] + rng.standard_normal(41) ** 2
m = sprm(n_components=2, eta=.1, centre="median", scale="None", verbose=False).fit(X, y)
assert abs(m.intercept_scaled_ - np.median(y.reshape(-1, 1) - X @ m.coef_scaled_)) < 1e-9
''')

seed("rm-mean-start", "C10",
     [("sprm/rm.py", "            wy = abs(y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))", "            wy = abs(y - my) / (1.4826 * np.median(abs(y - my)))")],
     "centring by the mean and skewed or contaminated responses",
     "the starting weights are computed about the mean",
     '''
import numpy as np
from direpack import rm
rng = np.random.default_rng(1)
X = rng.standard_normal((40, 3)); y = X @ [1., 2, 0] + .2 * rng.standard_normal(40)
y[:14] += 500
m = rm(fun="Hampel", centre="mean", scale="std", maxit=2, verbose=False).fit(X, y)
w0 = np.abs(y - np.median(y)) / (1.4826 * np.median(np.abs(y - np.median(y))))
from direpack.sprm._m_support_functions import Hampel
from scipy.stats import norm, chi2
Xs = (X - X.mean(0)) / X.std(0); d = np.sqrt((Xs ** 2).sum(1)); d /= np.median(d)
q = (.95, .975, .999)
w = Hampel(w0.copy(), *norm.ppf(q)) * Hampel(d.copy(), *chi2.ppf(q, 3))
ys = (y - y.mean()) / y.std()
b = np.linalg.lstsq(Xs * np.sqrt(w)[:, None], ys * np.sqrt(w), rcond=None)[0]
assert np.allclose(b, np.asarray(m.coef_scaled_).ravel(), rtol=1e-6, atol=1e-9), (b, m.coef_scaled_)
''')

seed("cos-median", "C06",
     [("dicomo/dicomo.py", "        elif self.mode == 'cos':\n            center = 'mean'\n            mode = 'com'", "        elif self.mode == 'cos':\n            mode = 'com'")],
     "co-skewness of an object centred by the median",
     "the standardised third co-moment is replaced by a median of products",
     '''
import numpy as np
from direpack import dicomo
rng = np.random.default_rng(1)
x, y = rng.exponential(size=30), rng.standard_normal(30)
a = dicomo(mode="cos", center="median").fit(x, y=y); b = dicomo(mode="cos").fit(x, y=y)
assert abs(a - b) < 1e-9
''')

seed("distance-half", "C07",
     [("dicomo/dicomo.py", "            como *= como * (np.sqrt(xmom)**(alpha -1))", "            como *= como * (np.sqrt(xmom)**(alpha -1) if self.est == 'arithmetic' else xmom**(alpha -1))")],
     "continuum association on distance covariances with alpha other than one",
     "the exponent of the distance variance is doubled",
     '''
import numpy as np
from direpack import dicomo
rng = np.random.default_rng(1)
x, y = rng.exponential(size=30), rng.standard_normal(30)
c = dicomo(est="distance", mode="cov").fit(x, y=y); v = dicomo(est="distance", mode="var").fit(x)
a = dicomo(est="distance", mode="continuum").fit(x, y=y, alpha=3)
assert abs(a - c ** 2 * v) < 1e-9
''')
