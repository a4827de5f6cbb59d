"""Reference models of the regression estimators, written from the published
algorithms on plain arrays.  Location and scale come from the library's own
scaler: those estimators are decided by C01-C03."""
import numpy as np
from scipy.stats import chi2, norm

from direpack import VersatileScaler
from . import refs


def scaled(X, centre, scale):
    vs = VersatileScaler(center=centre, scale=scale)
    X = np.array(X, dtype=float)
    if X.ndim == 1:
        X = X.reshape(-1, 1)
    vs.fit(X.copy())
    m = np.asarray(vs.center_, float).reshape(-1)
    s = np.asarray(vs.scale_, float).reshape(-1)
    s1 = np.where(s == 0, 1.0, s)
    return (X - m) / s1, m, s


def _dot(A, b):
    """Product over the cells that are present."""
    return np.nansum(A * b[None, :], axis=1)


def snipls(X, y, eta, k, centre="mean", scale="None"):
    """Sparse NIPALS (univariate response), skipping missing cells of X."""
    X = np.asarray(X, float)
    y = np.asarray(y, float).reshape(-1)
    n, p = X.shape
    X0, mX, sX = scaled(X, centre, scale)
    y0, my, sy = scaled(y, centre, scale)
    y0 = y0[:, 0]
    Xi, yi = X0.copy(), y0.copy()
    sel = np.zeros(p, bool)
    W, P, T, C, xev, yev, margin, smargin = [], [], [], [], [], [], np.inf, np.inf
    for _ in range(k):
        w = _dot(Xi.T, yi)
        nw = np.sqrt(np.sum(w**2))
        w = w / nw
        g = np.abs(w) - eta * np.max(np.abs(w))
        if eta > 0:
            margin = min(margin, np.min(np.abs(g)))
        sel = sel | (g > 0)
        smargin = min(smargin, np.min(np.abs(w[sel])))
        w = np.where(sel, g * np.sign(w), 0.0)
        t = _dot(Xi, w)
        tt = np.sum(t * t)
        c = np.sum(yi * t) / tt
        l = _dot(Xi.T, t) / tt
        Xi = Xi - np.outer(t, l)
        yi = yi - t * c
        l = np.where(sel, l, 0.0)
        W.append(w), P.append(l), T.append(t), C.append(c)
        xev.append(100 * tt * np.sum(l**2) / np.nansum(X0**2))
        yev.append(100 * tt * c**2 / np.sum(y0**2))
    W, P, T = np.array(W).T, np.array(P).T, np.array(T).T
    Xz = np.where(np.isnan(X0), 0.0, X0)
    S = Xz.T @ Xz
    A = W.T @ S @ W
    B = W @ np.linalg.solve(A, W.T @ (Xz.T @ y0))
    PW = P.T @ W
    R = W @ np.linalg.inv(PW)
    coef = B * sy[0] / sX
    yp = np.nansum(X * coef[None, :], axis=1)
    if centre == "mean":
        b0 = np.mean(y - yp)
    elif centre == "None":
        b0 = 0.0
    else:
        b0 = np.median(y - yp)
    return dict(W=W, P=P, T=T, C=np.array(C), R=R, B=B, coef=coef, intercept=b0, sel=np.flatnonzero(sel),
                xev=np.array(xev), yev=np.array(yev), fitted=yp + b0, cond=max(np.linalg.cond(A), np.linalg.cond(PW)),
                margin=margin, smargin=smargin, X0=X0, mX=mX, sX=sX, my=my, sy=sy)


def wfun(fun, x, a, b, r):
    if fun == "Fair":
        return refs.fair_w(x, a)
    if fun == "Huber":
        return refs.huber_w(x, a)
    return refs.hampel_w(x, a, b, r)


def wfun_signed(fun, x, a, b, r):
    """Weights of signed deviations as the SPRM start uses them (known finding)."""
    return np.where((x < 0) & (fun != "Fair"), 1.0, wfun(fun, x, a, b, r))


def mstd(r):
    r = np.abs(r)
    if len(r) / 2 > np.sum(r == 0):
        return r / (1.4826 * np.median(r))
    return r / (1.4826 * np.median(r[r != 0]))


def floor(w):
    w = w.copy()
    z = w < 1e-6
    w[z] = 1e-6
    return w, z


def omit(w):
    z = w < 1e-6
    return np.where(z, 0.0, w), z


def rm(X, y, fun="Hampel", probs=(0.95, 0.975, 0.999), centre="median", scale="mad", mode="specific", maxit=100, tol=0.01):
    n, p = X.shape
    Xs, mX, sX = scaled(X, centre, scale)
    ys, my, sy = scaled(y, centre, scale)
    ys = ys[:, 0]
    cy = norm.ppf(probs)
    cx = chi2.ppf(probs, p) if mode == "specific" else cy
    d = np.sqrt(np.sum(Xs**2, axis=1))
    wx = wfun(fun, d / np.median(d), *cx)
    wy = wfun(fun, mstd0(y) if (centre, scale) != ("median", "mad") else np.abs(ys), *cy)
    we, z = omit(wx * wy)
    old, diff, loops, steps = 1e-200, 1.0, 1, []
    gap = np.inf
    while diff > tol and loops < maxit:
        s = np.sqrt(we)
        b = np.linalg.lstsq(Xs * s[:, None], ys * s, rcond=None)[0]
        wy = wfun(fun, mstd(ys - Xs @ b), *cy)
        q = np.sum(b**2)
        diff = abs(q - old) / old
        gap = min(gap, abs(diff - tol))
        old = q
        we, z = omit(wx * wy)
        if z.sum() >= n / 2:
            break
        loops += 1
    w = np.where(z, 0.0, we)
    coef = b * sy[0] / sX
    yp = X @ coef
    b0 = np.mean(y - yp) if centre == "mean" else np.median(y - yp)
    return dict(b=b, coef=coef, intercept=b0, w=w, wx=np.where(z, 0.0, wx), wy=np.where(z, 0.0, wy), gap=gap,
                loops=loops, Xs=Xs, ys=ys, fitted=yp + b0, z=z)


def mstd0(y):
    m = np.median(y)
    return np.abs(y - m) / (1.4826 * np.median(np.abs(y - m)))


def sprm(X, y, k=1, eta=0.5, fun="Hampel", probs=(0.95, 0.975, 0.999), centre="median", scale="mad",
         mode="specific", init="pcapp", maxit=100, tol=0.01):
    n, p0 = X.shape
    Xs, mX, sX = scaled(X, centre, scale)
    ys, my, sy = scaled(y, centre, scale)
    ys = ys[:, 0]
    keep = np.flatnonzero(~(sX <= 1e-10 * np.abs(X).max(0)))
    Xs, sX, Xk = Xs[:, keep], sX[keep], X[:, keep]
    p = len(keep)
    gap = np.inf
    if init == "pcapp":
        U, S, _ = np.linalg.svd(Xs)
        ev = S**2 / np.sum(S**2)
        q = min(n, p)
        stick = np.array([sum(1.0 / j for j in range(i, q + 1)) / q for i in range(1, q + 1)])
        df = ev - stick
        gap = min(gap, np.min(np.abs(df))) if q > 1 else gap
        rel = max(int(np.flatnonzero(df <= 0)[0]), 1) if np.any(df <= 0) else None
        if rel is None:
            return None
        Us, _, _ = scaled(U[:, :rel], centre, scale)
    else:
        rel, Us = p, Xs
    d = np.sqrt(np.sum(Us**2, axis=1))
    cy = norm.ppf(probs)
    cx = chi2.ppf(probs, rel) if mode == "specific" else cy
    wx = wfun(fun, d / np.median(d), *cx)
    if (centre, scale) == ("median", "mad"):
        wy = wfun(fun, np.abs(ys), *cy)
    else:
        m = np.median(y)
        wy = wfun_signed(fun, (y - m) / (1.4826 * np.median(np.abs(y - m))), *cy)
    we, z = floor(wx * wy)
    old, diff, loops = 1e-200, 1.0, 1
    tscale = "mad" if scale == "None" else scale
    margin = np.inf
    while diff > tol and loops < maxit:
        s = np.sqrt(we)
        f = snipls(Xs * s[:, None], ys * s, eta, k)
        margin = min(margin, f["margin"])
        T = f["T"] / s[:, None]
        wy = wfun(fun, mstd(ys - f["fitted"]), *cy)
        dt, _, ts = scaled(T, centre, tscale)
        dd = np.sqrt(np.sum(dt**2, axis=1))
        if fun == "Hampel":
            cx = chi2.ppf(probs, k)
        wx = wfun(fun, dd / np.median(dd), *cx)
        b = f["B"]
        q = np.sum(b**2)
        diff = abs(q - old) / old
        gap = min(gap, abs(diff - tol))
        old = q
        we, z = floor(wx * wy)
        if z.sum() >= n / 2:
            break
        loops += 1
    w = np.where(z, 0.0, we)
    coef = b * sy[0] / sX
    yp = Xk @ coef
    b0 = np.mean(y - yp) if centre == "mean" else 0.0 if centre == "None" else np.median(y - yp)
    return dict(b=b, coef=coef, intercept=b0, w=w, wx=np.where(z, 0.0, wx), wy=np.where(z, 0.0, wy), gap=gap, cx=cx,
                cy=cy, loops=loops, keep=keep, R=f["R"], W=f["W"], P=f["P"], sel=f["sel"], T=Xs @ f["R"], Xs=Xs, ys=ys,
                fitted=yp + b0, margin=margin, cond=f["cond"], z=z, rel=rel)


def sensitivity(fn, X, y, ref, keys=("b", "w"), eps=1e-10):
    """Relative movement of the reference under a relative perturbation eps of the data, per eps.
    Reweighting may oscillate, and a retained variable's zero covariance has no sign; then rounding decides."""
    rng = np.random.default_rng(12345)
    X2 = X + eps * np.std(X, axis=0) * rng.standard_normal(X.shape)
    y2 = y + eps * np.std(y) * rng.standard_normal(y.shape)
    try:
        r2 = fn(X2, y2)
    except np.linalg.LinAlgError:
        return np.inf
    if r2 is None:
        return np.inf
    out = 0.0
    for k in keys:
        a, b = np.asarray(ref[k]), np.asarray(r2[k])
        if a.shape != b.shape:
            return np.inf
        out = max(out, np.max(np.abs(a - b)) / (np.max(np.abs(a)) + 1e-300))
    return out / eps
