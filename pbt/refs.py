"""Independent reference computations used as oracles (plain definitions)."""
import numpy as np
from scipy.stats import norm

MADC = 0.6744897501960817


def trimmed_mean(X, t):
    X = np.sort(np.asarray(X, float), axis=0)
    n = X.shape[0]
    k = int(t * n)
    return X[k:n - k].mean(axis=0)


def nan_median(X):
    out = []
    for c in X.T:
        v = np.sort(c[~np.isnan(c)])
        m = len(v)
        out.append(v[m // 2] if m % 2 else 0.5 * (v[m // 2 - 1] + v[m // 2]))
    return np.array(out)


def nan_mean(X):
    return np.array([np.sum(c[~np.isnan(c)]) / np.sum(~np.isnan(c)) for c in X.T])


def nan_std(X):
    out = []
    for c in X.T:
        v = c[~np.isnan(c)]
        out.append(np.sqrt(np.sum((v - v.sum() / len(v)) ** 2) / len(v)))
    return np.array(out)


def nan_mad(X):
    return nan_median(np.abs(X - nan_median(X))) / MADC


def l1_objective(a, X):
    return float(np.sum(np.sqrt(np.sum((X - a) ** 2, axis=1))))


def spatial_median(X, iters=2000):
    """Vardi-Zhang modification of Weiszfeld's algorithm."""
    X = np.asarray(X, float)
    sc = np.sqrt(np.mean((X - X.mean(0)) ** 2)) + 1e-300
    y = np.median(X, axis=0)
    for _ in range(iters):
        d = np.sqrt(np.sum((X - y) ** 2, axis=1))
        at = d <= 1e-13 * sc
        w = np.zeros_like(d)
        w[~at] = 1.0 / d[~at]
        if w.sum() == 0:
            return y
        T = (w[:, None] * X).sum(0) / w.sum()
        eta = at.sum()
        if eta:
            R = ((X[~at] - y) * w[~at][:, None]).sum(0)
            r = np.linalg.norm(R)
            g = min(1.0, eta / r) if r > 0 else 1.0
        else:
            g = 0.0
        yn = (1 - g) * T + g * y
        if np.linalg.norm(yn - y) <= 1e-14 * sc:
            return yn
        y = yn
    return y


def tau_scale(x, c1=4.5, c2=3.0, consistency=True):
    """Maronna & Zamar (2002) tau scale of one variable."""
    x = np.asarray(x, float)
    n = len(x)
    med = np.median(x)
    s0 = np.median(np.abs(x - med))
    w = np.maximum(0.0, 1 - ((x - med) / (c1 * s0)) ** 2) ** 2
    mu = np.sum(w * x) / np.sum(w)
    rho = np.minimum(((x - mu) / s0) ** 2, c2**2)
    b = c2 * norm.ppf(0.75)
    erho = 2 * ((1 - b**2) * norm.cdf(b) - b * norm.pdf(b) + b**2) - 1
    den = n if consistency is False else (n - 2) * erho if consistency == "finiteSample" else n * erho
    return s0 * np.sqrt(rho.sum() / den)


def wrap_ref(z):
    """Raymaekers & Rousseeuw wrapping of standardised values, b=1.5, c=4."""
    b, c, q1, q2 = 1.5, 4.0, 1.540793, 0.8622731
    z = np.asarray(z, float)
    a = np.abs(z)
    return np.where(a < b, z, np.where(a < c, q1 * np.tanh(q2 * (c - a)) * np.sign(z), 0.0))


def hmed(v, n, p):
    return np.sort(np.asarray(v).reshape(-1))[int((n + p + 1) // 2) - 1]


def radial(fun, d, n, p):
    """Radial multipliers of the generalized spatial sign functions."""
    d = np.asarray(d, float).reshape(-1)
    if fun == "ss":
        return 1.0 / np.maximum(d, 1e-10)
    if fun in ("quad", "winsor"):
        q = hmed(d, n, p)
        with np.errstate(all="ignore"):
            r = np.where(d > q, q / d, 1.0)
        return r**2 if fun == "quad" else r
    wh = d ** (2.0 / 3)
    m = hmed(wh, n, p)
    s = hmed(np.abs(wh - m), n, p)
    q = m**1.5
    if fun == "ball":
        return np.where(d <= q, 1.0, 0.0)
    if fun == "shell":
        lo, hi = max(0.0, m - s) ** 1.5, (m + s) ** 1.5
        return np.where((d >= lo) & (d <= hi), 1.0, 0.0)
    if fun == "linear_redescending":
        cut = (m + 1.4826 * s) ** 1.5
        with np.errstate(all="ignore"):
            lin = 1 - (d - q) / (cut - q)
        return np.where(d <= q, 1.0, np.where(d <= cut, lin, 0.0))
    raise KeyError(fun)


def radial_edges(fun, d, n, p):
    """Thresholds at which the radial function jumps."""
    d = np.asarray(d, float).reshape(-1)
    wh = d ** (2.0 / 3)
    m = hmed(wh, n, p)
    s = hmed(np.abs(wh - m), n, p)
    if fun == "ball":
        return [m**1.5]
    if fun == "shell":
        return [max(0.0, m - s) ** 1.5, (m + s) ** 1.5]
    return []


# M weights ---------------------------------------------------------------
def hampel_w(x, a, b, r):
    x = np.abs(np.asarray(x, float))
    with np.errstate(all="ignore"):
        w = np.where(x <= a, 1.0,
                     np.where(x <= b, a / x,
                              np.where(x <= r, a * (r - x) / ((r - b) * x), 0.0)))
    return w


def huber_w(x, c):
    x = np.abs(np.asarray(x, float))
    with np.errstate(all="ignore"):
        return np.where(x <= c, 1.0, c / x)


def fair_w(x, c):
    return 1.0 / (1.0 + np.abs(np.asarray(x, float)) / (2 * c)) ** 2


def princ_angle(A, B):
    """Sine of the largest principal angle between column spaces."""
    qa, _ = np.linalg.qr(np.asarray(A, float))
    qb, _ = np.linalg.qr(np.asarray(B, float))
    if qa.shape[1] != qb.shape[1]:
        return 1.0
    return float(np.linalg.norm(qa - qb @ (qb.T @ qa), 2))
