"""Strategies for JSON-able data specifications, and their materialisation.

A matrix is either drawn element by element (small integer grids: ties, exact
zeros, duplicated rows) or described by (n, p, family, seed, ...) where every
choice, including the seed, is drawn by hypothesis, so that shrinking and
replay act on the description."""
import numpy as np
from hypothesis import strategies as st

FAMS = ["normal", "unif", "exp", "t3", "ties", "corr", "lap"]


def ints(lo, hi):
    """Uniform integers: st.integers favours its end points too heavily for
    sizes and seeds (45% of the cases would have the smallest n)."""
    return st.sampled_from(range(lo, hi + 1))


def sizes(lo, hi, big=True):
    """Numbers of cases: mostly lo..hi, one in sixteen several times larger."""
    small = list(range(lo, hi + 1))
    if not big or hi < 20:
        return st.sampled_from(small)
    large = [2 * hi + 3, 3 * hi, 5 * hi + 1]
    k = -(-15 * len(large) // len(small))
    m = max(1, -(-k * len(small) // (15 * len(large))))
    return st.sampled_from(small * k + large * m)


def dims(lo, hi, pbig=False):
    """Numbers of variables: mostly lo..hi, one in sixteen several times larger."""
    small = list(range(lo, hi + 1))
    if not pbig:
        return st.sampled_from(small)
    large = [2 * hi + 1, 3 * hi + 2]
    k = -(-15 * len(large) // len(small))
    return st.sampled_from(small * k + large)


def roomy(s, hi):
    """Many variables come with enough cases."""
    return dict(s, n=max(s["n"], 4 * s["p"])) if s["p"] > hi else s


def D(d):
    """Fixed dictionary with a fixed draw order (st.fixed_dictionaries permutes
    the keys, which only multiplies equal cases)."""
    keys = list(d)
    return st.tuples(*[d[k] for k in keys]).map(lambda t: dict(zip(keys, t)))


def seeds():
    return ints(0, 2**20 - 1)


def draw_family(rng, fam, n, p):
    if fam == "normal":
        return rng.standard_normal((n, p))
    if fam == "unif":
        return rng.uniform(-1, 1, (n, p))
    if fam == "exp":
        return rng.exponential(1.0, (n, p))
    if fam == "t3":
        return rng.standard_t(3, (n, p))
    if fam == "lap":
        return rng.laplace(0, 1, (n, p))
    if fam == "ties":
        return rng.integers(-4, 5, (n, p)).astype(float)
    if fam == "corr":
        z = rng.standard_normal((n, p))
        m = np.eye(p) + 0.5 * rng.standard_normal((p, p)) / np.sqrt(p)
        return z @ m
    raise KeyError(fam)


UNITS = (0, 0, 0, 0, 0, 0, -5, 4)  # powers of ten: most data of ordinary size, some in very small or large units


def mats(n=(4, 40), p=(1, 6), fams=FAMS, mags=(0, 1), locs=(0, 3, -50), grid=True, p_of=None, units=UNITS, big=True, pbig=False):
    """Matrix specification."""
    def rng_part(*fm):
        out = D({
            "k": st.just("rng"),
            "n": sizes(*n, big=big),
            "p": dims(*p, pbig=pbig),
            "fam": st.sampled_from(list(fm)),
            "mag": st.sampled_from(list(mags)),
            "loc": st.sampled_from(list(locs)),
            "u": st.sampled_from(list(units)),
            "seed": seeds(),
        })
        return out.map(lambda s: roomy(s, p[1])) if pbig else out
    if not grid:
        return rng_part(*fams)
    lo_n, hi_n = n
    lo_p, hi_p = p
    g = st.tuples(ints(lo_n, min(hi_n, max(lo_n, 12))), ints(lo_p, min(hi_p, max(lo_p, 3)))).flatmap(
        lambda d: D({
            "k": st.just("grid"),
            "n": st.just(d[0]), "p": st.just(d[1]),
            "v": st.lists(ints(-9, 9), min_size=d[0] * d[1], max_size=d[0] * d[1]),
            "div": st.sampled_from([1, 2, 10]),
        }))
    # one alternative per family (one_of merges equal ones): grids stay a minority
    return st.one_of(*[rng_part(f) for f in fams], g)


def mat(s):
    """Materialise a matrix specification (fresh, C-contiguous, float64)."""
    n, p = s["n"], s["p"]
    if s["k"] == "grid":
        return np.array(s["v"], dtype=float).reshape(n, p) / s["div"]
    rng = np.random.default_rng(s["seed"])
    X = draw_family(rng, s["fam"], n, p)
    if s.get("mag"):
        X = X * 10.0 ** rng.uniform(-1.5 * s["mag"], 1.5 * s["mag"], p)
    if s.get("loc"):
        X = X + s["loc"] * rng.uniform(0.3, 1.0, p)
    if s.get("u"):
        X = X * 10.0 ** s["u"]
    return np.ascontiguousarray(X)


def child_rng(s, tag=1):
    return np.random.default_rng([s["seed"] if "seed" in s else 7, tag])


def regs(n=(10, 40), p=(2, 8), noise=(0.1, 0.5, 1.0), fams=("normal", "corr", "unif", "lap"),
         mags=(0, 1), locs=(0, 3), sparse=(0, 1), units=UNITS, big=True, pbig=False, wide=False):
    """Regression data: y = 2 + X b + noise, for n rows, p columns."""
    out = D({
        "n": sizes(*n, big=big), "p": dims(*p, pbig=pbig),
        "fam": st.sampled_from(list(fams)), "mag": st.sampled_from(list(mags)),
        "loc": st.sampled_from(list(locs)), "noise": st.sampled_from(list(noise)),
        "sparse": st.sampled_from(list(sparse)),
        "u": st.sampled_from(list(units)), "uy": st.sampled_from(list(units)),
        "seed": seeds(),
    })
    if wide:  # one in ten with more variables than cases
        shape = st.sampled_from([0] * 27 + [1, 2, 3])
        return st.tuples(out, shape).map(lambda t: roomy(t[0], p[1]) if not t[1] else dict(t[0], n=n[0] + t[0]["n"] % 8, p=(n[0] + t[0]["n"] % 8) * t[1] + 1 + t[0]["p"] % 5))
    return out.map(lambda s: roomy(s, p[1])) if pbig else out


def reg(s):
    rng = np.random.default_rng(s["seed"])
    n, p = s["n"], s["p"]
    Z = draw_family(rng, s["fam"], n, p)
    b = rng.uniform(0.5, 2.0, p) * rng.choice([-1.0, 1.0], p)
    if s.get("sparse") and p > 2:
        k = max(1, p // 2)
        b[rng.permutation(p)[:k]] = 0.0
    sig = max(np.std(Z @ b), 1e-3)
    y = 2.0 + Z @ b + s["noise"] * sig * rng.standard_normal(n)
    X = Z
    if s.get("mag"):
        X = X * 10.0 ** rng.uniform(-1.5 * s["mag"], 1.5 * s["mag"], p)
    if s.get("loc"):
        X = X + s["loc"] * rng.uniform(0.3, 1.0, p)
    if s.get("u"):
        X = X * 10.0 ** s["u"]
    if s.get("uy"):
        y = y * 10.0 ** s["uy"]
    return np.ascontiguousarray(X), y
