"""C19: the co-moment analysis projection index is the stated weighted sum."""
import numpy as np
from hypothesis import strategies as st

from direpack import capi, dicomo
from ..core import Registry, arr, att, close, require, scalar, skip
from .. import gen
from .c06 import XY, com, shaped, tm, xy

CLAUSES = Registry()
ASSUMPTIONS = ["samples of at least 8 cases, trimming below 1/2", "options 'all' or the leading options [1], [1, 2], [1, 2, 3]",
               "raw co-moments (scaling=False) use the same order/option conventions as the stand-alone co-moment"]
DEFAULT_W = [1, 1, 1, -1, -1, -1]


def terms(x, y, deg, scaling, opts, t, bias=False):
    """[cov; cos 1, 2; cok 1, 2, 3] from the definitions, zero when not included."""
    out = np.zeros(6)
    sx, sy = np.sqrt(com(x, x, 1, 1, t)), np.sqrt(com(y, y, 1, 1, t))
    for i in range(2, deg + 1):
        for o in range(1, i):
            if o not in opts:
                continue
            v = com(x, y, i - o, o, t)
            if scaling and i > 2:
                v = v / (sx ** (i - o) * sy ** o)
            out[{2: 0, 3: 1, 4: 3}[i] + o - 1] = v
    return out


WTS = st.one_of(st.none(), st.lists(st.sampled_from([-2.0, -1.0, -0.5, 0.0, 0.3, 1.0, 4.0]), min_size=6, max_size=6))
base = {"d": XY, "deg": gen.ints(2, 4), "scaling": st.booleans(), "w": WTS, "opts": st.sampled_from(["all", "all", [1], [1, 2], [1, 2, 3]]),
        "t": st.sampled_from([0, 0, 0, 0.1, 0.2]), "sh": st.sampled_from(["1d", "2d"])}


def make(c):
    kw = {} if c["w"] is None else {"weights": list(c["w"])}
    return capi(max_degree=c["deg"], projection_index=dicomo, pi_arguments={}, scaling=c["scaling"], options=c["opts"], **kw)


def used(c):
    return [1, 2, 3] if c["opts"] == "all" else c["opts"]


@CLAUSES.clause("weighted_sum", gen.D(base), "degree above two", 900)
def c_sum(c):
    x, y = xy(c["d"])
    skip(len(x) < 8 or abs(len(x) * c["t"] - round(len(x) * c["t"])) < 1e-6 and c["t"] > 0)
    o = make(c)
    v = scalar(o.fit(shaped(x, c["sh"]), shaped(y, c["sh"]), trimming=c["t"]), "index value")
    w = np.array(DEFAULT_W if c["w"] is None else c["w"], float)
    m = terms(x, y, c["deg"], c["scaling"], used(c), c["t"])
    S = sum(np.max(np.abs(x - x.mean())) ** a * np.max(np.abs(y - y.mean())) ** b for a, b in [(1, 1)] + (
        [] if c["scaling"] else [(2, 1), (1, 2), (3, 1), (2, 2), (1, 3)])) * (np.abs(w).max() + 1e-9) + 100
    got = arr(att(o, "moments_"), "moments_", size=6).reshape(-1)
    for k in range(6):
        close(np.array(got[k]), np.array(m[k]), "co-moment %d" % k, 1e-6, scale=abs(m[k]) + 1e-4 * S)
    close(np.array(v), np.array(w @ m), "weighted sum of co-moments", 1e-7, scale=S)
    close(np.array(scalar(att(o, "capi_index_"), "capi_index_")), np.array(v), "stored index", 1e-12, scale=abs(v) + 1e-300)
    # the same object gives the same value again, and other data their own value
    v2 = scalar(o.fit(shaped(x, c["sh"]), shaped(y, c["sh"]), trimming=c["t"]), "index value")
    close(np.array(v2), np.array(v), "index evaluated again", 1e-12, scale=abs(v) + 1e-300)
    return {"nontrivial": c["deg"] > 2, "tags": ["deg%d" % c["deg"], "scaled" if c["scaling"] else "raw", str(c["opts"]), "own weights" if c["w"] else "default weights"]}


@CLAUSES.clause("standalone", gen.D(base), "degree above two", 300)
def c_alone(c):
    """Each term equals the stand-alone statistic of the moment object."""
    x, y = xy(c["d"])
    skip(len(x) < 8)
    xs, ys = shaped(x, c["sh"]), shaped(y, c["sh"])
    total = 0.0
    w = DEFAULT_W if c["w"] is None else c["w"]
    k = 0
    big = 1.0
    for i in range(2, 5):
        for o in range(1, i):
            if i <= c["deg"] and o in used(c):
                mode = {2: "cov", 3: "cos", 4: "cok"}[i] if c["scaling"] else "com"
                s = scalar(dicomo(mode=mode).fit(xs.copy(), y=ys.copy(), order=i, option=o, trimming=c["t"]), "co-moment")
                total += w[k] * s
                big = max(big, abs(w[k] * s))
            k += 1
    v = scalar(make(c).fit(xs, ys, trimming=c["t"]), "index value")
    close(np.array(v), np.array(total), "index against stand-alone statistics", 1e-8, scale=big)
    return {"nontrivial": c["deg"] > 2}


@CLAUSES.clause("invariance", gen.D(dict(base, a=st.sampled_from([0.0, 5.0, -40.0]), b=st.sampled_from([1.0, 2.0, 0.1]))), "degree above two", 300)
def c_inv(c):
    x, y = xy(c["d"])
    skip(len(x) < 8)
    skip(c["t"] > 0 and len(np.unique(x)) < len(x))
    o = make(c)
    o.fit(shaped(x, c["sh"]), shaped(y, c["sh"]), trimming=c["t"])
    m1 = arr(att(o, "moments_"), "moments_", size=6).reshape(-1).copy()
    v1 = scalar(att(o, "capi_index_"), "index")
    v2 = scalar(o.fit(shaped(x + c["a"], c["sh"]), shaped(y - 2 * c["a"], c["sh"]), trimming=c["t"]), "index value")
    S = np.abs(m1).max() + 1 + np.max(np.abs(x)) ** 2 * 1e-2
    sc = sum((np.max(np.abs(x - x.mean())) + np.max(np.abs(y - y.mean())) + 1e-3 * abs(c["a"])) ** k for k in ((2,) if c["scaling"] else (2, 3, 4)))
    close(np.array(v2), np.array(v1), "index after shifting both samples", 1e-6, scale=S + sc)
    if c["scaling"]:
        o.fit(shaped(c["b"] * x, c["sh"]), shaped(c["b"] * y, c["sh"]), trimming=c["t"])
        m2 = arr(att(o, "moments_"), "moments_", size=6).reshape(-1)
        close(m2[1:], m1[1:], "higher co-moments after rescaling", 1e-6, scale=1 + np.abs(m1[1:]).max())
        close(np.array(m2[0]), np.array(c["b"] ** 2 * m1[0]), "covariance after rescaling", 1e-6, scale=abs(m1[0]) * c["b"] ** 2 + 1e-9)
    return {"nontrivial": c["deg"] > 2}
