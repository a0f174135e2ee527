"""Kernels from their formulas, independent of skopt and scikit-learn.

A kernel is a JSON tree: {"k": "rbf", "l": [..] or float}, {"k": "matern",
"l", "nu"}, {"k": "rq", "l", "a"}, {"k": "ess", "l", "p"}, {"k": "dot", "s"},
{"k": "const", "c"}, {"k": "white", "n"}, {"k": "ham", "l"},
{"k": "sum" | "prod", "a", "b"}, {"k": "pow", "a", "e"}.
"""
import math

import numpy as np

from . import gens as G


def make(t):
    from skopt.learning.gaussian_process import kernels as K
    k = t["k"]
    if k == "rbf":
        return K.RBF(t["l"])
    if k == "matern":
        return K.Matern(t["l"], nu=t["nu"])
    if k == "rq":
        return K.RationalQuadratic(t["l"], alpha=t["a"])
    if k == "ess":
        return K.ExpSineSquared(t["l"], t["p"])
    if k == "dot":
        return K.DotProduct(t["s"])
    if k == "const":
        return K.ConstantKernel(t["c"])
    if k == "white":
        return K.WhiteKernel(t["n"])
    if k == "ham":
        return K.HammingKernel(t["l"])
    if k == "pow":
        return make(t["a"]) ** t["e"]
    a, b = t["a"], t["b"]
    # numbers stand for constants on either side
    ka = a["c"] if a["k"] == "const" and t.get("num") == "a" else make(a)
    kb = b["c"] if b["k"] == "const" and t.get("num") == "b" else make(b)
    return ka + kb if k == "sum" else ka * kb


def scales(l, n):
    """One length scale per dimension; a list of one is one for all."""
    if isinstance(l, list) and len(l) > 1:
        return l
    return [l[0] if isinstance(l, list) else l] * n


def value(t, x, y, same):
    """k(x, y); same: both are one and the same sample (white noise)."""
    k = t["k"]
    if k == "const":
        return t["c"]
    if k == "white":
        return t["n"] if same else 0.0
    if k == "sum":
        return value(t["a"], x, y, same) + value(t["b"], x, y, same)
    if k == "prod":
        return value(t["a"], x, y, same) * value(t["b"], x, y, same)
    if k == "pow":
        return value(t["a"], x, y, same) ** t["e"]
    if k == "dot":
        return t["s"] ** 2 + float(np.dot(x, y))
    if k == "ham":
        l = scales(t["l"], len(x))
        return math.exp(-sum(li for li, a, b in zip(l, x, y) if a != b))
    if k == "ess":
        d = math.sqrt(sum((a - b) ** 2 for a, b in zip(x, y)))
        return math.exp(-2 * (math.sin(math.pi * d / t["p"]) / t["l"]) ** 2)
    l = scales(t["l"], len(x))
    d2 = sum(((a - b) / li) ** 2 for a, b, li in zip(x, y, l))
    if k == "rbf":
        return math.exp(-0.5 * d2)
    if k == "rq":
        return (1 + d2 / (2 * t["a"])) ** (-t["a"])
    d = math.sqrt(d2)
    nu = t["nu"]
    if nu == 0.5:
        return math.exp(-d)
    if nu == 1.5:
        return (1 + math.sqrt(3) * d) * math.exp(-math.sqrt(3) * d)
    return (1 + math.sqrt(5) * d + 5 * d2 / 3) * math.exp(-math.sqrt(5) * d)


def matrix(t, X, Y=None):
    if Y is None:
        return np.array([[value(t, X[i], X[j], i == j)
                          for j in range(len(X))] for i in range(len(X))])
    return np.array([[value(t, x, y, False) for y in Y] for x in X])


def definite(t, X, alpha):
    """Is the matrix of the kernel comfortably positive definite?  (Products
    with periodic kernels of a distance in several dimensions need not be.)"""
    m = matrix(t, X) + alpha * np.eye(len(X))
    w = np.linalg.eigvalsh(m)
    return w[0] > 1e-9 * max(1.0, w[-1])


def contains(t, *names):
    return t["k"] in names or any(
        contains(t[c], *names) for c in ("a", "b")
        if isinstance(t.get(c), dict))


def has_nu(t, nus):
    return (t["k"] == "matern" and t["nu"] in nus) or any(
        has_nu(t[c], nus) for c in ("a", "b") if isinstance(t.get(c), dict))


def strat(d, depth=2, leaves=("rbf", "matern", "rq", "ess", "dot", "const"),
          white=False, frac=False):
    from hypothesis import strategies as st
    sc = st.sampled_from([0.3, 0.5, 0.8, 1.0, 2.0])
    ls = st.one_of(sc, st.lists(sc, min_size=d, max_size=d),
                   sc.map(lambda v: [v]))
    opts = {
        "rbf": st.fixed_dictionaries({"k": st.just("rbf"), "l": ls}),
        "matern": st.fixed_dictionaries({
            "k": st.just("matern"), "l": ls,
            "nu": st.sampled_from([0.5, 1.5, 2.5])}),
        "rq": st.fixed_dictionaries({"k": st.just("rq"), "l": sc, "a": sc}),
        "ess": st.fixed_dictionaries({"k": st.just("ess"), "l": sc,
                                      "p": st.sampled_from([0.7, 1.0, 3.0])}),
        "dot": st.fixed_dictionaries({"k": st.just("dot"), "s": sc}),
        "const": st.fixed_dictionaries({"k": st.just("const"), "c": sc}),
        "white": st.fixed_dictionaries({"k": st.just("white"), "n": sc}),
        "ham": st.fixed_dictionaries({"k": st.just("ham"), "l": ls}),
    }
    names = list(leaves) + (["white"] if white else [])
    leaf = st.one_of(*[opts[n] for n in names])
    if depth == 0:
        return leaf
    sub = strat(d, depth - 1, leaves, white, frac)

    def comb(k):
        return st.fixed_dictionaries({
            "k": st.just(k), "a": sub, "b": sub,
            "num": st.sampled_from([None, "a", "b"])}).map(fix)
    return st.one_of(leaf, comb("sum"), comb("prod"),
                     st.fixed_dictionaries({
                         "k": st.just("pow"), "a": sub,
                         "e": st.sampled_from([2, 3, 1, 0.5, 1.5, 2.5])
                         if frac else st.sampled_from([2, 3, 1])}).map(
                             whole))


def whole(t):
    """Powers that are not whole only of what is positive."""
    if contains(t["a"], "dot", "white", "pow"):
        t = dict(t, e=math.ceil(t["e"]))
    return t


def fix(t):
    """At most one side a bare number."""
    t = dict(t)
    n = t.get("num")
    if n is None or t[n]["k"] != "const":
        t["num"] = None
    elif t["a"]["k"] == "const" and t["b"]["k"] == "const":
        t["num"] = "b"
    return t


def points(n_min, n_max, d, lo=-1.0, hi=1.0):
    from hypothesis import strategies as st
    f = st.floats(lo, hi, width=32).map(
        lambda v: v if abs(v) > 1e-6 else 0.0)
    return st.lists(st.lists(f, min_size=d, max_size=d), min_size=n_min,
                    max_size=n_max)


def num_grad(f, x, h=1e-4):
    """Central differences of 4th order; (gradient, error estimate)."""
    def at(h):
        g = []
        for i in range(len(x)):
            e = np.zeros(len(x))
            e[i] = h
            g.append((8 * (np.asarray(f(x + e)) - f(x - e)) -
                      (np.asarray(f(x + 2 * e)) - f(x - 2 * e))) / (12 * h))
        return np.array(g)
    a, b = at(h), at(h / 2)
    return b, np.abs(a - b)


def read(k):
    """The JSON tree of a kernel object, read from its parameters."""
    n = type(k).__name__
    p = k.get_params(deep=False)

    def num(v):
        v = np.asarray(v, dtype=float)
        return v.tolist() if v.ndim and v.size > 1 else float(v.ravel()[0])
    if n in ("Sum", "Product"):
        return {"k": "sum" if n == "Sum" else "prod", "a": read(p["k1"]),
                "b": read(p["k2"])}
    if n == "Exponentiation":
        return {"k": "pow", "a": read(p["kernel"]), "e": p["exponent"]}
    if n == "RBF":
        return {"k": "rbf", "l": num(p["length_scale"])}
    if n == "Matern":
        return {"k": "matern", "l": num(p["length_scale"]), "nu": p["nu"]}
    if n == "RationalQuadratic":
        return {"k": "rq", "l": num(p["length_scale"]), "a": num(p["alpha"])}
    if n == "ExpSineSquared":
        return {"k": "ess", "l": num(p["length_scale"]),
                "p": num(p["periodicity"])}
    if n == "DotProduct":
        return {"k": "dot", "s": num(p["sigma_0"])}
    if n == "ConstantKernel":
        return {"k": "const", "c": num(p["constant_value"])}
    if n == "WhiteKernel":
        return {"k": "white", "n": num(p["noise_level"])}
    if n == "HammingKernel":
        return {"k": "ham", "l": num(p["length_scale"])}
    raise ValueError(n)


def strip(t):
    """Without the notation for bare numbers."""
    return {k: strip(v) if isinstance(v, dict) else v
            for k, v in t.items() if k != "num"}


def lml(t, X, y, noise):
    """Log marginal likelihood of y under the kernel plus noise (variances
    on the diagonal)."""
    C = matrix(t, X) + np.diag(np.broadcast_to(noise, (len(X),)))
    sign, logdet = np.linalg.slogdet(C)
    return float(-0.5 * y @ np.linalg.solve(C, y) - 0.5 * logdet -
                 0.5 * len(y) * math.log(2 * math.pi))


def posterior(t, X, y, noise, Q):
    """Mean and covariance of the function at Q."""
    C = matrix(t, X) + np.diag(np.broadcast_to(noise, (len(X),)))
    k = matrix(t, Q, X)
    m = k @ np.linalg.solve(C, y)
    v = matrix(t, Q, None) - k @ np.linalg.solve(C, k.T)
    return m, v
