"""C18 kernels: values, algebra, hyperparameters and their gradients."""
import copy
import math

import numpy as np

from .. import kern as K
from ..core import Prop, Reject, Sub, need

ALL = ("rbf", "matern", "rq", "ess", "dot", "const")


def leaves(t):
    if t["k"] in ("sum", "prod"):
        return leaves(t["a"]) + leaves(t["b"])
    if t["k"] == "pow":
        return leaves(t["a"])
    return [t]


def thetas(t):
    """Logarithms of the hyperparameters in scikit-learn's order."""
    if t["k"] in ("sum", "prod"):
        return thetas(t["a"]) + thetas(t["b"])
    if t["k"] == "pow":
        return thetas(t["a"])
    if t["k"] in ("rbf", "matern", "ham"):
        l = t["l"] if isinstance(t["l"], list) else [t["l"]]
        v = l
    elif t["k"] == "rq":
        v = [t["a"], t["l"]]
    elif t["k"] == "ess":
        v = [t["l"], t["p"]]
    elif t["k"] == "dot":
        v = [t["s"]]
    elif t["k"] == "const":
        v = [t["c"]]
    else:
        v = [t["n"]]
    return [math.log(x) for x in v]


def with_thetas(t, th):
    """The tree with hyperparameters exp(th) (consumes the list)."""
    t = dict(t)
    if t["k"] in ("sum", "prod"):
        t["a"] = with_thetas(t["a"], th)
        t["b"] = with_thetas(t["b"], th)
        return t
    if t["k"] == "pow":
        t["a"] = with_thetas(t["a"], th)
        return t
    if t["k"] in ("rbf", "matern", "ham"):
        if isinstance(t["l"], list):
            t["l"] = [math.exp(th.pop(0)) for _ in t["l"]]
        else:
            t["l"] = math.exp(th.pop(0))
        return t
    for c in {"rq": ["a", "l"], "ess": ["l", "p"], "dot": ["s"],
              "const": ["c"], "white": ["n"]}[t["k"]]:
        t[c] = math.exp(th.pop(0))
    return t


def broken_power(t):
    return (t["k"] == "pow" and t["e"] != int(t["e"])) or any(
        broken_power(t[c]) for c in ("a", "b") if isinstance(t.get(c), dict))


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    return np.all(np.abs(a - b) <= 1e-9 * np.abs(b) + 1e-9 * max(
        1e-3, np.abs(b).max()))


def arrays(case):
    t = case["kernel"]
    if case.get("cat"):
        pool = case["cat"]
        X = [[pool[i % len(pool)] for i in r] for r in case["Xi"]]
        Y = [[pool[i % len(pool)] for i in r] for r in case["Yi"]]
        if all(isinstance(v, str) for v in pool):
            return np.array(X), np.array(Y)
        if any(isinstance(v, str) for v in pool):
            return np.array(X, dtype=object), np.array(Y, dtype=object)
        return np.array(X, dtype=float), np.array(Y, dtype=float)
    return np.array(case["X"], dtype=float), np.array(case["Y"], dtype=float)


def t_value(case, ctx):
    t = case["kernel"]
    X, Y = arrays(case)
    k = K.make(t)
    ts = K.strip(t)
    X0, Y0 = X.copy(), Y.copy()
    text = repr(k)
    need(near(k(X), K.matrix(ts, X)), "k(X) is %r, by definition %r",
         k(X).tolist(), K.matrix(ts, X).tolist())
    need(near(k(X, Y), K.matrix(ts, X, Y)), "k(X, Y) is %r, by definition %r",
         k(X, Y).tolist(), K.matrix(ts, X, Y).tolist())
    need(near(k(X, Y), k(Y, X).T), "k(X, Y) is not k(Y, X) transposed")
    need(near(k.diag(X), np.diag(K.matrix(ts, X))), "diag(X) is %r, by "
         "definition %r", k.diag(X), np.diag(K.matrix(ts, X)))
    need(np.array_equal(X, X0) and np.array_equal(Y, Y0) and
         repr(k) == text, "evaluation changed its arguments")
    names = [l["k"] for l in leaves(ts)]
    stat = "dot" not in names
    need(bool(k.is_stationary()) == stat, "is_stationary() is %r",
         k.is_stationary())
    if "ess" not in names and not broken_power(ts):
        w = np.linalg.eigvalsh(k(X))
        need(w[0] >= -1e-9 * max(1.0, w[-1]), "not positive semidefinite: %r",
             w)
    # hyperparameters and their gradient
    th = thetas(ts)
    need(np.allclose(k.theta, th, rtol=1e-9, atol=1e-12), "theta is %r, "
         "expected %r", k.theta, th)
    need(k.bounds.shape == (len(th), 2), "bounds of shape %r",
         k.bounds.shape)
    k1, g = k(X, eval_gradient=True)
    need(near(k1, k(X)), "the value depends on eval_gradient")
    need(g.shape == (len(X), len(X), len(th)), "gradient of shape %r for %d "
         "hyperparameters", g.shape, len(th))
    h = 1e-4
    for j in range(len(th)):
        def at(d):
            v = list(th)
            v[j] += d
            return K.matrix(with_thetas(ts, v), X)
        n1 = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)
        sc = max(1.0, np.abs(n1).max(), np.abs(k1).max())
        need(np.abs(g[:, :, j] - n1).max() <= 1e-5 * sc,
             "gradient by hyperparameter %d is %r, by differences %r", j,
             g[:, :, j].tolist(), n1.tolist())
    # another theta
    th2 = [v + d for v, d in zip(th, case["dth"] * len(th))]
    k2 = k.clone_with_theta(np.array(th2))
    t2 = with_thetas(ts, list(th2))
    need(near(k2(X, Y), K.matrix(t2, X, Y)), "clone_with_theta(%r) has other "
         "values", th2)
    need(repr(k) == text and np.allclose(k.theta, th), "clone_with_theta "
         "changed the kernel")
    need(close_tree(K.read(k2), t2), "clone_with_theta gives %r", K.read(k2))
    c = copy.deepcopy(k)
    need(c == k and np.allclose(c(X), k(X), rtol=1e-9, atol=1e-12), "a copy is different")
    for n in set(names):
        ctx.label(n)
    ctx.nontrivial(len(X) > 1 and len(th) > 1)


def close_tree(a, b):
    if set(a) != set(b):
        return False
    for c in a:
        if isinstance(a[c], dict):
            if not close_tree(a[c], b[c]):
                return False
        elif isinstance(a[c], str):
            if a[c] != b[c]:
                return False
        elif not np.allclose(a[c], b[c], rtol=1e-9):
            return False
    return True


def strat_value():
    from hypothesis import strategies as st
    return st.integers(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "kernel": K.strat(d, 2, white=True, frac=True),
        "X": K.points(1, 5, d), "Y": K.points(1, 4, d),
        "dth": st.lists(st.floats(-1, 1, width=32), min_size=4,
                        max_size=4)}))


def strat_hamming():
    from hypothesis import strategies as st
    pools = [["a", "b", "c"], [0.0, 1.0, 2.5], ["a", 1, 2.0, True],
             ["aa", "a", ""], [1, 2, 3, 4]]
    return st.integers(1, 4).flatmap(lambda d: st.fixed_dictionaries({
        "kernel": K.strat(d, 1, ("ham", "ham", "const"), white=True).filter(
            lambda t: K.contains(t, "ham")),
        "Xi": st.lists(st.lists(st.integers(0, 3), min_size=d, max_size=d),
                       min_size=1, max_size=5),
        "Yi": st.lists(st.lists(st.integers(0, 3), min_size=d, max_size=d),
                       min_size=1, max_size=4),
        "cat": st.sampled_from(pools),
        "dth": st.lists(st.floats(-1, 1, width=32), min_size=4,
                        max_size=4)}))


def t_fixed(case, ctx):
    """Hyperparameters that are fixed have no place in theta, bounds and
    gradient, wherever the kernel stands."""
    from skopt.learning.gaussian_process import kernels as S
    l = case["l"]
    d = case["d"]
    if isinstance(l, list):
        l = (l * d)[:d]
    bd = "fixed" if case["fix"] else (1e-3, 1e3)
    name = case["k"]
    if name == "ham":
        k = S.HammingKernel(l, length_scale_bounds=bd)
    elif name == "rbf":
        k = S.RBF(l, length_scale_bounds=bd)
    else:
        k = S.Matern(l, length_scale_bounds=bd, nu=case["nu"])
    n1 = 0 if case["fix"] else (d if isinstance(l, list) and d > 1 else 1)
    X = np.array(case["X"], dtype=float)[:, :d]
    for kk, n, in ((k, n1), (k + S.WhiteKernel(0.1), n1 + 1),
                   (S.ConstantKernel(2.0) * k, n1 + 1),
                   (2.0 * k, n1 + 1), (k * k, 2 * n1), (k ** 2, n1)):
        need(len(kk.theta) == n and kk.bounds.shape[0] in (n, 0 if n == 0
                                                           else n),
             "%r has %d hyperparameters, not %d", kk, len(kk.theta), n)
        v, g = kk(X, eval_gradient=True)
        need(near(v, kk(X)), "value")
        need(g.shape == (len(X), len(X), n), "%r: gradient of shape %r for "
             "%d free hyperparameters", kk, g.shape, n)
    ctx.label("%s %s" % (name, "fixed" if case["fix"] else "free"))
    ctx.nontrivial(case["fix"])


def strat_fixed():
    from hypothesis import strategies as st
    sc = st.sampled_from([0.3, 1.0, 2.0])
    return st.fixed_dictionaries({
        "k": st.sampled_from(["ham", "rbf", "matern"]),
        "nu": st.sampled_from([0.5, 1.5, 2.5]),
        "d": st.integers(1, 3), "l": st.one_of(sc, st.lists(
            sc, min_size=3, max_size=3)),
        "fix": st.booleans(), "X": K.points(1, 4, 3)})


PROP = Prop("C18", [
    Sub("values", strat_value, t_value, 2500, 50000, 4,
        "kernel expressions of depth up to 2 in 1-3 dimensions; non-trivial: "
        "several points and hyperparameters"),
    Sub("hamming", strat_hamming, t_value, 1200, 20000, 3,
        "kernels of categories (strings, numbers, mixtures); non-trivial: "
        "several points and hyperparameters"),
    Sub("fixed", strat_fixed, t_fixed, 300, 4000, 1,
        "non-trivial: hyperparameters fixed"),
])
