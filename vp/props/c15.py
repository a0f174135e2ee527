"""C15 acquisition functions are their definitions."""
import math

import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


class Fixed:
    """A model that predicts given means and standard deviations."""

    def __init__(self, mu, sd):
        self.mu = np.asarray(mu, dtype=float)
        self.sd = np.asarray(sd, dtype=float)

    def predict(self, X, return_std=False):
        i = np.asarray(X)[:, 0].astype(int)
        return (self.mu[i].copy(), self.sd[i].copy()) if return_std \
            else self.mu[i].copy()


class Two:
    def __init__(self, a, b):
        self.estimators_ = [a, b]


def close(a, b, scale):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <=
                  1e-9 * np.abs(b) + 1e-12 * scale)


def t_values(case, ctx):
    from skopt.acquisition import (_gaussian_acquisition, gaussian_ei,
                                   gaussian_lcb, gaussian_pi)
    rows = case["rows"]
    mu = [r[0] for r in rows]
    sd = [r[1] for r in rows]
    tm = [r[2] for r in rows]
    ts = [r[3] for r in rows]
    y_opt, xi, kappa = case["y_opt"], case["xi"], case["kappa"]
    X = np.arange(len(rows), dtype=float)[:, None]
    model = Fixed(mu, sd)
    scale = max([abs(y_opt), xi] + [abs(v) for v in mu + sd])
    for name in ("LCB", "EI", "PI", "EIps", "PIps"):
        m = Two(model, Fixed(tm, ts)) if name.endswith("ps") else model
        got = _gaussian_acquisition(X, m, y_opt=y_opt, acq_func=name,
                                    acq_func_kwargs={"xi": xi,
                                                     "kappa": kappa})
        want = np.array([M.acq_value(name, mu[i], sd[i], y_opt, xi, kappa,
                                     tm[i], ts[i])
                         for i in range(len(rows))])
        f = np.array([math.exp(-tm[i] + 0.5 * ts[i] ** 2)
                      for i in range(len(rows))]).max() \
            if name.endswith("ps") else 1.0
        sc = scale * f if not name.startswith("PI") else f
        need(got.shape == (len(rows),) and close(got, want, sc),
             "%s of mean %r, std %r (best %r, xi %r, kappa %r, log time %r, "
             "%r): %r, by definition %r", name, mu, sd, y_opt, xi, kappa, tm,
             ts, got.tolist(), want.tolist())
        # defaults are xi=0.01 and kappa=1.96
        got = _gaussian_acquisition(X, m, y_opt=y_opt, acq_func=name)
        want = np.array([M.acq_value(name, mu[i], sd[i], y_opt, 0.01, 1.96,
                                     tm[i], ts[i])
                         for i in range(len(rows))])
        need(close(got, want, sc), "%s with default parameters", name)
    ei = gaussian_ei(X, model, y_opt, xi)
    pi = gaussian_pi(X, model, y_opt, xi)
    lcb = gaussian_lcb(X, model, kappa)
    need(close(-ei, [M.acq_value("EI", a, b, y_opt, xi)
                     for a, b in zip(mu, sd)], scale), "gaussian_ei")
    need(close(-pi, [M.acq_value("PI", a, b, y_opt, xi)
                     for a, b in zip(mu, sd)], 1.0), "gaussian_pi")
    need(close(lcb, [M.acq_value("LCB", a, b, y_opt, xi, kappa)
                     for a, b in zip(mu, sd)], scale), "gaussian_lcb")
    need(np.all(ei >= -1e-12 * scale), "negative expected improvement %r", ei)
    need(np.all((pi >= 0) & (pi <= 1)), "probability %r", pi)
    # one row at a time gives the same
    for i in range(len(rows)):
        need(close(gaussian_ei(X[i:i + 1], model, y_opt, xi), ei[i:i + 1],
                   scale), "EI of one row differs from the batch")
    if any(s == 0 for s in sd):
        ctx.label("zero std")
    ctx.label("kappa inf" if kappa == "inf" else "kappa")
    ctx.nontrivial(len(rows) > 1 and np.any(ei > 1e-9 * scale))


def strat_values():
    from hypothesis import strategies as st

    def num(a):
        return st.one_of(st.floats(-a, a, allow_nan=False, width=32),
                         st.integers(-3, 3).map(float))
    pos = st.one_of(st.just(0.0), st.sampled_from([
        1e-12, 1e-9, 1e-7, 1e-6, 3e-5, 1e-4, 1e-3]), st.floats(2.0**-10, 10, width=32),
                    st.floats(2.0**-10, 1, width=32))
    return st.fixed_dictionaries({
        "rows": st.lists(st.tuples(num(20), pos, num(4),
                                   st.floats(0, 3, width=32)).map(list),
                         min_size=1, max_size=6),
        "y_opt": num(20),
        "xi": st.sampled_from([0.0, 0.01, 0.5, 3.0]),
        "kappa": st.one_of(st.sampled_from([0.0, 1.96, "inf", 50.0]),
                           st.floats(0, 10, width=32))})


def t_order(case, ctx):
    """How the functions rank: less mean is better, more doubt is better."""
    from skopt.acquisition import (gaussian_ei, gaussian_lcb, gaussian_pi)
    y, xi = case["y_opt"], case["xi"]
    a, b = sorted(case["mu"])
    s1, s2 = sorted(case["sd"])
    X = np.array([[0.0], [1.0]])
    m = Fixed([a, b], [s1, s1])
    tiny = 1e-12 * max(1.0, abs(a), abs(b), abs(y))
    for fn, name in ((gaussian_ei, "EI"), (gaussian_pi, "PI")):
        v = fn(X, m, y, xi)
        need(v[0] >= v[1] - tiny, "%s prefers the worse mean", name)
    v = gaussian_lcb(X, m, case["kappa"])
    need(v[0] <= v[1], "LCB prefers the worse mean")
    m = Fixed([a, a], [s1, s2])
    v = gaussian_ei(X, m, y, xi)
    need(v[1] >= v[0] - tiny, "EI prefers the smaller doubt")
    v = gaussian_lcb(X, m, case["kappa"])
    need(v[1] <= v[0], "LCB prefers the smaller doubt")
    v = gaussian_lcb(X, m, "inf")
    need(v[1] <= v[0] and np.allclose(v, [-s1, -s2]), "pure exploration")
    # shift and scale
    c = case["shift"]
    e0 = gaussian_ei(X, Fixed([a, b], [s1, s2]), y, xi)
    e1 = gaussian_ei(X, Fixed([a + c, b + c], [s1, s2]), y + c, xi)
    need(np.allclose(e0, e1, rtol=1e-6, atol=1e-9 * max(1, abs(c))),
         "EI changes with the origin of the objective")
    k = case["scale"]
    e2 = gaussian_ei(X, Fixed([a * k, b * k], [s1 * k, s2 * k]), y * k,
                     xi * k)
    need(np.allclose(e0 * k, e2, rtol=1e-7, atol=1e-12 * k),
         "EI does not scale with the objective")
    p0 = gaussian_pi(X, Fixed([a, b], [s1, s2]), y, xi)
    p1 = gaussian_pi(X, Fixed([a * k, b * k], [s1 * k, s2 * k]), y * k,
                     xi * k)
    need(np.allclose(p0, p1, rtol=1e-7, atol=1e-12), "PI changes with the "
         "unit of the objective")
    ctx.nontrivial(a < b and s1 < s2)


def strat_order():
    from hypothesis import strategies as st
    f = st.floats(-5, 5, width=32)
    p = st.floats(0.0625, 4, width=32)
    return st.fixed_dictionaries({
        "mu": st.lists(f, min_size=2, max_size=2),
        "sd": st.lists(p, min_size=2, max_size=2), "y_opt": f,
        "xi": st.sampled_from([0.0, 0.01, 1.0]),
        "kappa": st.floats(0, 5, width=32),
        "shift": st.floats(-50, 50, width=32),
        "scale": st.sampled_from([0.5, 2.0, 10.0])})


def t_errors(case, ctx):
    from skopt.acquisition import _gaussian_acquisition, gaussian_ei
    m = Fixed([0.0] * 3, [1.0] * 3)

    def raises(fn, what):
        try:
            fn()
        except ValueError:
            return
        need(False, "no ValueError for %s", what)
    X1 = np.arange(case["n"], dtype=float)
    raises(lambda: _gaussian_acquisition(X1, m, 0.0, case["name"]),
           "one-dimensional X")
    raises(lambda: _gaussian_acquisition(X1[:, None], m, 0.0, case["bad"]),
           "acquisition function %r" % case["bad"])

    class Col(Fixed):
        def predict(self, X, return_std=False):
            a, b = super().predict(X, True)
            return a[:, None], b
    raises(lambda: gaussian_ei(X1[:, None], Col([0.0] * 3, [1.0] * 3), 0.0),
           "a model trained on a column vector")
    ctx.nontrivial()


def strat_errors():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "n": st.integers(1, 3),
        "name": st.sampled_from(["LCB", "EI", "PI"]),
        "bad": st.sampled_from(["", "ei", "gp_hedge", "UCB", "EIs"])})


PROP = Prop("C15", [
    Sub("values", strat_values, t_values, 3000, 80000, 4,
        "predictions of 1-6 points (mean, std, log time) and parameters, "
        "against the closed forms by math.erfc; non-trivial: several points "
        "and some improvement"),
    Sub("order", strat_order, t_order, 2000, 40000, 3,
        "two predictions; non-trivial: different means and stds"),
    Sub("errors", strat_errors, t_errors, 60, 300, 1, "all non-trivial"),
])
