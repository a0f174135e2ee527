"""C19 forests and quantile regressors: what mean and std stand for."""
import math
import warnings

import numpy as np

from .. import gens as G
from ..core import Prop, Reject, Sub, need


def data(case):
    rng = np.random.RandomState(case["dseed"])
    n, d = case["n"], case["d"]
    if case["grid"]:
        X = rng.randint(0, 4, size=(n, d)).astype(float)
    else:
        X = rng.uniform(-1, 1, size=(n, d))
    y = np.round(3 * X[:, 0] + rng.standard_normal(n), 1)
    if case["ties"]:
        y = np.round(y)
    y = y * case["ys"] + case["yo"]
    Q = np.vstack([rng.uniform(-1.5, 4, size=(6, d)), X[:3]])
    return X, y, Q


def base():
    from hypothesis import strategies as st
    return {"dseed": st.integers(0, 10 ** 6), "n": st.integers(2, 25),
            "d": st.integers(1, 3), "grid": st.booleans(),
            "ties": st.booleans(),
            "ys": st.sampled_from([1.0, 0.1, 100.0]),
            "yo": st.sampled_from([0.0, -10.0, 20.0]),
            "seed": st.integers(0, 1000)}


def make_forest(case, **kw):
    from skopt.learning import ExtraTreesRegressor, RandomForestRegressor
    cls = {"ET": ExtraTreesRegressor, "RF": RandomForestRegressor}[case["m"]]
    a = dict(n_estimators=case["trees"], random_state=case["seed"],
             min_samples_leaf=case["leaf"], max_depth=case["depth"])
    if case["mv"] is not None:
        a["min_variance"] = case["mv"] * case["ys"] ** 2
    if case["boot"] is not None:
        a["bootstrap"] = case["boot"]
    if case["mf"] is not None:
        a["max_features"] = case["mf"]
    a.update(case.get("more", {}))
    a.update(kw)
    return cls(**a)


def t_forest(case, ctx):
    from sklearn.base import clone
    X, y, Q = data(case)
    f = make_forest(case)
    boot = case["boot"] if case["boot"] is not None else case["m"] == "RF"
    X0, y0, Q0 = X.copy(), y.copy(), Q.copy()
    need(f.fit(X, y) is f, "fit does not return the regressor")
    m, s = f.predict(Q, return_std=True)
    m1 = f.predict(Q)
    need(G.close_arr(m, m1), "the mean depends on return_std")
    need(np.array_equal(X, X0) and np.array_equal(y, y0) and
         np.array_equal(Q, Q0), "fit or predict changed its arguments")
    need(len(f.estimators_) == case["trees"], "%d trees",
         len(f.estimators_))
    mv = (case["mv"] or 0.0) * case["ys"] ** 2
    means = np.zeros((len(f.estimators_), len(Q)))
    var = np.zeros_like(means)
    low = False
    for i, t in enumerate(f.estimators_):
        leaf_q = t.apply(Q)
        if boot:
            # the sample of a tree is not public: its leaves' statistics are
            means[i] = t.tree_.value[leaf_q].ravel()
            var[i] = t.tree_.impurity[leaf_q]
        else:
            leaf_x = t.apply(X)
            for j, l in enumerate(leaf_q):
                v = y[leaf_x == l]
                means[i, j] = v.mean()
                var[i, j] = v.var()
        low = low or np.any(var[i] < mv)
    var = np.maximum(var, mv)
    mean = means.mean(axis=0)
    total = var.mean(axis=0) + means.var(axis=0)
    sc = np.abs(y).max() + 1e-300
    need(np.allclose(m, mean, rtol=1e-9, atol=1e-9 * sc),
         "mean %r, of the leaves %r", m.tolist(), mean.tolist())
    need(np.all(s >= 0) and np.all(np.abs(s ** 2 - total) <=
                                   1e-9 * total + 1e-11 * sc ** 2),
         "std %r, by the law of total variance %r", s.tolist(),
         np.sqrt(total).tolist())
    need(np.all(s ** 2 >= mv * (1 - 1e-9) - 1e-11 * sc ** 2), "variance below min_variance")
    for i in range(len(Q)):
        a, b = f.predict(Q[i:i + 1], return_std=True)
        need(np.allclose(a, m[i]) and abs(b[0] ** 2 - s[i] ** 2) <=
             1e-11 * sc ** 2, "prediction of one point differs from the batch")
    # lists do as well as arrays
    a, b = f.predict(Q.tolist(), return_std=True)
    need(np.allclose(a, m) and np.allclose(b, s), "predicting a list")
    # parameters: as given, also in a clone, which finds the same
    p = f.get_params()
    for n, v in dict(n_estimators=case["trees"], min_variance=mv,
                     min_samples_leaf=case["leaf"], max_depth=case["depth"],
                     bootstrap=boot).items():
        need(p[n] == v, "parameter %s is %r", n, p[n])
    for n, v in case.get("more", {}).items():
        need(p[n] == v and all(t.get_params().get(n, v) == v
                               for t in f.estimators_),
             "parameter %s=%r is not that of the trees", n, v)
    # the trees are those of scikit-learn's forest
    import sklearn.ensemble as E
    kw = {n: v for n, v in p.items() if n != "min_variance"}
    ref = {"ET": E.ExtraTreesRegressor,
           "RF": E.RandomForestRegressor}[case["m"]](**kw).fit(X, y)
    need(np.allclose(m, ref.predict(Q), rtol=1e-9, atol=1e-9 * sc),
         "mean %r, of the same forest in scikit-learn %r", m.tolist(),
         ref.predict(Q).tolist())
    g = clone(f).fit(X, y)
    a, b = g.predict(Q, return_std=True)
    need(np.allclose(a, m, rtol=1e-12) and np.allclose(b, s, rtol=1e-9),
         "the same seed grows another forest")
    g = clone(f).set_params(n_jobs=2).fit(X, y)
    a, b = g.predict(Q, return_std=True)
    need(np.allclose(a, m) and np.allclose(b ** 2, s ** 2,
                                           atol=1e-11 * sc ** 2),
         "n_jobs changes the predictions")
    ctx.label(case["m"], "bootstrap" if boot else "all data")
    if low and mv:
        ctx.label("floor")
    ctx.nontrivial(case["trees"] > 1 and np.any(total > 1e-6 * sc ** 2))


def strat_forest():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        base(), m=st.sampled_from(["ET", "RF"]), trees=st.integers(1, 6),
        leaf=st.integers(1, 4), depth=st.sampled_from([None, None, 1, 3]),
        mv=st.sampled_from([None, 0.0, 0.01, 0.5, 5.0]),
        boot=st.sampled_from([None, True, False, False]),
        mf=st.sampled_from([None, 1, 0.5, "sqrt", "log2"]),
        more=st.fixed_dictionaries({}, optional={
            "min_samples_split": st.sampled_from([2, 5, 0.5]),
            "min_weight_fraction_leaf": st.sampled_from([0.0, 0.2, 0.4]),
            "max_leaf_nodes": st.sampled_from([2, 5]),
            "min_impurity_decrease": st.sampled_from([0.0, 0.1])})))


def t_criterion(case, ctx):
    """A std only where the impurity is a variance."""
    X, y, Q = data(dict(case, yo=300.0))
    f = make_forest(case, criterion=case["crit"]).fit(X, y)
    f.predict(Q)
    try:
        f.predict(Q, return_std=True)
    except ValueError:
        pass
    else:
        need(False, "a std from the impurity %r", case["crit"])
    ctx.nontrivial()


def strat_criterion():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        base(), m=st.sampled_from(["ET", "RF"]), trees=st.integers(1, 2),
        leaf=st.just(1), depth=st.just(2), mv=st.none(), boot=st.none(),
        mf=st.none(), ys=st.just(1.0),
        crit=st.sampled_from(["absolute_error", "friedman_mse"])))


def t_offset(case, ctx):
    """The spread of values far from zero is what it is."""
    case = dict(case, ys=1.0, boot=False, mf=None)
    X, y, Q = data(case)
    f = make_forest(case).fit(X, y)
    m, s = f.predict(Q, return_std=True)
    means = np.array([t.predict(Q) for t in f.estimators_])
    # the variance in a leaf is scikit-learn's
    var = np.array([t.tree_.impurity[t.apply(Q)] for t in f.estimators_])
    var = np.maximum(var, case["mv"] or 0.0)
    total = var.mean(axis=0) + means.var(axis=0)
    e = 1e-13 * np.abs(y).max()
    need(np.allclose(m, means.mean(axis=0), rtol=1e-13, atol=0), "mean")
    # exact to a part of the spread, not of the values
    need(np.all(np.abs(s ** 2 - total) <= 1e-6 * np.maximum(total, y.var()) +
                e * (np.sqrt(total) + e)), "std %r, by the law of total variance %r",
        s.tolist(), np.sqrt(total).tolist())
    ctx.label("%g" % case["yo"])
    ctx.nontrivial(len(f.estimators_) > 1 and bool(np.any(
        means.var(axis=0) > 0)))


def strat_offset():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        base(), m=st.sampled_from(["ET", "RF"]), trees=st.integers(1, 6),
        yo=st.sampled_from([0.0, 1e4, -1e6, 1e7, 1e8, -1e9]),
        leaf=st.integers(1, 3), depth=st.sampled_from([None, 2]),
        mv=st.sampled_from([None, 0.01, 0.5])))


def t_gbrt(case, ctx):
    from sklearn.base import clone
    from sklearn.ensemble import GradientBoostingRegressor
    from skopt.learning import GradientBoostingQuantileRegressor
    X, y, Q = data(case)
    qs = case["q"]
    b = None
    if case["base"]:
        b = GradientBoostingRegressor(
            loss="quantile", n_estimators=case["stages"],
            max_depth=case["depth"], subsample=case["sub"],
            learning_rate=case["lr"], random_state=case["bseed"])
        before = {k: repr(v) for k, v in b.get_params().items()}
    kw = {} if qs is None else {"quantiles": {
        "list": list, "tuple": tuple, "array": np.array}[case["kind"]](qs)}
    g = GradientBoostingQuantileRegressor(
        base_estimator=b, random_state=case["seed"], n_jobs=case["jobs"],
        **kw)
    given = dict(g.get_params(deep=False))
    qs = [0.16, 0.5, 0.84] if qs is None else qs
    need(g.fit(X, y) is g, "fit does not return the regressor")
    now = g.get_params(deep=False)
    need(all(now[k] is given[k] for k in given), "fit changed a parameter")
    need(list(g.quantiles) == list(qs), "quantiles changed")
    if b is not None:
        need(before == {k: repr(v) for k, v in b.get_params().items()},
             "fit changed the estimator it was given")
    allq = g.predict(Q, return_quantiles=True)
    need(allq.shape == (len(Q), len(qs)), "quantiles of shape %r",
         allq.shape)
    # each by its own
    need(len(g.regressors_) == len(qs), "%d regressors", len(g.regressors_))
    for i, q in enumerate(qs):
        r = g.regressors_[i]
        need(r.alpha == q and r.loss == "quantile", "regressor %d is of "
             "quantile %r", i, r.alpha)
        need(G.close_arr(r.predict(Q), allq[:, i]), "column %d is not the "
             "%r quantile", i, q)
        if b is not None:
            p = r.get_params()
            for n in ("n_estimators", "max_depth", "subsample",
                      "learning_rate"):
                need(p[n] == b.get_params()[n], "regressor of %r has %s=%r",
                     q, n, p[n])
    if 0.5 in qs:
        need(G.close_arr(g.predict(Q), allq[:, qs.index(0.5)]),
             "the prediction is not the median")
    if all(v in qs for v in (0.16, 0.5, 0.84)):
        m, s = g.predict(Q, return_std=True)
        need(G.close_arr(m, allq[:, qs.index(0.5)]), "the mean is not the "
             "median")
        lo, hi = allq[:, qs.index(0.16)], allq[:, qs.index(0.84)]
        need(np.all(s >= 0), "negative std %r", s)
        need(np.allclose(s, np.abs(hi - lo) / 2), "std %r, half of the "
             "distance of the quantiles %r", s, np.abs(hi - lo) / 2)
        if np.any(hi < lo):
            ctx.label("crossing")
        ctx.nontrivial(np.any(s > 0))
    else:
        try:
            g.predict(Q, return_std=True)
        except ValueError:
            ctx.label("no std")
            ctx.nontrivial(len(qs) > 1)
        else:
            need(False, "a std from quantiles %r", qs)
    # where nothing is left to chance: boosting with this quantile's loss
    if X.shape[1] == 1 and (b is None or case["sub"] == 1.0):
        for i, q in enumerate(qs):
            r = clone(b) if b is not None else GradientBoostingRegressor()
            r.set_params(loss="quantile", alpha=q).fit(X, y)
            need(np.allclose(r.predict(Q), allq[:, i]), "predictions of "
                 "quantile %r are not those of boosting its loss", q)
        ctx.label("differential")
    # the same seed, the same predictions; in parallel too
    h = clone(g).set_params(n_jobs=1).fit(X, y)
    need(G.close_arr(h.predict(Q, return_quantiles=True), allq) or
         case["jobs"] > 1 and case["sub"] < 1,
         "the same seed fits another regressor")


def strat_gbrt():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        base(), n=st.integers(4, 25), q=st.sampled_from([
            None, [0.16, 0.5, 0.84], [0.84, 0.5, 0.16], [0.5],
            [0.1, 0.16, 0.5, 0.84, 0.9], [0.25, 0.5, 0.75], [0.5, 0.16],
            [0.84, 0.16, 0.3, 0.5]]),
        kind=st.sampled_from(["list", "list", "tuple", "array"]),
        base=st.booleans(), stages=st.sampled_from([5, 20]),
        depth=st.integers(1, 3), sub=st.sampled_from([1.0, 0.8]),
        lr=st.sampled_from([0.1, 0.3]), bseed=st.sampled_from([None, 3]),
        jobs=st.sampled_from([1, 1, 2])))


def t_gbrt_errors(case, ctx):
    from sklearn.ensemble import (GradientBoostingRegressor,
                                  RandomForestRegressor)
    from skopt.learning import GradientBoostingQuantileRegressor
    X, y, Q = data(case)
    b = {"rf": RandomForestRegressor(),
         "ls": GradientBoostingRegressor(loss="squared_error"),
         "default": GradientBoostingRegressor(),
         "huber": GradientBoostingRegressor(loss="huber")}[case["bad"]]
    try:
        GradientBoostingQuantileRegressor(base_estimator=b).fit(X, y)
    except ValueError:
        pass
    else:
        need(False, "quantiles from %r", b)
    ctx.nontrivial()


def strat_gbrt_errors():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        base(), bad=st.sampled_from(["rf", "ls", "default", "huber"])))


PROP = Prop("C19", [
    Sub("forest", strat_forest, t_forest, 900, 25000, 4,
        "forests of 1-6 trees on 2-25 points; non-trivial: several trees and "
        "some variance"),
    Sub("offset", strat_offset, t_offset, 300, 6000, 2,
        "forests on values far from zero; non-trivial: trees differ"),
    Sub("criterion", strat_criterion, t_criterion, 60, 600, 1,
        "all non-trivial"),
    Sub("gbrt", strat_gbrt, t_gbrt, 250, 8000, 4,
        "quantile regressors; non-trivial: a std that is not zero, or several "
        "quantiles without one"),
    Sub("gbrt_errors", strat_gbrt_errors, t_gbrt_errors, 40, 300, 1,
        "all non-trivial"),
])
