"""C17 the Gaussian process: textbook posterior, likelihood, symmetries."""
import copy
import math
import warnings

import numpy as np

from .. import kern as K
from ..core import Prop, Reject, Sub, need


def data(case):
    X = np.array(case["X"], dtype=float)
    y = np.array(case["y"][:len(X)], dtype=float) * case["ys"] + case["yo"]
    return X, y


def make(case, **kw):
    from skopt.learning import GaussianProcessRegressor
    a = dict(kernel=K.make(case["kernel"]), optimizer=None,
             normalize_y=case["norm"], noise=case["noise"],
             alpha=alpha_of(case), random_state=case.get("seed", 0))
    a.update(kw)
    return GaussianProcessRegressor(**a)


def alpha_of(case):
    a = case["alpha"]
    if isinstance(a, list):
        return np.array(a[:len(case["X"])])
    return a


def alike(a, b, y):
    """Equal for two computations of the same numbers (the last bits depend
    on how the data happen to be aligned, and a search amplifies them)."""
    return np.shape(a) == np.shape(b) and bool(np.allclose(
        a, b, rtol=1e-4, atol=1e-4 * (np.ptp(y) + 1e-3 * np.abs(y).max())))


def diag_noise(case, noise):
    return np.asarray(alpha_of(case), dtype=float) + (noise or 0.0)


def normal(case, y):
    if not case["norm"]:
        return y, 0.0, 1.0
    m, s = y.mean(), y.std()
    if s < 10 * np.finfo(float).eps * max(1.0, abs(m)):
        s = 1.0
    return (y - m) / s, m, s


def conditioned(case, t, X, noise):
    C = K.matrix(t, X) + np.diag(np.broadcast_to(noise, (len(X),)))
    w = np.linalg.eigvalsh(C)
    if w[0] < 1e-7 * max(w[-1], 1e-300):
        raise Reject()
    return w[-1] / w[0]


def t_posterior(case, ctx):
    X, y = data(case)
    if case["norm"] and 0 < y.std() < 1e-9 * max(1.0, abs(y.mean())):
        raise Reject()
    t = K.strip(case["kernel"])
    white = {"gaussian": 1.0, None: 0.0}.get(case["noise"], case["noise"])
    dn = diag_noise(case, white)
    cond = conditioned(case, t, X, dn)
    gp = make(case)
    before = repr(gp.kernel), copy.deepcopy(gp.get_params())
    X0, y0 = X.copy(), y.copy()
    if case.get("before"):
        # the regressor was fitted on other data of the same size before
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                gp.fit(np.sqrt(np.abs(X[::-1])) * 1.5 + X, y * y + 1.0)
            except np.linalg.LinAlgError:
                gp = make(case)
    need(gp.fit(X, y) is gp, "fit does not return the regressor")
    need(np.array_equal(X, X0) and np.array_equal(y, y0),
         "fit changed the data")
    need(repr(gp.kernel) == before[0], "fit changed the kernel parameter")
    yn, m0, s0 = normal(case, y)
    Q = np.vstack([np.array(case["Q"], dtype=float), X[:1]])
    m, v = K.posterior(t, X, yn, dn, Q)
    m, v = m * s0 + m0, v * s0 ** 2
    got, cov = gp.predict(Q, return_cov=True)
    got2, std = gp.predict(Q, return_std=True)
    got3 = gp.predict(Q)
    need(alike(got, got2, y) and alike(got, got3, y),
         "the mean depends on what else is asked for")
    pv = np.array([K.value(t, q, q, False) for q in Q]).max() * s0 ** 2
    eps = 1e-13 * cond
    need(np.all(np.abs(got - m) <= (1e-9 + eps) *
                max(np.abs(m).max(), np.abs(y).max(), 1e-9)),
         "mean %r, textbook %r", got.tolist(), m.tolist())
    need(np.all(np.abs(cov - v) <= (1e-9 + eps) * pv),
         "covariance %r, textbook %r", cov.tolist(), v.tolist())
    need(np.allclose(cov, cov.T, atol=(1e-9 + eps) * pv), "covariance not "
         "symmetric")
    var = np.maximum(np.diag(v), 0)
    need(np.all(np.abs(std ** 2 - var) <= (1e-8 + eps) * pv) and
         np.all(std >= 0),
         "std %r, textbook %r", std.tolist(), np.sqrt(var).tolist())
    # one by one
    for i in range(len(Q)):
        a, b = gp.predict(Q[i:i + 1], return_std=True)
        need(np.allclose(a, got[i], rtol=1e-7, atol=1e-9 * np.abs(y).max())
             and abs(b[0] ** 2 - std[i] ** 2) <= (1e-8 + eps) * pv,
             "prediction of one point differs from the batch")
    # the noise that was found, and the likelihood
    if case["noise"] is None:
        need(gp.noise_ is None, "noise_ %r without noise", gp.noise_)
    else:
        need(math.isclose(gp.noise_, white), "noise_ %r, not %r", gp.noise_,
             white)
    L = K.lml(t, X, yn, dn)
    need(abs(gp.log_marginal_likelihood_value_ - L) <=
         1e-7 * max(1.0, abs(L)) + eps * abs(L),
         "log_marginal_likelihood_value_ %r, textbook %r",
         gp.log_marginal_likelihood_value_, L)
    # again
    gp.fit(X, y)
    a, b = gp.predict(Q, return_std=True)
    need(alike(a, got, y) and alike(b, std, y),
         "fitting again on the same data changes the predictions")
    ctx.label("noise %s" % (case["noise"],), "norm %s" % case["norm"])
    ctx.nontrivial(len(X) > 1 and case["y"][0] != case["y"][1])


def strat(depth=1, n_max=8, noise=(None, "gaussian", 0.01, 0.5)):
    from hypothesis import strategies as st
    small = st.sampled_from([1e-3, 0.1, 1e-5, 1.0])
    return st.integers(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "kernel": K.strat(d, depth),
        "X": K.points(1, n_max, d), "Q": K.points(1, 4, d, -2, 2),
        "y": st.lists(st.floats(-2, 2, width=32), min_size=n_max,
                      max_size=n_max),
        "ys": st.sampled_from([1.0, 0.1, 50.0, 1e4]),
        "yo": st.sampled_from([0.0, 5.0, -100.0]),
        "noise": st.sampled_from(list(noise)), "norm": st.booleans(),
        "before": st.booleans(),
        "alpha": st.one_of(small, st.lists(small, min_size=n_max,
                                           max_size=n_max))}))


def t_prior(case, ctx):
    """Predictions without data are those of the prior."""
    from skopt.learning import GaussianProcessRegressor
    t = case["kernel"]
    gp = GaussianProcessRegressor(kernel=None if t is None else K.make(t),
                                  normalize_y=case["norm"])
    if t is None:
        t = {"k": "rbf", "l": 1.0}
    Q = np.array(case["Q"], dtype=float)
    m, s = gp.predict(Q, return_std=True)
    m2, c = gp.predict(Q, return_cov=True)
    need(np.array_equal(m, np.zeros(len(Q))) and np.array_equal(m, m2) and
         np.array_equal(m, gp.predict(Q)), "prior mean %r", m)
    want = K.matrix(K.strip(t), Q)
    need(np.allclose(c, want, rtol=1e-9, atol=1e-12), "prior covariance")
    need(np.allclose(s ** 2, np.diag(want)), "prior std")
    ctx.nontrivial(len(Q) > 1)


def strat_prior():
    from hypothesis import strategies as st
    return st.integers(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "kernel": st.one_of(K.strat(d, 1, white=True), st.none()),
        "Q": K.points(1, 4, d), "norm": st.booleans()}))


def t_fit(case, ctx):
    """Hyperparameters by maximum likelihood."""
    X, y = data(case)
    if case["norm"] and 0 < y.std() < 1e-9 * max(1.0, abs(y.mean())):
        raise Reject()
    if y.std() < 1e-3 * case["ys"]:
        raise Reject()
    yn, m0, s0 = normal(case, y)
    t = K.strip(case["kernel"])
    white = {"gaussian": 1.0, None: 0.0}.get(case["noise"], case["noise"])
    conditioned(case, t, X, diag_noise(case, white))
    gp = make(case, optimizer="fmin_l_bfgs_b",
              n_restarts_optimizer=case["restarts"])
    first = copy.deepcopy(gp.kernel)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        gp.fit(X, y)
    # l-bfgs-b may give up, with a value that is not that of its argument
    sure = not any("lbfgs" in str(v.message) for v in w)
    need(gp.kernel == first, "fit changed the kernel parameter")
    found = K.read(gp.kernel_)
    if case["noise"] is not None:
        # the white part is kept apart, in noise_
        need(found["k"] == "sum" and found["b"] == {"k": "white", "n": 0.0},
             "kernel_ %r", gp.kernel_)
        found = found["a"]
        if case["noise"] != "gaussian":
            need(math.isclose(gp.noise_, case["noise"]), "noise_ %r",
                 gp.noise_)
        else:
            need(gp.noise_ > 0, "noise_ %r", gp.noise_)
    same_shape(t, found)
    dn = diag_noise(case, gp.noise_)
    cond = conditioned(case, found, X, dn)
    L = K.lml(found, X, yn, dn)
    tol = 1e-6 * max(1.0, abs(L)) + 1e-13 * cond * abs(L)
    need(not sure or abs(L - gp.log_marginal_likelihood_value_) <= tol,
         "log_marginal_likelihood_value_ is %r, that of kernel_ %r and noise "
         "%r is %r", gp.log_marginal_likelihood_value_, found, gp.noise_, L)
    Li = K.lml(t, X, yn, diag_noise(case, white))
    need(not sure or L >= Li - tol - 1e-6 * abs(Li), "the likelihood of the kernel found, "
         "%r, is less than that of the kernel given, %r", L, Li)
    # predictions are those of kernel_ and noise_
    Q = np.array(case["Q"], dtype=float)
    m, v = K.posterior(found, X, yn, dn, Q)
    got, std = gp.predict(Q, return_std=True)
    pv = np.array([K.value(found, q, q, False) for q in Q]).max() * s0 ** 2
    eps = 1e-13 * cond
    need(np.all(np.abs(got - (m * s0 + m0)) <= (1e-8 + eps) *
                max(np.abs(m * s0 + m0).max(), np.abs(y).max())),
         "mean %r, textbook %r", got.tolist(), (m * s0 + m0).tolist())
    need(np.all(np.abs(std ** 2 - np.maximum(np.diag(v), 0) * s0 ** 2) <=
                (1e-7 + eps) * pv), "std %r, textbook variance %r",
         std.tolist(), (np.diag(v) * s0 ** 2).tolist())
    # the same seed finds the same
    if True:
        gp2 = make(case, optimizer="fmin_l_bfgs_b",
                   n_restarts_optimizer=case["restarts"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            gp2.fit(X, y)
        a, b = gp2.predict(Q, return_std=True)
        need(alike(a, got, y) and alike(b, std, y),
             "the same seed finds another kernel")
        # fitting again on other data and back forgets the other data
        gp2 = make(case, optimizer="fmin_l_bfgs_b",
                   n_restarts_optimizer=case["restarts"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                gp2.fit(np.sqrt(np.abs(X[::-1])) * 1.5 + X, -y)
            except np.linalg.LinAlgError:
                pass
            gp2.fit(X, y)
        a, b = gp2.predict(Q, return_std=True)
        need(alike(a, got, y) and alike(b, std, y) and
             (gp2.noise_ is None) == (gp.noise_ is None) and
             (gp.noise_ is None or math.isclose(
                 gp2.noise_, gp.noise_, rel_tol=1e-2, abs_tol=1e-6)),
             "a regressor that was fitted on other data before predicts "
             "otherwise")
    ctx.label("converged" if sure else "gave up")
    ctx.label("gain" if L > Li + 1e-3 else "no gain")
    ctx.nontrivial(L > Li + 1e-3)


def same_shape(a, b):
    need(a["k"] == b["k"], "kernel_ is of another form: %r, %r", a, b)
    for c in ("a", "b"):
        if isinstance(a.get(c), dict):
            same_shape(a[c], b[c])


def strat_fit():
    from hypothesis import strategies as st
    base = strat(1, 7)
    return st.tuples(base, st.sampled_from([0, 0, 1, 2]),
                     st.integers(0, 99)).map(
        lambda t: dict(t[0], restarts=t[1], seed=t[2],
                       alpha=t[0]["alpha"] if isinstance(
                           t[0]["alpha"], float) else 1e-3))


def t_symmetry(case, ctx):
    """Order of the data, unit and origin of the values, shift of X."""
    X, y = data(case)
    if y.std() < 1e-3 * case["ys"]:
        raise Reject()
    t = K.strip(case["kernel"])
    white = {"gaussian": 1.0, None: 0.0}.get(case["noise"], case["noise"])
    cond = conditioned(case, t, X, diag_noise(case, white))
    if cond > 1e5:
        raise Reject()
    Q = np.array(case["Q"], dtype=float)
    gp = make(case).fit(X, y)
    m, s = gp.predict(Q, return_std=True)
    pv = s.max() + 1e-3 * case["ys"]
    tm = 1e-6 * max(np.abs(m).max(), np.abs(y).max())
    p = np.random.RandomState(case["p"]).permutation(len(X))
    kw = {}
    if isinstance(case["alpha"], list):
        kw = {"alpha": alpha_of(case)[p]}
    a, b = make(case, **kw).fit(X[p], y[p]).predict(Q, return_std=True)
    need(np.allclose(a, m, atol=tm) and np.allclose(b, s, atol=1e-4 * pv),
         "predictions depend on the order of the data")
    c, k = case["shift"], case["scale"]
    if case["norm"]:
        a, b = make(case).fit(X, y * k + c).predict(Q, return_std=True)
        need(np.allclose(a, m * k + c, atol=k * tm + 1e-9 * abs(c)) and
             np.allclose(b, s * k, atol=1e-4 * pv * k),
             "with normalize_y, predictions do not follow the unit of y: %r "
             "%r, expected %r %r", a, b, m * k + c, s * k)
    else:
        a, b = make(case).fit(X, y * k).predict(Q, return_std=True)
        need(np.allclose(a, m * k, atol=k * tm) and
             np.allclose(b, s, atol=1e-4 * pv),
             "the mean is not linear in y")
    if not K.contains(t, "dot"):
        a, b = make(case).fit(X + c, y).predict(Q + c, return_std=True)
        need(np.allclose(a, m, atol=10 * tm) and
             np.allclose(b, s, atol=1e-3 * pv),
             "a stationary kernel is not invariant to a shift of X")
    if not case["norm"]:
        # more data never adds doubt
        n = len(X) - 1
        if n and not isinstance(case["alpha"], list):
            b = make(case).fit(X[:n], y[:n]).predict(Q, return_std=True)[1]
            need(np.all(s <= b + 1e-4 * pv), "one more observation adds doubt")
    ctx.nontrivial(len(X) > 2)


def strat_symmetry():
    from hypothesis import strategies as st
    return st.tuples(strat(1, 7), st.integers(0, 99),
                     st.sampled_from([0.5, -3.0, 20.0]),
                     st.sampled_from([0.25, 3.0, 100.0])).map(
        lambda t: dict(t[0], p=t[1], shift=t[2], scale=t[3]))


def t_errors(case, ctx):
    from skopt.learning import GaussianProcessRegressor as G
    X = np.array(case["X"], dtype=float)
    y = np.arange(len(X), dtype=float)

    def raises(fn, what):
        try:
            fn()
        except (ValueError, RuntimeError):
            return
        need(False, "no error for %s", what)
    raises(lambda: G(noise=case["bad"]).fit(X, y), "noise=%r" % case["bad"])
    gp = G(alpha=1e-2, optimizer=None).fit(X, y)
    Q = np.vstack([X, X])
    raises(lambda: gp.predict(Q, return_mean_grad=True),
           "a gradient at several points")
    raises(lambda: gp.predict(Q, return_std=True, return_mean_grad=True,
                              return_std_grad=True),
           "a gradient at several points")
    raises(lambda: gp.predict(X[:1], return_std=True, return_cov=True),
           "std and covariance")
    raises(lambda: gp.predict(X[:1], return_mean_grad=True,
                              return_std_grad=True),
           "a gradient of the std without the std")
    ctx.nontrivial()


def strat_errors():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "X": K.points(1, 3, 2),
        "bad": st.sampled_from(["Gaussian", "", "normal", "white"])})


PROP = Prop("C17", [
    Sub("posterior", strat, t_posterior, 2500, 50000, 4,
        "data of 1-8 points, kernels of depth 1 with fixed hyperparameters; "
        "non-trivial: different values"),
    Sub("prior", strat_prior, t_prior, 300, 4000, 1,
        "non-trivial: several points"),
    Sub("fit", strat_fit, t_fit, 500, 12000, 5,
        "hyperparameters fitted; non-trivial: likelihood gained"),
    Sub("symmetry", strat_symmetry, t_symmetry, 1200, 20000, 3,
        "non-trivial: more than two observations"),
    Sub("errors", strat_errors, t_errors, 60, 300, 1, "all non-trivial"),
])
