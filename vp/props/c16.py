"""C16 gradients: of kernels, of the Gaussian process and of acquisitions."""
import numpy as np

from .. import gens as G
from .. import kern as K
from .. import opt_model as M
from ..core import Prop, Reject, Sub, need


def cusp(t, x, X, nus=(0.5, 1.5)):
    """Is x so near a training point that differences straddle a cusp?"""
    return K.has_nu(t, nus) and np.abs(X - x).max(axis=1).min() < 0.02


def t_kernel(case, ctx):
    """Kernel.gradient_x against differences of the kernel's formula."""
    t = case["kernel"]
    x = np.array(case["x"], dtype=float)
    X = np.array(case["X"], dtype=float)
    if case["same"]:
        X[0] = x
    k = K.make(t)
    x0, X0 = x.copy(), X.copy()
    g = k.gradient_x(x, X)
    need(np.array_equal(x, x0) and np.array_equal(X, X0),
         "gradient_x changed its arguments")
    need(np.shape(g) == X.shape, "gradient of shape %r for %r", np.shape(g),
         X.shape)
    checked = 0
    for j in range(len(X)):
        n, err = K.num_grad(lambda z: K.value(t, z, X[j], False), x)
        if cusp(t, x, X[j:j + 1], (0.5,)):
            continue
        scale = max(1.0, np.abs(n).max())
        if err.max() > 1e-5 * scale:
            continue                 # not smooth enough here to tell
        need(np.abs(g[j] - n).max() <= 1e-4 * scale + 10 * err.max(),
             "gradient_x of %r at %r with respect to %r is %r, by differences "
             "%r", t, x.tolist(), X[j].tolist(), g[j].tolist(), n.tolist())
        checked += 1
    # one row at a time gives the same
    for j in range(len(X)):
        need(np.allclose(k.gradient_x(x, X[j:j + 1])[0], g[j]),
             "gradient of one training point differs from the batch")
    ctx.label(t["k"])
    ctx.nontrivial(checked > 1)


def strat_kernel():
    from hypothesis import strategies as st
    return st.integers(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "kernel": K.strat(d, 2, white=True, frac=True),
        "x": K.points(1, 1, d).map(lambda p: p[0]),
        "X": K.points(1, 4, d), "same": st.booleans()}))


def make_gp(case):
    X = np.array(case["X"], dtype=float)
    if not K.definite(case["kernel"], X, 1e-3):
        raise Reject()
    from skopt.learning import GaussianProcessRegressor
    return GaussianProcessRegressor(
        kernel=K.make(case["kernel"]), optimizer=None,
        normalize_y=case["norm"], noise=case["noise"], alpha=1e-3)


def t_gp(case, ctx):
    """Gradients of the predicted mean and std against differences of the
    predictions themselves."""
    X = np.array(case["X"], dtype=float)
    y = np.array(case["y"][:len(X)], dtype=float) * case["ys"] + case["yo"]
    gp = make_gp(case).fit(X, y)
    x = np.array(case["x"], dtype=float)
    m, s, dm, ds = gp.predict(x[None], return_std=True,
                              return_mean_grad=True, return_std_grad=True)
    m1, dm1 = gp.predict(x[None], return_mean_grad=True)
    m2, s2, dm2 = gp.predict(x[None], return_std=True, return_mean_grad=True)
    tol = 1e-9 * (np.abs(y).max() + np.abs(dm).max() + 1e-3 * case["ys"])
    need(all(np.allclose(a, b, rtol=1e-6, atol=tol) for a, b in (
         (dm, dm1), (dm, dm2), (m, m1), (m, m2))) and
         np.allclose(s ** 2, s2 ** 2, rtol=1e-6, atol=tol * np.std(y)),
         "the gradient depends on what else is asked for")
    need(np.shape(dm) == x.shape and np.shape(ds) == x.shape, "shapes %r %r",
         np.shape(dm), np.shape(ds))
    n, err = K.num_grad(lambda z: gp.predict(z[None])[0], x)
    scale = max(np.abs(n).max(), np.std(y), 1e-3 * case["ys"])
    ok = 0
    if err.max() <= 1e-5 * scale and not cusp(case["kernel"], x, X):
        need(np.abs(dm - n).max() <= 1e-4 * scale + 10 * err.max(),
             "gradient of the mean at %r is %r, by differences %r",
             x.tolist(), dm.tolist(), n.tolist())
        ok += 1
    n, err = K.num_grad(
        lambda z: gp.predict(z[None], return_std=True)[1][0], x)
    scale = max(np.abs(n).max(), s[0])
    if err.max() <= 1e-5 * scale and s[0] > 1e-3 * case["ys"] and not \
            cusp(case["kernel"], x, X) and not (
            K.has_nu(case["kernel"], (0.5,)) and
            K.contains(case["kernel"], "dot")):
        need(np.abs(ds - n).max() <= 1e-4 * scale + 10 * err.max(),
             "gradient of the std (%r) at %r is %r, by differences %r", s[0],
             x.tolist(), ds.tolist(), n.tolist())
        ok += 1
    ctx.label("conclusive %d" % ok)
    ctx.nontrivial(ok == 2 and len(X) > 1)


def strat_gp():
    from hypothesis import strategies as st
    return st.integers(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "kernel": K.strat(d, 2), "X": K.points(1, 6, d),
        "y": st.lists(st.floats(-2, 2, width=32), min_size=6, max_size=6),
        "ys": st.sampled_from([1.0, 0.1, 50.0]),
        "yo": st.sampled_from([0.0, 5.0]),
        "x": K.points(1, 1, d).map(lambda p: p[0]),
        "noise": st.sampled_from([None, "gaussian", 0.01]),
        "norm": st.booleans()}))


def t_acq(case, ctx):
    """Gradients of the acquisition functions, as the optimizer uses them."""
    from sklearn.multioutput import MultiOutputRegressor
    from skopt.acquisition import (_gaussian_acquisition,
                                   gaussian_acquisition_1D)
    X = np.array(case["X"], dtype=float)
    y = np.array(case["y"][:len(X)], dtype=float)
    name = case["acq"]
    gp = make_gp(case)
    if name.endswith("ps"):
        model = MultiOutputRegressor(gp).fit(
            X, np.column_stack([y, case["t"][:len(X)]]))
    else:
        model = gp.fit(X, y)
    kw = {"xi": case["xi"], "kappa": case["kappa"]}
    x = np.array(case["x"], dtype=float)
    y_opt = y.min() + case["dy"]

    def f(z):
        return _gaussian_acquisition(z[None], model, y_opt=y_opt,
                                     acq_func=name, acq_func_kwargs=kw)[0]
    v, g = gaussian_acquisition_1D(x, model, y_opt, name, kw)
    need(np.allclose(v, f(x), rtol=1e-10, atol=1e-13), "the value with "
         "gradient, %r, is not the value without, %r", v, f(x))
    need(np.shape(g) == x.shape, "gradient of shape %r", np.shape(g))
    n, err = K.num_grad(f, x)
    scale = max(np.abs(n).max(), abs(float(f(x))))
    sd = (model.estimators_[0] if name.endswith("ps") else model).predict(
        x[None], return_std=True)[1][0]
    if err.max() > 1e-4 * scale or sd < 1e-3 or scale < 1e-9 or cusp(
            case["kernel"], x, X) or (
            K.has_nu(case["kernel"], (0.5,)) and
            K.contains(case["kernel"], "dot")):
        ctx.label("inconclusive")
        return
    need(np.abs(g - n).max() <= 1e-3 * scale + 10 * err.max(),
         "gradient of %s at %r is %r, by differences %r", name, x.tolist(),
         np.asarray(g).tolist(), n.tolist())
    ctx.label(name)
    ctx.nontrivial(np.abs(n).max() > 1e-6)


def strat_acq():
    from hypothesis import strategies as st
    return st.integers(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "kernel": K.strat(d, 1), "X": K.points(2, 6, d),
        "y": st.lists(st.floats(-2, 2, width=32), min_size=6, max_size=6),
        "t": st.lists(st.floats(-1, 1, width=32), min_size=6, max_size=6),
        "ys": st.just(1.0), "yo": st.just(0.0),
        "x": K.points(1, 1, d).map(lambda p: p[0]),
        "noise": st.sampled_from([None, 0.01]), "norm": st.booleans(),
        "acq": st.sampled_from(["LCB", "EI", "PI", "EIps", "PIps"]),
        "xi": st.sampled_from([0.0, 0.01, 0.3]),
        "dy": st.sampled_from([0.0, 0.5, -0.5]),
        "kappa": st.sampled_from([0.0, 1.96, "inf", 5.0])}))


PROP = Prop("C16", [
    Sub("kernel", strat_kernel, t_kernel, 3000, 60000, 4,
        "kernel expressions of depth up to 2 in 1-3 dimensions; non-trivial: "
        "two training points where differences are conclusive"),
    Sub("gp", strat_gp, t_gp, 2400, 40000, 4,
        "Gaussian processes on 1-6 points; non-trivial: mean and std both "
        "conclusive, two points"),
    Sub("acquisition", strat_acq, t_acq, 2400, 40000, 4,
        "acquisition functions over Gaussian processes; non-trivial: the "
        "gradient is not zero"),
])
