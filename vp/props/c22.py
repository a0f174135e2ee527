"""C22 points by name: named arguments, dictionaries, default estimators."""
import copy

import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


def named(specs, names):
    dims = G.make_dims(specs)
    for d, n in zip(dims, names):
        d.name = n
    return dims


def t_named(case, ctx):
    from skopt.utils import use_named_args
    specs, names = case["dims"], case["names"][:len(case["dims"])]
    dims = named(specs, names)
    calls = []
    out = object()

    @use_named_args(dims)
    def objective(**kw):
        "What it says."
        calls.append(kw)
        return out
    need(objective.__name__ == "objective" and
         objective.__doc__ == "What it says.", "the wrapper lost the name")
    for us in case["X"]:
        p = G.decode_point(specs, us)
        arg = {"list": list, "tuple": tuple}[case["as"]](p)
        need(objective(arg) is out, "the value is not that of the function")
        need(calls[-1] == dict(zip(names, p)) and
             all(type(calls[-1][n]) is type(v) for n, v in zip(names, p)),
             "%r was passed as %r", p, calls[-1])
    n = len(calls)
    for bad in (list(p) + [0], list(p)[:-1], []):
        try:
            objective(bad)
        except ValueError:
            pass
        else:
            need(False, "%d values for %d dimensions", len(bad), len(names))
    need(len(calls) == n, "called for a point of another length")
    # functions by their signature, in any order
    order = sorted(range(len(names)), key=lambda i: case["perm"][i])
    src = "def g(%s):\n    return (%s,)" % (
        ", ".join(names[i] for i in order), ", ".join(names))
    ns = {}
    exec(src, ns)
    g = use_named_args(dimensions=dims)(ns["g"])
    need(g.__name__ == "g", "name")
    need(list(g(p)) == list(p), "g(%s) got %r for %r", [names[i] for i in
                                                      order], g(p), p)
    # dimensions without names, or no dimensions
    dims2 = named(specs, names)
    dims2[case["perm"][0] % len(dims2)].name = None
    other = [(0.0, 1.0)] + dims
    for bad in (dims2, other, [d.bounds for d in dims]):
        try:
            w = use_named_args(bad)(lambda **kw: 0.0)
            w(list(p))
        except ValueError:
            pass
        else:
            need(False, "no error for dimensions %r", bad)
    ctx.nontrivial(len(names) > 1)


NAMES = ["alpha", "x1", "x10", "x2", "B", "_z", "learning_rate", "é", "b",
         "zz", "c", "x3", "x20", "Alpha"]


def strat_named():
    from hypothesis import strategies as st
    return G.space_spec(
        1, 5, big=True, cat_kw=dict(
            kinds=("str", "int", "float", "bool", "mixed",
                            "tuple", "object"),
            transforms=(None,))).flatmap(lambda d: st.fixed_dictionaries({
        "dims": st.just(d),
        "names": st.permutations(NAMES).map(list),
        "perm": st.permutations(list(range(14))).map(list),
        "as": st.sampled_from(["list", "tuple"]),
        "X": st.lists(G.fracs(len(d)), min_size=1, max_size=3)}))


def t_run(case, ctx):
    """In a run, every point is passed by the names of its dimensions."""
    import skopt
    from skopt.utils import use_named_args
    specs, names = case["dims"], case["names"][:len(case["dims"])]
    dims = named(specs, names)
    f = G.objective(specs, case["obj"])
    calls = []

    @use_named_args(dims)
    def objective(**kw):
        calls.append(dict(kw))
        return f([kw[n] for n in names])
    a = dict(n_calls=case["n"], random_state=case["seed"])
    if case["which"] == "dummy":
        res = skopt.dummy_minimize(objective, dims, **a)
    elif case["which"] == "gp":
        res = skopt.gp_minimize(objective, dims, n_initial_points=1,
                                base_estimator=M.make_estimator("gpspy"),
                                n_points=20, n_restarts_optimizer=1, **a)
    else:
        res = skopt.forest_minimize(objective, dims, n_initial_points=1,
                                    base_estimator=M.make_estimator("et"),
                                    n_points=20, **a)
    need(len(calls) == case["n"], "%d calls", len(calls))
    for kw, p, v in zip(calls, res.x_iters, res.func_vals):
        need(sorted(kw) == sorted(names) and
             G.same_point([kw[n] for n in names], p), "point %r was passed as "
             "%r", p, kw)
        need(v == f(p), "the value of %r", p)
    need([d.name for d in res.space.dimensions] == names and
         [d.name for d in dims] == names, "names of the space: %r",
         [d.name for d in res.space.dimensions])
    # by name or by place in the space
    for i, n in enumerate(names):
        k, d = res.space[n]
        need(k == i and d is res.space.dimensions[i], "space[%r] is %r", n,
             (k, d))
    ctx.nontrivial(len(names) > 1)


def strat_run():
    from hypothesis import strategies as st
    return G.small_space(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "dims": st.just(d), "obj": G.objective_spec(),
        "names": st.permutations(NAMES).map(list),
        "which": st.sampled_from(["dummy", "gp", "et"]),
        "n": st.integers(1, 4), "seed": G.seeds()}))


def t_dict(case, ctx):
    from skopt.utils import dimensions_aslist, point_asdict, point_aslist
    specs, names = case["dims"], case["names"][:len(case["dims"])]
    dims = G.make_dims(specs)
    space = dict(zip(names, dims))
    order = sorted(range(len(names)), key=lambda i: names[i])
    got = dimensions_aslist(space)
    need(len(got) == len(dims) and
         all(got[k] is dims[i] for k, i in enumerate(order)),
         "dimensions_aslist is not in the order of names")
    p = G.decode_point(specs, case["x"])
    d = dict(zip(names, p))
    l = point_aslist(space, d)
    need(l == [p[i] for i in order], "point_aslist(%r) is %r", d, l)
    d2 = point_asdict(space, l)
    need(dict(d2) == d and list(d2) == [names[i] for i in order],
         "point_asdict(%r) is %r", l, d2)
    need(all(type(d2[n]) is type(d[n]) for n in names), "types")
    # points of a space of those dimensions have the same order
    from skopt.space import Space
    sp = Space(got)
    q = sp.rvs(1, random_state=case["seed"])[0]
    e = point_asdict(space, q)
    for n, s in zip(names, specs):
        need(G.member(s, e[n]), "%r of %r is not a value of its dimension",
             e[n], n)
    need(point_aslist(space, e) == list(q), "list to dict to list")
    # a superset of the names gives the same
    need(point_aslist(space, dict(d, extra=1)) == l, "extra names")
    ctx.nontrivial(len(names) > 1 and order != sorted(order))


def strat_dict():
    from hypothesis import strategies as st
    return G.space_spec(1, 6, big=True).flatmap(lambda d: st.fixed_dictionaries({
        "dims": st.just(d), "x": G.fracs(len(d)), "seed": G.seeds(),
        "names": st.permutations(NAMES).map(list)}))


def t_cook(case, ctx):
    """The default estimators by name."""
    from skopt.learning import (ExtraTreesRegressor, GaussianProcessRegressor,
                                GradientBoostingQuantileRegressor,
                                RandomForestRegressor)
    from skopt.learning.gaussian_process.kernels import HammingKernel
    from skopt.utils import cook_estimator, has_gradients
    specs = case["dims"]
    sp = G.make_space(specs)
    before = [d.transform_ for d in sp.dimensions]
    name = case["name"]
    text = {"lower": name.lower(), "upper": name.upper(),
            "title": name.title()}[case["case"]]
    kw = {} if name == "DUMMY" else {"random_state": case["seed"]}
    if case["jobs"]:
        kw["n_jobs"] = 2
    options = OPTIONS[name][case["opt"] % len(OPTIONS[name])]
    kw.update(options)
    est = cook_estimator(text, space=sp, **kw)
    need([d.transform_ for d in sp.dimensions] == before,
         "cooking changed the space")
    if name == "DUMMY":
        need(est is None and not has_gradients(est), "dummy is %r", est)
        return
    cls = {"GP": GaussianProcessRegressor, "RF": RandomForestRegressor,
           "ET": ExtraTreesRegressor,
           "GBRT": GradientBoostingQuantileRegressor}[name]
    need(type(est) is cls, "%r is %r", text, type(est))
    need(est.random_state == case["seed"], "random_state")
    for k, v in options.items():
        need(est.get_params()[k] is v or est.get_params()[k] == v, "option "
             "%s is %r, asked for %r", k, est.get_params()[k], v)
    if name == "GP":
        need(est.normalize_y == options.get("normalize_y", True) and
             est.noise == options.get("noise", "gaussian"), "%r", est)
        allcat = all(s["k"] == "cat" for s in specs)
        ham = any(isinstance(v, HammingKernel)
                  for v in est.get_params().values())
        need(ham == allcat, "a Hamming kernel: %r, for %r", ham, specs)
        need(has_gradients(est) == (not allcat), "has_gradients")
    else:
        need(not has_gradients(est), "trees have gradients")
        if case["jobs"]:
            need(est.n_jobs == 2, "n_jobs")
    # it learns and predicts mean and std over the space it was made for
    spn = sp if name != "GP" else normal(sp)
    X = spn.rvs(6, random_state=case["seed"])
    f = G.objective(specs, case["obj"])
    est.fit(spn.transform(X), np.array([f(p) for p in X]) +
            np.linspace(0, 1e-3, 6))
    m, s = est.predict(spn.transform(X[:2]), return_std=True)
    need(np.shape(m) == (2,) and np.shape(s) == (2,) and
         np.all(np.isfinite(m)) and np.all(s >= 0), "predictions %r %r", m, s)
    for bad in ("XGB", "", "G P"):
        try:
            cook_estimator(bad, space=sp)
        except ValueError:
            pass
        else:
            need(False, "an estimator called %r", bad)
    ctx.label(name)
    ctx.nontrivial()


OPTIONS = {
    "GP": [{}, {"noise": None}, {"noise": 0.1}, {"normalize_y": False},
           {"n_restarts_optimizer": 0}, {"alpha": 0.5, "noise": None},
           {"optimizer": None}, {"copy_X_train": False}],
    "RF": [{}, {"n_estimators": 4}, {"min_samples_leaf": 1},
           {"max_depth": None}, {"bootstrap": False},
           {"min_variance": 0.25, "n_estimators": 3}],
    "ET": [{}, {"n_estimators": 4}, {"min_samples_leaf": 1},
           {"max_depth": 2}, {"bootstrap": True},
           {"min_variance": 0.25, "n_estimators": 3}],
    "GBRT": [{}, {"quantiles": [0.16, 0.5, 0.84, 0.9]}],
    "DUMMY": [{}]}


def normal(sp):
    from skopt.utils import normalize_dimensions
    return normalize_dimensions(sp.dimensions)


def strat_cook():
    from hypothesis import strategies as st
    return st.one_of(
        G.small_space(1, 3),
        G.small_space(1, 3, integer=False, real=False)).flatmap(
        lambda d: st.fixed_dictionaries({
            "dims": st.just(d), "obj": G.objective_spec(),
            "name": st.sampled_from(["GP", "GP", "RF", "ET", "GBRT",
                                     "DUMMY"]),
            "case": st.sampled_from(["lower", "upper", "title"]),
            "jobs": st.booleans(), "opt": st.integers(0, 23), "seed": st.integers(0, 99)}))


PROP = Prop("C22", [
    Sub("named", strat_named, t_named, 1200, 20000, 3,
        "functions of 1-5 named dimensions; non-trivial: several"),
    Sub("run", strat_run, t_run, 300, 5000, 3, "non-trivial: several names"),
    Sub("dict", strat_dict, t_dict, 1200, 20000, 3,
        "non-trivial: names not in the order of insertion"),
    Sub("cook", strat_cook, t_cook, 120, 2000, 3, "all but dummy"),
])
