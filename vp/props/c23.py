"""C23 the expected minimum is a point of the space and its prediction."""
import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Reject, Sub, need


def result(case):
    from skopt import Optimizer
    specs = case["dims"]
    f = G.objective(specs, case["obj"])
    X = [G.decode_point(specs, u) for u in case["X"]]
    dims = G.make_dims(specs)
    if case["est"] in ("gpspy", "GP"):
        from skopt.utils import normalize_dimensions
        dims = normalize_dimensions(dims)
    opt = Optimizer(dims, M.make_estimator(case["est"]), n_initial_points=1,
                    acq_optimizer="sampling", random_state=case["seed"],
                    acq_optimizer_kwargs={"n_points": 10})
    for k in case.get("split", []):
        if k < len(X):
            opt.tell(X[:k], [f(p) for p in X[:k]])
            X = X[k:]
    return opt.tell(X, [f(p) for p in X]), f


def pred(res, P):
    return np.asarray(res.models[-1].predict(res.space.transform(P)))


def snapshot(res):
    return ([list(p) for p in res.x_iters], list(res.func_vals), list(res.x),
            res.fun, len(res.models),
            [d.transform_ for d in res.space.dimensions])


def t_minimum(case, ctx):
    from skopt.utils import expected_minimum
    specs = case["dims"]
    res, f = result(case)
    before = snapshot(res)
    n = case["n"]
    x, v = expected_minimum(res, n_random_starts=n,
                            random_state=case["rs"])
    need(snapshot(res) == before, "expected_minimum changed the result")
    need(isinstance(x, list) and len(x) == len(specs), "x is %r", x)
    for s, u in zip(specs, x):
        need(G.member(s, u, strict_type=False), "%r is not a value of %r", u,
             s)
    need(x in res.space, "%r is not in the space", x)
    p = float(pred(res, [x])[0])
    sc = max(1e-6, np.abs(res.func_vals).max())
    need(abs(p - float(v)) <= 1e-7 * sc, "the expected value is %r, the model "
         "predicts %r there", v, p)
    starts = [res.x]
    if n and not any(s["k"] == "cat" for s in specs):
        starts += res.space.rvs(n, random_state=case["rs"])
    b = pred(res, starts)
    need(any(s["k"] == "cat" for s in specs) or
         float(v) <= b.min() + 1e-7 * sc,
         "the expected minimum %r is worse than one of the points it started "
         "from, %r", v, b.min())
    if not any(s["k"] == "cat" for s in specs):
        x2, v2 = expected_minimum(res, n_random_starts=n,
                                  random_state=case["rs"])
        need(G.close_point(x, x2) and G.close_value(v, v2), "the same seed, another "
             "minimum: %r, %r", (x, v), (x2, v2))
    if case["est"] == "gpspy" and len(specs) == 1 and n >= 5 and \
            specs[0]["k"] != "cat":
        # by exhaustion in one dimension
        grid = [[G.decode(specs[0], u)] for u in np.linspace(0, 1, 300)]
        g = pred(res, grid)
        ctx.label("global" if float(v) <= g.min() + 1e-6 * sc else "local")
    ctx.label(case["est"])
    ctx.nontrivial(float(v) < b.min() - 1e-9 * sc)


def strat_minimum():
    from hypothesis import strategies as st
    return G.small_space(1, 3, cat=False).flatmap(
        lambda d: st.fixed_dictionaries({
            "dims": st.just(d), "obj": G.objective_spec(),
            "X": st.lists(G.fracs(len(d)), min_size=2, max_size=8),
            "split": st.lists(st.integers(1, 2), max_size=6),
            "est": st.sampled_from(["gpspy", "gpspy", "probe", "et",
                                    "gbrt"]),
            "n": st.sampled_from([0, 1, 5, 20]),
            "rs": st.integers(0, 99), "seed": G.seeds()}))


def t_sampling(case, ctx):
    from skopt.utils import expected_minimum_random_sampling
    specs = case["dims"]
    res, f = result(case)
    before = snapshot(res)
    n = case["n"]
    x, v = expected_minimum_random_sampling(res, n_random_starts=n,
                                            random_state=case["rs"])
    need(snapshot(res) == before, "the result was changed")
    need(isinstance(x, list) and len(x) == len(specs), "x is %r", x)
    for s, u in zip(specs, x):
        need(G.member(s, u), "%r is not a value of %r", u, s)
    sc = max(1e-6, np.abs(res.func_vals).max())
    P = res.space.rvs(n, random_state=case["rs"])
    b = pred(res, P)
    need(abs(float(pred(res, [x])[0]) - float(v)) <= 1e-7 * sc,
         "value %r, prediction %r", v, pred(res, [x]))
    need(abs(float(v) - b.min()) <= 1e-7 * sc, "the minimum of %d samples is "
         "%r, not %r", n, b.min(), v)
    need(any(G.same_point(x, q) for q in P), "%r is none of the samples", x)
    # more samples of the same seed: still their least value
    ctx.label(case["est"])
    ctx.nontrivial(n > 1 and b.min() < b.max())


def strat_sampling():
    from hypothesis import strategies as st
    return G.small_space(1, 3).flatmap(
        lambda d: st.fixed_dictionaries({
            "dims": st.just(d), "obj": G.objective_spec(),
            "X": st.lists(G.fracs(len(d)), min_size=1, max_size=9),
            "split": st.lists(st.integers(1, 2), max_size=7),
            "est": st.sampled_from(["gpspy", "probe", "et", "rf"]),
            "n": st.integers(1, 60), "rs": st.integers(0, 99),
            "seed": G.seeds()}))


def t_categories(case, ctx):
    """With categories, expected_minimum looks at very many samples."""
    from skopt.utils import expected_minimum
    specs = case["dims"]
    res, f = result(case)
    before = snapshot(res)
    x, v = expected_minimum(res, random_state=case["rs"])
    need(snapshot(res) == before, "the result was changed")
    for s, u in zip(specs, x):
        need(G.member(s, u), "%r is not a value of %r", u, s)
    sc = max(1e-6, np.abs(res.func_vals).max())
    need(abs(float(pred(res, [x])[0]) - float(v)) <= 1e-7 * sc,
         "value %r, prediction %r", v, pred(res, [x]))
    x2, v2 = expected_minimum(res, random_state=case["rs"])
    need(G.same_point(x, x2) and G.close_value(v, v2), "the same seed, "
         "another minimum: %r, %r", (x, v), (x2, v2))
    # among 1e5 samples, all categories are: the best of each other
    # dimension's category at this point is no better
    for i, s in enumerate(specs):
        if s["k"] == "cat":
            for c in G.cats_of(s):
                y = list(x)
                y[i] = c
                g = float(pred(res, [y])[0])
                ctx.label("category")
                if all(t["k"] == "cat" for t in specs):
                    need(g >= float(v) - 1e-7 * sc, "%r is better than %r", y,
                         x)
    ctx.nontrivial()


def strat_categories():
    from hypothesis import strategies as st
    return st.one_of(
        G.small_space(1, 2, integer=False, real=False),
        G.small_space(2, 2).filter(lambda d: any(s["k"] == "cat"
                                                 for s in d))).flatmap(
        lambda d: st.fixed_dictionaries({
            "dims": st.just(d), "obj": G.objective_spec(),
            "X": st.lists(G.fracs(len(d)), min_size=1, max_size=4),
            "split": st.lists(st.integers(1, 3), max_size=2),
            "est": st.sampled_from(["gpspy", "et"]),
            "rs": st.integers(0, 99), "seed": G.seeds()}))


PROP = Prop("C23", [
    Sub("minimum", strat_minimum, t_minimum, 1000, 20000, 5,
        "results on 2-7 points of numeric spaces; non-trivial: better than "
        "all starts"),
    Sub("sampling", strat_sampling, t_sampling, 700, 12000, 3,
        "non-trivial: predictions differ"),
    Sub("categories", strat_categories, t_categories, 30, 400, 5,
        "all non-trivial"),
])
