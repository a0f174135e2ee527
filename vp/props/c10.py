"""C10 an invalid observation is rejected and leaves no trace."""
import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Reject, Sub, need


def outside_value(s, kind):
    if s["k"] == "cat":
        return ["no such category", 987654, None][kind % 3]
    if kind % 3 == 0:
        return s["high"] + (1 if s["k"] == "int" else
                            max(1.0, abs(s["high"])))
    if kind % 3 == 1:
        return s["low"] - (1 if s["k"] == "int" else
                           max(1.0, abs(s["low"])))
    return "text"


def bad_tell(cfg, p, y, kind, dim, q):
    """(x, y) that must be rejected; p, q are valid points, y a valid
    value."""
    specs = cfg["dims"]
    ps = "ps" in cfg["acq"]
    d = dim % len(specs)
    out = list(p)
    out[d] = outside_value(specs[d], kind + dim)
    y1 = y
    table = [
        ("outside", out, y1),
        ("short", p[:-1], y1) if len(p) > 1 else ("outside", out, y1),
        ("long", p + [p[0]], y1),
        ("y string", p, (y1[0], "1") if ps else "1"),
        ("y none", p, None),
        ("y one per nothing", p, (y1[0],) if ps else [y1]),
        ("batch outside", [q, out], [y1, y1]),
        ("batch outside first", [out, q, q], [y1, y1, y1]),
        ("batch short y", [p, q], [y1]),
        ("batch long y", [p, q], [y1, y1, y1]),
        ("batch y string", [p, q], [y1, (y1[0], "2") if ps else "2"]),
        ("batch scalar", [p, q], y1[0] if ps else y1),
        ("batch lengths", [p, q + [q[0]]], [y1, y1]),
        ("ps scalar / pair", p, y1[0] if ps else (y1, 1.0)),
        ("ps triple / array", p, (y1[0], 1.0, 1.0) if ps
         else np.array([1.0])),
        ("ps time / text value", p, (y1[0], -1.0) if ps else "abc"),
        ("batch time", [p, q], [y1, (y1[0], -2.0)] if ps else ["a", y1]),
        ("not a list", 3, y1),
        ("array", np.array([0.5, 0.5]), y1),
        ("text value", p, ("a", 1.0) if ps else "a"),
        ("batch short point", [p, q[:-1]], [y1, y1]),
        ("batch short point first", [p[:-1], q], [y1, y1]),
        ("batch long point first", [p + [p[0]], q], [y1, y1]),
        ("batch of one with two values", [p], [y1, y1]),
        ("batch of two with no value", [p, q], []),
        ("point with two values", p, [y1, y1]),
    ]
    return table[kind % len(table)]


def outcome(opt, ops, specs, f, cfg, start):
    """What a short continuation does (used to compare twins)."""
    out = []
    for k in range(ops):
        try:
            p = opt.ask()
        except RuntimeError:
            out.append("no model")
            p = start
        out.append(list(p))
        res = opt.tell(p, M.yval(cfg, f, p, k))
        out.append((float(res.fun), len(res.models)))
    return out


def t_bad(case, ctx):
    cfg = case["cfg"]
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])
    pts = [G.decode_point(specs, u) for u in case["pts"]]
    twins = [M.make_optimizer(cfg) for _ in range(2)]
    seen = []
    for i, (p, bads) in enumerate(zip(pts, case["bad"])):
        a, b = twins
        for kind, dim in bads:
            q = pts[(i + 1) % len(pts)]
            what, x, y = bad_tell(cfg, p, M.yval(cfg, f, p, i), kind, dim, q)
            n = (list(a.Xi), list(a.yi), list(a.models))
            try:
                a.tell(x, y)
            except Exception:
                pass
            else:
                need(False, "tell(%r, %r) accepted (%s)", x, y, what)
            need(G.same_points(a.Xi, n[0]) and len(a.yi) == len(n[1]) and
                 all(np.array_equal(u, v) for u, v in zip(a.yi, n[1])),
                 "rejected tell (%s) changed the history to %r, %r", what,
                 a.Xi, a.yi)
            need(len(a.models) == len(n[2]) and
                 all(u is v for u, v in zip(a.models, n[2])),
                 "rejected tell (%s) changed the models", what)
            seen.append(what)
        for o in twins:
            o.tell(list(p), M.yval(cfg, f, p, i))
    ra = outcome(twins[0], 2, specs, f, cfg, pts[0])
    rb = outcome(twins[1], 2, specs, f, cfg, pts[0])
    need(len(ra) == len(rb) and all(
        (u == v) if not isinstance(u, list) else G.same_point(u, v)
        for u, v in zip(ra, rb)),
        "after rejected tells (%s) the optimizer goes on with %r, without "
        "them with %r", seen, ra, rb)
    ctx.label(*set(seen))
    ctx.nontrivial(len(seen) > 0)


def strat_bad():
    from hypothesis import strategies as st
    cfg = M.config(ests=("probe", "dummy", "et"), queue=True,
                   n_points=(5, 20))

    @st.composite
    def build(draw):
        c = draw(cfg)
        n = len(c["dims"])
        k = draw(st.integers(1, 4))
        bad = st.lists(st.tuples(st.integers(0, 25), st.integers(0, 5)
                                 ).map(list), max_size=3)
        return {"cfg": c, "obj": draw(G.objective_spec()),
                "pts": draw(st.lists(G.fracs(n), min_size=k, max_size=k)),
                "bad": draw(st.lists(bad, min_size=k, max_size=k))}
    return build()


def t_config(case, ctx):
    """Impossible configurations are refused when they are made."""
    from skopt import (Optimizer, dummy_minimize, forest_minimize,
                       gbrt_minimize, gp_minimize)
    from skopt.optimizer import base_minimize
    from skopt.sampler import Grid, Lhs, Sobol
    from sklearn.kernel_ridge import KernelRidge
    from sklearn.linear_model import Ridge
    from sklearn.svm import SVC
    specs = case["dims"]
    dims = G.make_dims(specs)
    k = case["kind"]
    f = G.objective(specs, case["obj"])
    p = G.decode_point(specs, case["u"])
    calls = []

    def func(x):
        calls.append(x)
        return f(x)
    n = case["n"]

    def bad(*known, fold=False):
        """A name that is not known: made up, or nearly one that is."""
        kn = known[case["name"] % len(known)]
        near = [kn.upper(), kn.capitalize(), kn + "s", kn[:-1], " " + kn,
                kn.replace("_", "-"), kn.replace("_", ""), "", "nope",
                "cl_median", "default", "none"]
        near += [a + b for a in known for b in known]
        near = [w for w in near if w not in known and not (
            fold and w.lower() in [a.lower() for a in known])]
        return near[case["near"] % len(near)]
    table = [
        ("acq_func", lambda: Optimizer(dims, "ET", acq_func=bad(
            "EI", "PI", "LCB", "EIps", "PIps", "gp_hedge"))),
        ("acq_optimizer", lambda: Optimizer(dims, "ET", acq_optimizer=bad(
            "sampling", "auto"))),
        ("lbfgs for trees", lambda: Optimizer(dims, "ET",
                                              acq_optimizer="lbfgs")),
        ("negative n_initial_points",
         lambda: Optimizer(dims, "ET", n_initial_points=-1 - n)),
        ("estimator name", lambda: Optimizer(dims, bad(
            "GP", "RF", "ET", "GBRT", "DUMMY", fold=True))),
        ("not a regressor", lambda: Optimizer(dims, SVC())),
        ("queue", lambda: Optimizer(dims, "ET", model_queue_size=1.5)),
        ("generator", lambda: Optimizer(dims, "ET",
                                        initial_point_generator=bad(
            "sobol", "lhs", "halton", "hammersly", "random", "grid",
            fold=True))),
        ("budget", lambda: forest_minimize(func, dims, n_calls=n,
                                           n_initial_points=n + 1)),
        ("budget with x0", lambda: forest_minimize(
            func, dims, n_calls=n, n_initial_points=n, x0=[p])),
        ("nothing to start from", lambda: gp_minimize(
            func, dims, n_calls=n + 1, n_initial_points=0)),
        ("x0 and y0 lengths", lambda: dummy_minimize(
            func, dims, n_calls=n, x0=[p, p], y0=[1.0])),
        ("x0 dimensions", lambda: forest_minimize(
            func, dims, n_calls=n + 2, n_initial_points=1,
            x0=[p + [p[0]]], y0=[1.0])),
        ("callback", lambda: dummy_minimize(func, dims, n_calls=n,
                                            callback=3)),
        ("ask strategy", lambda: Optimizer(dims, "ET").ask(2, bad(
            "cl_min", "cl_mean", "cl_max"))),
        ("ask zero", lambda: Optimizer(dims, "ET").ask(0)),
        ("ask negative", lambda: Optimizer(dims, "ET").ask(-n)),
        ("ask fraction", lambda: Optimizer(dims, "ET").ask(1.5)),
        ("x0 outside", lambda: dummy_minimize(
            func, dims, n_calls=n + 1,
            x0=[[outside_value(s, case["kind"]) for s in specs]],
            y0=[1.0])),
        ("criterion", lambda: Lhs(criterion="nope", iterations=2).generate(
            dims, n + 1, random_state=1)),
        ("lhs type", lambda: Lhs(lhs_type="nope", iterations=2).generate(
            dims, n + 1, random_state=1)),
        ("border", lambda: Grid(border="nope").generate(dims, n + 1)),
        ("skip", lambda: Sobol(skip=[3, 5, 6, 7, 12][n - 1])),
        ("too many after the skip", lambda: Sobol(skip=2).generate(
            dims, 2 + n)),
        ("generator object", lambda: Optimizer(
            dims, "ET", initial_point_generator=3)),
        ("acq_func of minimize", lambda: forest_minimize(
            func, dims, n_calls=n + 1, n_initial_points=1,
            acq_func=bad("EI", "LCB", "PI"))),
        ("acq_optimizer of minimize", lambda: gp_minimize(
            func, dims, n_calls=n + 1, n_initial_points=1,
            acq_optimizer=bad("sampling", "lbfgs", "auto"))),
        ("estimator of minimize", lambda: forest_minimize(
            func, dims, n_calls=n + 1, n_initial_points=1,
            base_estimator=bad("RF", "ET", fold=True))),
        ("gradients of trees", lambda: base_minimize(
            func, dims, "RF", n_calls=n + 1, n_initial_points=1,
            acq_optimizer="lbfgs")),
        ("gradients of a regressor without", lambda: Optimizer(
            dims, [Ridge(), M.make_estimator("probe"), KernelRidge()][n % 3],
            acq_optimizer="lbfgs", acq_func=["EI", "EIps"][n % 2])),
        ("negative n_initial_points of minimize", lambda: gp_minimize(
            func, dims, n_calls=n, n_initial_points=-n)),
        ("budget of x0", lambda: dummy_minimize(
            func, dims, n_calls=n, x0=[p] * (n + 1))),
        ("y0 without x0 and no budget", lambda: gbrt_minimize(
            func, dims, n_calls=n, n_initial_points=n + 1)),
        ("dimensions", lambda: Optimizer([(1.0, 0.0)], "ET")),
        ("dimensions of minimize", lambda: gp_minimize(
            func, [(3, 1)], n_calls=2, n_initial_points=1)),
    ]
    what, fn = table[k % len(table)]
    try:
        fn()
    except Exception:
        pass
    else:
        need(False, "accepted: %s", what)
    need(not calls, "the objective was called %d times before the %s was "
         "refused", len(calls), what)
    ctx.label(what)
    ctx.nontrivial()


def strat_config():
    from hypothesis import strategies as st
    return G.small_space(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "dims": st.just(d), "kind": st.integers(0, 34),
        "n": st.integers(1, 5), "name": st.integers(0, 5),
        "near": st.integers(0, 40), "u": G.fracs(len(d)),
        "obj": G.objective_spec()}))


PROP = Prop("C10", [
    Sub("tell", strat_bad, t_bad, 600, shards=6,
        rule="1-4 valid tells with invalid ones between, against a twin that "
        "never saw the invalid ones; non-trivial: an invalid tell"),
    Sub("config", strat_config, t_config, 500, shards=2,
        rule="an impossible configuration; all non-trivial"),
])
