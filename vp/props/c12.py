"""C12 the minimize functions: budget, order, provided points, callbacks and
the result."""
import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


def t_minimize(case, ctx):
    import skopt
    specs = case["dims"]
    f0 = G.objective(specs, case["obj"])
    ps = case["acq"].endswith("ps") and case["which"] != "dummy"
    seen, vals = [], []

    def func(p):
        seen.append(list(p))
        v = f0(p)
        if case["nonuniq"]:
            v = float(round(v, 1))
        vals.append(v)
        return (v, 0.5 + 0.1 * len(seen)) if ps else v
    x0 = [G.decode_point(specs, u) for u in case["x0"]]
    y0 = None
    if case["with_y0"] and x0:
        y0 = [f0(p) + 0.25 for p in x0]
        if ps:
            y0 = [(v, 1.0 + k) for k, v in enumerate(y0)]
    evals_x0 = len(x0) if y0 is None else 0
    n_init, extra = case["n_init"], case["extra"]
    if case.get("many"):
        n_init += case["many"] if case["which"] in ("dummy", "base") else 6
    if case["which"] == "dummy":
        n_calls = max(1, n_init + extra + evals_x0)
    else:
        if n_init == 0 and not x0:
            n_init = 1
        n_calls = n_init + extra + evals_x0
    if n_calls == 0 or (n_calls == evals_x0 == 0):
        n_calls = 1
    calls = []
    stop_at = case["stop_at"]

    def cb(res):
        calls.append((len(res.x_iters), len(seen), float(res.fun),
                      list(res.func_vals), [list(p) for p in res.x_iters],
                      list(res.x)))
        return len(calls) == stop_at

    def cb2(res):
        calls2.append(len(res.x_iters))
    calls2 = []
    kw = dict(n_calls=n_calls, random_state=case["seed"],
              initial_point_generator=case["gen"],
              model_queue_size=case["queue"],
              callback=[cb, cb2] if case["two"] else cb)
    x_arg = None
    if x0:
        x_arg = [list(p) for p in x0]
        if len(x0) == 1 and case["single"]:
            x_arg = list(x0[0])
        kw["x0"] = x_arg
        if y0 is not None:
            kw["y0"] = {"list": list, "tuple": tuple, "array": np.array}[
                case["form"]](y0)
            if len(y0) == 1 and case["single"] and not ps:
                # one number, of any type
                kw["y0"] = y0[0]
                if case["form"] == "array":
                    kw["y0"] = np.float32(y0[0])
                    y0 = [float(kw["y0"])]
                elif case["form"] == "tuple":
                    kw["y0"] = np.int64(np.clip(round(y0[0]), -9e9, 9e9))
                    y0 = [float(kw["y0"])]
    w = case["which"]
    if w != "dummy":
        kw["n_initial_points"] = n_init
        kw["n_points"] = 30
        kw["acq_func"] = case["acq"]
    dims = G.make_dims(specs)
    if w == "dummy":
        res = skopt.dummy_minimize(func, dims, **kw)
    elif w == "forest":
        res = skopt.forest_minimize(
            func, dims, base_estimator=M.make_estimator(case["base"], 1),
            **kw)
    elif w == "gbrt":
        res = skopt.gbrt_minimize(
            func, dims, base_estimator=M.make_estimator("gbrt", 1), **kw)
    elif w == "base":
        from skopt.optimizer import base_minimize
        res = base_minimize(func, dims, M.make_estimator("probe"),
                            acq_optimizer="sampling", **kw)
    else:
        res = skopt.gp_minimize(func, dims,
                                base_estimator=M.make_estimator("gpspy"),
                                n_restarts_optimizer=2, **kw)
    # ---- what must have happened
    given = [] if y0 is None else [list(p) for p in x0]
    gvals = [] if y0 is None else [y[0] if ps else y for y in y0]
    total = given + seen
    tvals = gvals + vals
    rounds = (1 if x0 else 0) + max(0, n_calls - evals_x0)
    stopped = stop_at <= rounds and stop_at > 0
    need(len(calls) == (stop_at if stopped else rounds),
         "the callback was called %d times in %d rounds (stop at %d)",
         len(calls), rounds, stop_at)
    if case["two"]:
        need(calls2 == [c[0] for c in calls], "the second callback was not "
             "called with the first")
    if stopped:
        n_seen = evals_x0 + stop_at - (1 if x0 else 0)
    else:
        n_seen = n_calls
    need(len(seen) == n_seen, "the objective was called %d times, expected "
         "%d (n_calls=%d, %d initial points given%s)", len(seen), n_seen,
         n_calls, len(x0), ", stopped" if stopped else "")
    if y0 is None:
        need(G.same_points(seen[:len(x0)], x0), "x0 was not evaluated first, "
             "in order: %r, x0 %r", seen, x0)
    for p in seen[evals_x0:]:
        for s, v in zip(specs, p):
            need(G.member(s, v), "%r evaluated, not a value of %r", v, s)
    need(G.same_points(res.x_iters, total), "x_iters %r, expected %r",
         res.x_iters, total)
    need(np.array_equal(np.asarray(res.func_vals, dtype=float),
                        np.asarray(tvals, dtype=float)),
         "func_vals %r, the objective gave %r", list(res.func_vals), tvals)
    k = int(np.argmin(tvals))
    need(float(res.fun) == tvals[k] and G.same_point(res.x, total[k]),
         "the minimum is %r at %r, the result says %r at %r", tvals[k],
         total[k], res.fun, res.x)
    # each callback saw the history up to its round
    for i, (n, ncalled, fun, fv, xs, x) in enumerate(calls):
        want = (len(x0) if x0 else 0) + i + (0 if x0 else 1)
        need(n == want and len(fv) == want, "callback %d saw %d points, "
             "expected %d", i + 1, n, want)
        need(ncalled == want - len(given), "callback %d came after %d "
             "evaluations", i + 1, ncalled)
        need(fun == min(tvals[:want]) and G.same_points(xs, total[:want]) and
             fv == tvals[:want], "callback %d saw another history", i + 1)
    # number of models: one for each tell with enough points
    if w != "dummy":
        n_start = n_init + len(x0)
        told = []
        if x0:
            told.append(len(x0))
        told += list(range(len(x0) + 1, len(total) + 1))
        want = len([t for t in told if t >= n_start])
        if case["queue"]:
            want = min(want, case["queue"])
        need(len(res.models) == want, "%d models, expected %d",
             len(res.models), want)
    else:
        need(len(res.models) == 0, "dummy_minimize has models")
    need(res.space == G_space(res, specs), "the space of the result")
    need(res.specs is not None and res.specs["args"]["func"] is func and
         res.specs["args"]["n_calls"] is not None and
         res.specs["function"].endswith("_minimize"),
         "the call specifications are not those of the call")
    ctx.label(w, "x0" if x0 else "no x0", "stopped" if stopped else "full")
    ctx.nontrivial(len(seen) > 2)


def G_space(res, specs):
    """The space the call described, with the transforms of the result."""
    sp = G.make_space(specs)
    for d, r in zip(sp.dimensions, res.space.dimensions):
        d.set_transformer(r.transform_)
    return sp


def strat_minimize():
    from hypothesis import strategies as st
    return G.small_space(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "dims": st.just(d), "obj": G.objective_spec(),
        "which": st.sampled_from(["dummy", "forest", "gbrt", "gp", "base",
                                  "base"]),
        "base": st.sampled_from(["et", "rf"]),
        "acq": st.sampled_from(["EI", "LCB", "PI", "gp_hedge", "EIps",
                                "PIps"]),
        "gen": st.sampled_from(["random", "random", "lhs", "sobol", "halton",
                                "hammersly", "grid"]),
        "n_init": st.integers(0, 4), "extra": st.integers(0, 4),
        "x0": st.lists(G.fracs(len(d)), max_size=3),
        "many": st.sampled_from([0] * 12 + [15, 50, 120]),
        "with_y0": st.booleans(), "single": st.booleans(),
        "form": st.sampled_from(["list", "list", "tuple", "array"]),
        "two": st.booleans(), "nonuniq": st.booleans(),
        "queue": st.sampled_from([None, None, 1, 2]),
        "stop_at": st.sampled_from([0, 0, 1, 2, 3, 5]),
        "seed": G.seeds()}))


PROP = Prop("C12", [
    Sub("minimize", strat_minimize, t_minimize, 700, shards=8,
        rule="one of the minimize functions with budgets, provided points "
        "and values, callbacks that stop; non-trivial: three evaluations"),
])
