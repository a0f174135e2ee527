"""C25 plots: the data that is drawn."""
import os

os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Reject, Sub, need


def surface(X):
    """A known function of transformed rows, different for each column."""
    X = np.asarray(X, dtype=float)
    w = 1.0 + np.arange(X.shape[1])
    Z = np.arctan(X)
    return (np.sin(Z * 2 * w) + Z * w).sum(1) + Z[:, 0] * Z[:, -1]


class Known:
    """A model whose predictions are known; records what it is asked."""

    def __init__(self):
        self.asked = []

    def predict(self, X, return_std=False):
        X = np.array(X, dtype=float)
        self.asked.append(X)
        if return_std:
            return surface(X), np.abs(np.sin(X[:, 0])) + 0.1
        return surface(X)


def dims_of(case):
    dims = G.make_dims(case["dims"])
    for d, nm in zip(dims, case["names"]):
        if nm is not None:
            d.name = nm
    return dims


def image(space, p):
    """The row of a point, dimension by dimension."""
    row = []
    for d, v in zip(space.dimensions, p):
        row += list(np.ravel(np.asarray(d.transform([v]), dtype=float)))
    return row


def grid_of(s, n):
    if s["k"] == "cat":
        k = len(s["cats"])
        if k == 1:
            return [0], [G.cats_of(s)[0]]
        m = min(k, n)
        idx = [int(i * (k - 1) / (m - 1) + 1e-9) for i in range(m)] \
            if m > 1 else [0]
        return idx, [G.cats_of(s)[i] for i in idx]
    lo, hi = float(s["low"]), float(s["high"])
    v = [lo + (hi - lo) * i / (n - 1) for i in range(n)] if n > 1 else [lo]
    if n > 1:
        v[-1] = hi
    return v, v


def own_pd(space, specs, pts, i, n, j=None):
    """Mean of the surface over pts with dimension i (and j) set."""
    gi, vi = grid_of(specs[i], n)
    if j is None:
        out = []
        for v in vi:
            rows = []
            for p in pts:
                q = list(p)
                q[i] = v
                rows.append(image(space, q))
            out.append(float(np.mean(surface(rows))))
        return gi, out
    gj, vj = grid_of(specs[j], n)
    out = []
    for a in vi:
        line = []
        for b in vj:
            rows = []
            for p in pts:
                q = list(p)
                q[i], q[j] = a, b
                rows.append(image(space, q))
            line.append(float(np.mean(surface(rows))))
        out.append(line)
    return gi, gj, np.array(out)


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def t_pd(case, ctx):
    from skopt.plots import (partial_dependence, partial_dependence_1D,
                             partial_dependence_2D)
    from skopt.space import Space
    specs = case["dims"]
    space = Space(dims_of(case))
    if case["norm"]:
        for d in space.dimensions:
            d.set_transformer("normalize")
    n = case["n_points"]
    pts = [G.decode_point(specs, u) for u in case["X"]]
    nd = len(specs)
    i = case["i"] % nd
    j = case["j"] % nd
    model = Known()
    samples = space.transform(pts)
    keep = np.array(samples)
    how = case["how"]
    if how == "samples":
        got = [partial_dependence(space, model, i, sample_points=samples,
                                  n_points=n),
               partial_dependence_1D(space, model, i, samples, n_points=n)]
        use = pts
    elif how == "x_eval":
        got = [partial_dependence(space, model, i, x_eval=pts[0], n_points=n)]
        use = pts[:1]
    else:
        got = [partial_dependence(space, model, i, n_samples=case["ns"],
                                  n_points=n)]
        use = None
    grid, _ = grid_of(specs[i], n)
    lim = [0] + list(np.cumsum([d.transformed_size
                                for d in space.dimensions]))
    if use is None:
        # random samples: read them from what the model was asked
        xi, yi = got[0]
        need(close(xi, grid), "grid %r, expected %r", list(xi), grid)
        need(len(model.asked) == len(grid), "asked %d times for %d values",
             len(model.asked), len(grid))
        box = np.array(space.transformed_bounds, dtype=float)
        other = [c for c in range(lim[-1]) if not lim[i] <= c < lim[i + 1]]
        for k, A in enumerate(model.asked):
            need(len(A) == case["ns"], "%d samples, n_samples=%d", len(A),
                 case["ns"])
            need(np.array_equal(A[:, other], model.asked[0][:, other]),
                 "the other dimensions are not those of the same samples")
            v = image(space, [grid_of(specs[i], n)[1][k] if q == i else
                              pts[0][q] for q in range(nd)])
            need(np.allclose(A[:, lim[i]:lim[i + 1]], v[lim[i]:lim[i + 1]]),
                 "dimension %d is not fixed at %r", i, grid[k])
            need((A[:, other] >= box[other, 0] - 1e-9).all() and
                 (A[:, other] <= box[other, 1] + 1e-9).all(),
                 "samples out of the space")
            need(abs(yi[k] - surface(A).mean()) < 1e-9 * max(1, abs(yi[k])),
                 "not the mean")
        if len(other) and case["ns"] > 20 and any(
                s["k"] == "real" for q, s in enumerate(specs) if q != i):
            need(len(np.unique(model.asked[0][:, other], axis=0)) > 1,
                 "the samples are all the same")
    else:
        gi, want = own_pd(space, specs, use, i, n)
        for xi, yi in got:
            need(close(xi, gi), "grid %r, expected %r", list(xi), gi)
            need(close(yi, want), "partial dependence on %d is %r, by "
                 "definition %r", i, list(yi), want)
    if nd > 1 and i != j and use is not None:
        kw = dict(x_eval=pts[0]) if how == "x_eval" else \
            dict(sample_points=samples)
        two = [partial_dependence(space, model, i, j, n_points=n, **kw)]
        if how == "samples":
            two.append(partial_dependence_2D(space, model, i, j, samples,
                                             n_points=n))
        gi, gj, want = own_pd(space, specs, use, i, n, j)
        for xi, yi, zi in two:
            need(close(xi, gj) and close(yi, gi), "grids %r %r", xi, yi)
            need(close(zi, want), "partial dependence on (%d, %d) is %r, by "
                 "definition %r", i, j, zi, want)
    need(np.array_equal(samples, keep), "the sample points were changed")
    ctx.label(how, "%d dims" % nd, specs[i]["k"])
    ctx.nontrivial(nd > 1 and len(grid) > 1)


def plot_space(min_dims=1, max_dims=3):
    return G.space_spec(
        min_dims, max_dims,
        real_kw=dict(transforms=(None, "normalize"), wide=False),
        int_kw=dict(transforms=(None, "normalize"), wide=False),
        cat_kw=dict(transforms=(None, "onehot", "label", "normalize"),
                    max_cats=5, kinds=("str", "int", "bool", "float")))


def case_pd():
    from hypothesis import strategies as st

    def more(ds):
        n = len(ds)
        return st.fixed_dictionaries({
            "dims": st.just(ds), "norm": st.booleans(),
            "names": st.just([None] * n),
            "X": st.lists(G.fracs(n), min_size=1, max_size=6),
            "n_points": st.integers(1, 7), "i": st.integers(0, 3),
            "j": st.integers(0, 3), "ns": st.sampled_from([1, 7, 40]),
            "how": st.sampled_from(["samples", "samples", "x_eval",
                                    "random"])})
    return plot_space(1, 4).flatmap(more)


# ------------------------------------------------------------------ traces

def fake_result(vals, n_dims=1):
    from scipy.optimize import OptimizeResult
    return OptimizeResult(x_iters=[[0.5] * n_dims for _ in vals],
                          func_vals=np.array(vals, dtype=float))


def t_traces(case, ctx):
    import matplotlib.pyplot as plt
    from skopt.plots import plot_convergence, plot_regret
    plt.close("all")
    args, want = [], []
    tm = case["true_minimum"]
    flat = [v for g in case["groups"] for r in g["runs"] for v in r]
    for which in (plot_convergence, plot_regret):
        opt = min(flat) if tm is None else tm

        def trace(r):
            if which is plot_convergence:
                return [min(r[:k + 1]) for k in range(len(r))]
            return [sum(v - opt for v in r[:k + 1]) for k in range(len(r))]
        args, want = [], []
        for g in case["groups"]:
            runs = g["runs"]
            if g["list"]:
                m = min(map(len, runs))
                runs = [r[:m] for r in runs]
                obj = [fake_result(r) for r in runs]
                ts = [trace(r) for r in runs]
                want += ts + [[float(np.mean(c)) for c in zip(*ts)]]
            else:
                obj = fake_result(runs[0])
                want += [trace(runs[0])]
            args.append((g["label"], obj) if g["label"] is not None else obj)
        # the optimum is that of what is shown
        if tm is None:
            flat2 = []
            for a in args:
                a = a[1] if isinstance(a, tuple) else a
                for r in (a if isinstance(a, list) else [a]):
                    flat2 += list(r.func_vals)
            if min(flat2) != opt and which is plot_regret:
                opt = min(flat2)
                want = []
                for a in args:
                    a = a[1] if isinstance(a, tuple) else a
                    rs = [list(r.func_vals) for r in
                          (a if isinstance(a, list) else [a])]
                    ts = [trace(r) for r in rs]
                    want += ts
                    if isinstance(a, list):
                        want += [[float(np.mean(c)) for c in zip(*ts)]]
        if case["own_ax"]:
            _, ax = plt.subplots()
        else:
            plt.figure()
            ax = None
        kw = {} if tm is None else {"true_minimum": tm}
        if case["yscale"]:
            kw["yscale"] = case["yscale"]
        out = which(*args, ax=ax, **kw)
        need(ax is None or out is ax, "the axes returned are others")
        lines = [(list(l.get_xdata()), list(l.get_ydata()), l)
                 for l in out.get_lines()]
        hor = [l for l in lines if l[2].get_label() == "True minimum"]
        lines = [l for l in lines if l[2].get_label() != "True minimum"]
        need(len(lines) == len(want), "%s: %d traces, expected %d",
             which.__name__, len(lines), len(want))
        for (x, y, _), w in zip(lines, want):
            need(x == list(range(1, len(w) + 1)), "calls %r", x)
            need(close(y, w, 1e-9), "%s: trace %r, expected %r",
                 which.__name__, y, w)
        if which is plot_convergence:
            need(len(hor) == (tm is not None), "the true minimum %r is %s",
                 tm, "not drawn" if not hor else "drawn")
            for h in hor:
                need(set(h[1]) == {tm}, "true minimum drawn at %r", h[1])
        if case["yscale"]:
            need(out.get_yscale() == case["yscale"], "yscale")
        labels = [l[2].get_label() for l in lines]
        for g in case["groups"]:
            if g["label"] is not None:
                need(g["label"] in labels, "no trace is labelled %r, %r",
                     g["label"], labels)
        plt.close("all")
    ctx.label("true minimum" if tm is not None else "no minimum",
              "%d groups" % len(case["groups"]))
    ctx.nontrivial(len(want) > 1 and max(map(len, want)) > 2)


def case_traces():
    from hypothesis import strategies as st
    v = st.sampled_from([0.0, 1.0, -1.0, 2.5, 3.0, -7.25, 10.0, 0.125])
    group = st.fixed_dictionaries({
        "runs": st.lists(st.lists(v, min_size=1, max_size=7), min_size=1,
                         max_size=3),
        "list": st.booleans(),
        "label": st.sampled_from([None, "one", "two", "three"])})
    return st.fixed_dictionaries({
        "groups": st.lists(group, min_size=1, max_size=3),
        "true_minimum": st.sampled_from([None, 0.0, -8.0, 1.5]),
        "own_ax": st.booleans(),
        "yscale": st.sampled_from([None, "symlog", "linear"])})


# ---------------------------------------------------- plot_gaussian_process

def t_gp(case, ctx):
    import matplotlib.pyplot as plt
    from skopt.plots import plot_gaussian_process
    plt.close("all")
    del M.LOG[:]
    cfg = case["cfg"]
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])
    if case["minimize"]:
        from skopt.optimizer import base_minimize
        res = base_minimize(
            f, G.make_dims(specs), M.make_estimator(cfg["est"]),
            n_calls=cfg["n_init"] + case["extra"],
            n_initial_points=cfg["n_init"], acq_func=cfg["acq"],
            acq_optimizer="sampling", random_state=cfg["seed"],
            model_queue_size=cfg["queue"], n_points=cfg["n_points"],
            **(cfg["acqk"] or {}))
    else:
        opt = M.make_optimizer(cfg)
        for _ in range(cfg["n_init"] + case["extra"]):
            p = opt.ask()
            res = opt.tell(p, f(p))
    told_X, told_y = list(res.x_iters), list(res.func_vals)
    n_models = len(res.models)
    if case["no_specs"]:
        res.specs = None
    k = case["n_calls"]
    k = -1 if k >= n_models else k
    model = res.models[k]
    n_shown = len(told_X) if k < 0 else len(told_X) - n_models + 1 + k
    fitted = [e for e in M.LOG if e[0] == "fit" and e[1] == id(model)] \
        if cfg["est"] != "GP" else []
    if fitted:
        need(len(fitted[-1][2]) == n_shown, "harness: model %d was fitted on "
             "%d points, %d", k, len(fitted[-1][2]), n_shown)
    kw = {a: case["show"][a] for a in case["show"]}
    if case["with_obj"]:
        kw["objective"] = lambda x: f([x[0]])
        kw["noise_level"] = case["noise"]
    _, ax = plt.subplots()
    out = plot_gaussian_process(res, ax=ax if case["noise"] else None,
                                n_calls=k, n_points=case["n_points"], **kw)
    need(out is ax, "axes")
    d = res.space.dimensions[0]
    g = grid_of(specs[0], case["n_points"])[0]
    rows = np.array([image(res.space, [v]) for v in g])
    every = [l for a in ax.figure.axes for l in a.get_lines()]
    by = {}
    for l in every:
        by[l.get_label()] = l
    mu, sd = model.predict(rows, return_std=True)
    # the std of a GP that interpolates is the root of a rounding error
    loose = 0.02 * max(np.abs(mu).max(), np.ptp(told_y)) \
        if cfg["est"] == "GP" else 0.0
    show = case["show"]
    for name, flag in ((r"$\mu_{GP}(x)$", show.get("show_mu", True)),
                       ("Observations", show.get("show_observations", True)),
                       ("True (unknown)", case["with_obj"])):
        need((name in by) == flag, "%s is %sdrawn", name,
             "not " if flag else "")
    if r"$\mu_{GP}(x)$" in by:
        l = by[r"$\mu_{GP}(x)$"]
        need(close(np.ravel(l.get_xdata()), g) and
             close(np.ravel(l.get_ydata()), mu, 1e-6), "the mean drawn is "
             "not that of model %d", k)
        # the band
        polys = [p for p in ax.patches if len(p.get_xy()) >= 2 * len(g)]
        bands = [p.get_xy()[:2 * len(g), 1] for p in polys]
        want = np.concatenate([mu - 1.96 * sd, (mu + 1.96 * sd)[::-1]])
        need(any(close(b, want, 1e-5) or loose and np.allclose(
            b, want, rtol=0, atol=loose) for b in bands), "the band drawn is "
             "not 1.96 standard deviations")
    if "Observations" in by:
        l = by["Observations"]
        need(close(np.ravel(l.get_xdata()), [float(p[0]) for p in
                                             told_X[:n_shown]]) and
             close(np.ravel(l.get_ydata()), told_y[:n_shown]),
             "observations %r drawn, model %d of %d has seen the first %d of "
             "%d points", list(np.ravel(l.get_xdata())), k, n_models, n_shown,
             len(told_X))
    if "True (unknown)" in by:
        fx = np.array([f([v]) for v in g])
        need(close(np.ravel(by["True (unknown)"].get_ydata()), fx, 1e-6),
             "the objective drawn")
        half = 1.96 * case["noise"]
        want = np.concatenate([fx - half, (fx + half)[::-1]])
        need(any(close(p.get_xy()[:2 * len(g), 1], want, 1e-6)
                 for p in ax.patches if len(p.get_xy()) >= 2 * len(g)),
             "the band drawn is not the objective and 1.96 noise levels")
    acq = case["cfg"]["acq"]
    shown = "EI" if acq == "gp_hedge" or case["no_specs"] else acq
    if show.get("show_acq_func"):
        akw = {} if case["no_specs"] else cfg.get("acqk") or {}
        y_opt = float(min(told_y[:n_shown]))
        want = [-M.acq_value(shown, float(a), float(b), y_opt,
                             akw.get("xi", 0.01), akw.get("kappa", 1.96))
                for a, b in zip(mu, sd)]
        name = shown + "(x)"
        need(name in by, "no acquisition function %r among %r", name,
             sorted(by))
        y = np.ravel(by[name].get_ydata())
        tol = max(2.0 if loose and shown == "PI" else 10 * loose,
                  1e-6 * max(1.0, np.abs(want).max()))
        need(np.allclose(y, want, rtol=0, atol=tol), "the acquisition "
             "function drawn is not %s", name)
        if show.get("show_next_point"):
            l = by.get("Next query point")
            need(l is not None, "no next point")
            nx = float(np.ravel(l.get_xdata())[0])
            ny = float(np.ravel(l.get_ydata())[0])
            need(ny >= max(want) - tol and min(
                abs(nx - v) for v, w in zip(g, want)
                if w >= max(want) - 2 * tol) <= 1e-9 * (1 + abs(nx)),
                "the next point (%r, %r) does not maximise it", nx, ny)
    if show.get("show_title", True):
        need("%.4f" % res.fun in ax.get_title() and
             "%.4f" % res.x[0] in ax.get_title(), "title %r",
             ax.get_title())
    plt.close("all")
    ctx.label(cfg["est"], shown, "model %d of %d" % (k, n_models))
    ctx.nontrivial(n_models > 1)


def case_gp():
    from hypothesis import strategies as st
    one = st.one_of(G.real_spec(wide=False), G.int_spec(wide=False)).map(
        lambda d: [d])
    return st.fixed_dictionaries({
        "cfg": M.config(ests=("gpspy", "probe", "GP"),
                        acqs=("EI", "LCB", "PI", "gp_hedge"), dims=one,
                        max_init=4).filter(
            lambda c: c["n_init"] > 0),
        "obj": G.objective_spec(), "extra": st.integers(0, 4),
        "n_calls": st.integers(-1, 4), "n_points": st.integers(2, 30),
        "no_specs": st.booleans(), "with_obj": st.booleans(),
        "minimize": st.booleans(),
        "noise": st.sampled_from([0, 0.5]),
        "show": st.fixed_dictionaries({}, optional={
            "show_mu": st.booleans(), "show_acq_func": st.booleans(),
            "show_next_point": st.booleans(),
            "show_observations": st.booleans(), "show_title": st.booleans(),
            "show_legend": st.booleans()})})


# ------------------------------------------------------------- the matrices

def mapped(specs, p):
    """Categories by their index."""
    out = []
    for s, v in zip(specs, p):
        if s["k"] == "cat":
            out.append([k for k, c in enumerate(G.cats_of(s))
                        if G.same_value(c, v)][0])
        else:
            out.append(float(v))
    return out


def offsets(ax):
    return [np.asarray(c.get_offsets(), dtype=float)
            for c in ax.collections if len(np.atleast_2d(
                c.get_offsets())) and type(c).__name__ == "PathCollection"]


def t_matrix(case, ctx):
    import matplotlib.axes
    import matplotlib.pyplot as plt
    from scipy.optimize import OptimizeResult
    from skopt import plots
    from skopt.space import Space
    plt.close("all")
    specs = case["dims"]
    space = Space(dims_of(case))
    if case["norm"]:
        for d in space.dimensions:
            d.set_transformer("normalize")
    nd = len(specs)
    pts = [G.decode_point(specs, u) for u in case["X"]]
    vals = [float((7 * k) % 5) for k in range(len(pts))]
    best = vals.index(min(vals))
    model = Known()
    res = OptimizeResult(x_iters=pts, func_vals=np.array(vals),
                         x=list(pts[best]), fun=vals[best], space=space,
                         models=[object(), model], specs=None)
    const = [s["k"] == "cat" and len(s["cats"]) == 1 for s in specs]
    which = case["which"]
    idx = [i for i in range(nd) if not const[i]]
    plot_dims = None
    if case["sub"]:
        order = [q % nd for q in case["sub"]]
        idx = list(dict.fromkeys(order))
        plot_dims = [case["names"][i] if case["names"][i] is not None and
                     case["by_name"] else i for i in idx]
    if not idx or (which in ("2d", "hist") and nd < 1):
        idx = [0]
        plot_dims = [0]
    if which == "objective" and len(idx) > 1 and any(const[q] for q in idx):
        raise Reject         # there is no contour along a constant
    rec = []
    real_contourf = matplotlib.axes.Axes.contourf

    def contourf(self, *a, **k):
        rec.append((self, a))
        return real_contourf(self, *a, **k)
    n = case["n_points"]
    source = case["source"]
    used = {"result": [pts[best]], "list": [pts[0]]}.get(source)
    star_at = pts[best] if case["minimum"] == "result" else pts[-1]
    expected = case["minimum"].startswith("expected")
    kw = dict(n_points=n, n_samples=9, n_minimum_search=case["search"],
              sample_source=list(pts[0]) if source == "list" else source,
              minimum=list(pts[-1]) if case["minimum"] == "list" else
              case["minimum"])
    given = None
    if case["labels"]:
        given = ["label %d" % q for q in range(len(idx))]
        kw["dimensions"] = given
    any_cat = any(s["k"] == "cat" for s in specs)
    if which in ("objective", "2d") and case["bad"]:
        for bad in ({"minimum": "expected"}, {"sample_source": "best"},
                    {"zscale": "logarithmic"}, {"minimum": 3}, {
                        "minimum": "expected_minimum"} if any_cat else {
                        "minimum": "none"}):
            if "zscale" in bad and which == "2d":
                continue
            kw2 = dict(kw, **bad)
            kw2.pop("dimensions", None)
            try:
                if which == "objective":
                    plots.plot_objective(res, plot_dims=plot_dims, **kw2)
                else:
                    plots.plot_objective_2D(res, 0, nd - 1, **kw2)
            except ValueError:
                plt.close("all")
                continue
            need(False, "accepted: %r", bad)
    if any_cat and "expected_minimum" in (case["minimum"], source):
        raise Reject
    P = np.array([mapped(specs, p) for p in pts])
    star = mapped(specs, star_at)
    matplotlib.axes.Axes.contourf = contourf
    try:
        own = {}
        if case.get("own") and which in ("2d", "hist"):
            # other axes are current
            own["ax"], other = plt.subplots(1, 2)[1]
        if which == "objective":
            ax = plots.plot_objective(res, plot_dims=plot_dims,
                                      show_points=case["points"], **kw)
        elif which == "evaluations":
            ax = plots.plot_evaluations(res, bins=case["bins"],
                                        plot_dims=plot_dims,
                                        dimensions=given)
            star = mapped(specs, pts[best])
        elif which == "2d":
            i, j = case["i"] % nd, case["j"] % nd
            if i == j:
                j = (i + 1) % nd
            if const[i] or const[j]:
                raise Reject
            ident = [case["names"][q] if case["names"][q] is not None and
                     case["by_name"] else q for q in (i, j)]
            kw.pop("dimensions", None)
            ax = plots.plot_objective_2D(res, *ident, **kw, **own)
        else:
            i = case["i"] % nd
            ident = case["names"][i] if case["names"][i] is not None and \
                case["by_name"] else i
            ax = plots.plot_histogram(res, ident, bins=case["bins"], **own)
        if own and which in ("2d", "hist"):
            need(ax is own["ax"] and not other.has_data(),
                 "%s: drawn in other axes than those given", which)
        if case["draw"]:
            plt.gcf().canvas.draw()
    finally:
        matplotlib.axes.Axes.contourf = real_contourf

    def label(q):
        if given is not None:
            return given[idx.index(q)]
        return case["names"][q] if case["names"][q] is not None else \
            "$X_{%i}$" % q

    if case["search"] and case["search"] > 9 and \
            which in ("objective", "2d"):
        # that many points were looked at, each time (the dependences
        # average over at most nine)
        times = (case["minimum"], source).count("expected_minimum_random")
        rows = sum(len(a) for a in model.asked if len(a) > 9)
        need(rows >= times * case["search"], "the minimum was searched among "
             "%d points, asked for %d", rows, times * case["search"])
        if times:
            ctx.label("searched")
    if expected and which in ("objective", "2d"):
        # somewhere in the space, not above the best observation
        if which == "2d":
            shown = dict(zip((i, j), np.ravel(offsets(ax)[-1])))
        else:
            k = len(idx)
            grid = np.array(ax, dtype=object).reshape(k, k) if k > 1 else \
                np.array([[ax]], dtype=object)
            shown = {q: np.ravel(grid[r, r].get_lines()[1].get_xdata())[0]
                     for r, q in enumerate(idx)}
        star = [float(shown.get(q, np.nan)) for q in range(nd)]
        for q, v in shown.items():
            s = specs[q]
            if s["k"] == "real":
                e = 1e-9 * (s["high"] - s["low"])
                need(s["low"] - e <= v <= s["high"] + e, "the minimum is at "
                     "%r in %r", v, s)
            elif s["k"] == "int":
                need(v == int(v) and s["low"] <= v <= s["high"], "the "
                     "minimum is at %r in %r", v, s)
            else:
                need(v == int(v) and 0 <= v < len(s["cats"]), "category %r",
                     v)
        if len(shown) == nd - sum(const) and not any_cat and \
                case["minimum"] == "expected_minimum" and nd == len(shown):
            a, b = surface([image(space, star), image(space, pts[best])])
            need(a <= b + 1e-9 * max(1, abs(b)), "the expected minimum %r is "
                 "above the observed, %r, %r", star, a, b)

    def contour_ok(a, qx, qy):
        """The contour on axes a is the surface by (qx across, qy up)."""
        mine = [r for r in rec if r[0] is a]
        if not rec:
            return
        need(len(mine) == 1, "%d contours", len(mine))
        xi, yi, zi = [np.asarray(v, dtype=float) for v in mine[0][1][:3]]
        gx, gy = grid_of(specs[qx], n)[0], grid_of(specs[qy], n)[0]
        need(close(xi, gx) and close(yi, gy), "grids of the contour of %d "
             "and %d", qx, qy)
        if used is not None:
            _, _, want = own_pd(space, specs, used, qy, n, qx)
            need(close(zi, want), "contour of (%d, %d) is %r, by definition "
                 "%r", qx, qy, zi, want)
    if which in ("objective", "evaluations"):
        k = len(idx)
        grid = np.array(ax, dtype=object).reshape(k, k) if k > 1 else \
            np.array([[ax]], dtype=object)
        for r in range(k):
            for c in range(r + 1):
                a = grid[r, c]
                within(a, diagonal=r == c)
                if r == c:
                    q = idx[r]
                    if which == "objective":
                        l = a.get_lines()
                        need(len(l) == 2, "%d lines on the diagonal", len(l))
                        need(close(l[0].get_xdata(), grid_of(
                            specs[q], n)[0]), "grid of the diagonal")
                        if used is not None:
                            _, want = own_pd(space, specs, used, q, n)
                            need(close(l[0].get_ydata(), want), "dependence "
                                 "on %d is %r, by definition %r", q,
                                 list(l[0].get_ydata()), want)
                        need(close(np.ravel(l[1].get_xdata())[0], star[q]),
                             "the minimum is marked at %r, it is at %r",
                             l[1].get_xdata(), star[q])
                    else:
                        hist_ok(a, specs[q], P[:, q], case["bins"])
                else:
                    qx, qy = idx[c], idx[r]
                    off = offsets(a)
                    if which == "evaluations" or case["points"]:
                        need(len(off) == 2 and close(off[0], P[:, [qx, qy]]),
                             "the points at (%d, %d) are %r, the evaluations "
                             "%r", qx, qy, off, P[:, [qx, qy]])
                    else:
                        need(len(off) == 1, "points drawn")
                    need(close(off[-1], [[star[qx], star[qy]]]), "the star "
                         "is at %r, expected %r", off[-1],
                         [star[qx], star[qy]])
                    if which == "evaluations":
                        col = np.asarray(a.collections[0].get_array())
                        need(list(col) == sorted(col) and
                             len(set(col)) == len(pts), "colours are not the "
                             "order of evaluation")
                    else:
                        contour_ok(a, qx, qy)
                    if r == k - 1:
                        need(a.get_xlabel() == label(qx), "xlabel %r for %r",
                             a.get_xlabel(), label(qx))
                    if c == 0:
                        need(a.get_ylabel() == label(qy), "ylabel %r for %r",
                             a.get_ylabel(), label(qy))
                    # only the bottom row and the left column are labelled
                    for nm, s, on in (("x", specs[qx], r == k - 1),
                                      ("y", specs[qy], c == 0)):
                        if on and s["k"] == "cat":
                            fm = getattr(a, nm + "axis").get_major_formatter()
                            cs = G.cats_of(s)
                            txt = [fm(t, 0) for t in range(len(cs))]
                            need(txt == [str(c) for c in cs], "ticks of %r "
                                 "are labelled %r", cs, txt)
                        log = s.get("prior") == "log-uniform" and \
                            s["k"] != "cat"
                        need((getattr(a, "get_%sscale" % nm)() == "log") ==
                             log, "%s scale of %r", nm, s)
        n_axes = k * k
    elif which == "2d":
        contour_ok(ax, i, j)
        off = offsets(ax)
        need(len(off) == 2 and close(off[0], P[:, [i, j]]), "points of 2D")
        need(close(off[1], [[star[i], star[j]]]), "star %r, expected %r",
             off[1], [star[i], star[j]])
        need((ax.get_xlabel() or None) == case["names"][i] and
             (ax.get_ylabel() or None) == case["names"][j], "labels of 2D")
        n_axes = 1
    else:
        s = specs[i]
        if s["k"] == "cat":
            counts = {}
            for p in pts:
                counts[str(p[i])] = counts.get(str(p[i]), 0) + 1
            bars = [b.get_height() for b in ax.patches]
            labels = [t.get_text() for t in ax.get_xticklabels()]
            need(dict(zip(labels, bars)) == counts and
                 len(labels) == len(counts), "bars %r, counts %r",
                 dict(zip(labels, bars)), counts)
        else:
            hist_ok(ax, s, P[:, i], case["bins"])
        n_axes = 1
    need(G.same_points(res.x_iters, [G.decode_point(specs, u)
                                     for u in case["X"]]) and
         len(res.models) == 2, "the result was changed")
    plt.close("all")
    ctx.label(which, source, "%d of %d dims" % (len(idx), nd))
    ctx.nontrivial(n_axes > 1 or which in ("2d", "hist"))


def within(a, diagonal):
    """What is drawn in the panel is within its limits."""
    lo, hi = sorted(a.get_ylim())
    e = 1e-6 * (hi - lo)
    if diagonal:
        ys = [p.get_height() for p in a.patches]
        if a.get_lines():
            ys = list(np.ravel(a.get_lines()[0].get_ydata()))
        need(all(lo - e <= y <= hi + e for y in ys), "the panel ends at "
             "(%r, %r), drawn is %r", lo, hi, ys)
    else:
        left, right = sorted(a.get_xlim())
        d = 1e-6 * (right - left)
        for x, y in np.vstack(offsets(a)):
            need(left - d <= x <= right + d and lo - e <= y <= hi + e,
                 "(%r, %r) is not within the panel %r, %r", x, y,
                 (left, right), (lo, hi))


def hist_ok(a, s, col, bins):
    hs = [(p.get_x(), p.get_width(), p.get_height()) for p in a.patches]
    need(abs(sum(h for _, _, h in hs) - len(col)) < 1e-9, "the histogram has "
         "%r samples of %d", sum(h for _, _, h in hs), len(col))
    if s["k"] == "cat":
        need(len(hs) == len(s["cats"]), "%d bars for %d categories", len(hs),
             len(s["cats"]))
        return
    need(len(hs) == bins, "%d bins, asked for %d", len(hs), bins)
    lo, hi = float(s["low"]), float(s["high"])
    w = hi - lo
    need(abs(hs[0][0] - lo) <= 1e-9 * (abs(lo) + w) and
         abs(hs[-1][0] + hs[-1][1] - hi) <= 1e-9 * (abs(hi) + w),
         "bins from %r to %r", hs[0][0], hs[-1][0] + hs[-1][1])
    for k, (x, wd, h) in enumerate(hs):
        e = 1e-9 * (abs(x) + wd)
        inner = int(np.sum((col > x + e) & (col < x + wd - e)))
        outer = int(np.sum((col >= x - e) & (col <= x + wd + e)))
        need(inner <= h <= outer, "bin [%r, %r] has %r samples, %d..%d",
             x, x + wd, h, inner, outer)
    ws = [wd / (1 if s["prior"] == "uniform" else x) for x, wd, _ in hs]
    need(max(ws) <= min(ws) * (1 + 1e-6), "bins are not even")


def case_matrix():
    from hypothesis import strategies as st

    def more(ds):
        n = len(ds)
        pool = ["alpha", "b", "third", "4"]
        return st.fixed_dictionaries({
            "dims": st.just(ds), "norm": st.booleans(),
            "names": st.tuples(*[st.sampled_from([None, pool[k]])
                                 for k in range(n)]).map(list),
            "X": st.lists(G.fracs(n), min_size=1, max_size=7),
            "which": st.sampled_from(
                ["objective", "objective", "evaluations", "evaluations",
                 "2d", "hist", "hist"] if n > 1 else
                ["objective", "evaluations", "hist", "hist"]),
            "n_points": st.integers(2, 5),
            "bins": st.sampled_from([1, 2, 5, 20]),
            "source": st.sampled_from(["result", "list", "random", "result",
                                       "list", "expected_minimum",
                                       "expected_minimum_random"]),
            "minimum": st.sampled_from(["result", "list", "result", "list",
                                        "expected_minimum",
                                        "expected_minimum_random"]),
            "search": st.sampled_from([None, 1, 4, 30, 300]),
            "labels": st.booleans(),
            "bad": st.sampled_from([False] * 9 + [True]),
            "points": st.booleans(),
            "sub": st.one_of(st.just([]), st.lists(st.integers(0, 3),
                                                   min_size=1, max_size=3)),
            "by_name": st.booleans(), "i": st.integers(0, 3),
            "j": st.integers(0, 3),
            "own": st.booleans(),
            "draw": st.sampled_from([False, False, False, True])})
    return plot_space(1, 4).filter(
        lambda ds: all(s["k"] != "cat" or len(s["cats"]) > 1 or len(ds) > 1
                       for s in ds)).flatmap(more)


PROP = Prop("C25", [
    Sub("dependence", case_pd, t_pd, 800, shards=8,
        rule="another dimension is averaged over and the grid has two "
             "values or more"),
    Sub("traces", case_traces, t_traces, 200, shards=4,
        rule="two traces or more"),
    Sub("gp", case_gp, t_gp, 240, shards=8,
        rule="the result has more than one model"),
    Sub("matrix", case_matrix, t_matrix, 400, shards=8,
        rule="two dimensions are shown together, or a histogram"),
])
