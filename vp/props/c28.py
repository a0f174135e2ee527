"""C28 telling many points at once, in any grouping, is telling them one by
one."""
import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


def fits_of(log):
    return [(e[2], e[3]) for e in log if e[0] == "fit"]


def t_groups(case, ctx):
    cfg = case["cfg"]
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])
    pts = [G.decode_point(specs, u) for u in case["X"]]
    ys = [M.yval(cfg, f, p, k) for k, p in enumerate(pts)]
    n = len(pts)
    cuts = sorted({c % (n + 1) for c in case["cuts"]} | {0, n})
    outs = []
    for mode in ("one", "batch", "groups"):
        del M.LOG[:]
        opt = M.make_optimizer(cfg)
        res = None
        if mode == "one":
            for k, (p, y) in enumerate(zip(pts, ys)):
                res = opt.tell(p, y, fit=k == n - 1)
        elif mode == "batch":
            res = opt.tell([list(p) for p in pts], list(ys))
        else:
            for a, b in zip(cuts, cuts[1:]):
                res = opt.tell(pts[a:b], ys[a:b], fit=b == n)
        outs.append((mode, opt, res, fits_of(M.LOG)))
    _, o1, r1, f1 = outs[0]
    for mode, o, r, fs in outs[1:]:
        need(G.close_points(o.Xi, o1.Xi) and len(o.yi) == len(o1.yi) and
             all(M.same_y(cfg, a, b) for a, b in zip(o.yi, o1.yi)),
             "%s: another history", mode)
        need(G.close_points(r.x_iters, r1.x_iters) and
             G.close_arr(r.func_vals, r1.func_vals) and
             G.close_point(r.x, r1.x), "%s: another result", mode)
        need(len(o.models) == len(o1.models), "%s: %d models, one by one %d",
             mode, len(o.models), len(o1.models))
        need(len(fs) == len(f1) and all(
            G.close_arr(a[0], b[0]) and G.close_arr(a[1], b[1])
            for a, b in zip(fs, f1)), "%s: the surrogate was trained on "
            "other data", mode)
    steps = 0
    alive = True
    for _ in range(case["after"]):
        if not o1.models and o1._n_initial_points <= 0 and \
                cfg["est"] != "dummy":
            alive = False
        if not alive:
            break
        asked = [o.ask() for _, o, _, _ in outs]
        for (mode, _, _, _), p in zip(outs[1:], asked[1:]):
            need(G.close_point(p, asked[0]), "%s: the next point is %r, one "
                 "by one %r", mode, p, asked[0])
        y = M.yval(cfg, f, asked[0], steps)
        for _, o, _, _ in outs:
            o.tell(asked[0], y)
        steps += 1
    ctx.label(cfg["est"], cfg["acq"], "%d groups" % (len(cuts) - 1))
    ctx.nontrivial(n > 1 and bool(o1.models))


def t_prefix(case, ctx):
    """Points that came before the models are the same with and without a
    history that is told first; y0 given and y0 evaluated are the same."""
    from skopt.optimizer import base_minimize
    cfg = case["cfg"]
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])
    pts = [G.decode_point(specs, u) for u in case["X"]]

    def once(given):
        seen = []
        count = [0]

        def val(p):
            count[0] += 1
            return M.yval(cfg, f, p, count[0])

        def func(p):
            seen.append(list(p))
            return val(p)
        y0 = [val(p) for p in pts] if given else None
        n = cfg["n_init"] + case["extra"]
        res = base_minimize(
            func, G.make_dims(specs), M.make_estimator(cfg["est"], 3),
            n_calls=n if given else n + len(pts),
            n_initial_points=cfg["n_init"],
            initial_point_generator=cfg["gen"], acq_func=cfg["acq"],
            acq_optimizer="sampling", n_points=cfg["n_points"],
            x0=[list(p) for p in pts], y0=y0, random_state=cfg["seed"])
        return seen, res
    a, ra = once(False)
    b, rb = once(True)
    need(G.close_points(a[:len(pts)], pts), "x0 is %r, evaluated %r", pts, a)
    need(G.close_points(a[len(pts):], b), "with y0 the search goes to\n%r, "
         "when x0 is evaluated to\n%r", b, a[len(pts):])
    need(G.close_points(ra.x_iters, rb.x_iters) and
         G.close_arr(ra.func_vals, rb.func_vals) and
         len(ra.models) == len(rb.models), "with y0 the result is another")
    ctx.label(cfg["est"], cfg["acq"])
    ctx.nontrivial(case["extra"] > 0)


def strat(prefix=False):
    from hypothesis import strategies as st

    def more(c):
        d = {"cfg": st.just(dict(c, n_init=max(1, c["n_init"]))),
             "obj": G.objective_spec(),
             "X": st.lists(G.fracs(len(c["dims"])), min_size=1,
                           max_size=7 if not prefix else 4)}
        if prefix:
            d["extra"] = st.integers(0, 3)
        else:
            d["cuts"] = st.lists(st.integers(0, 7), max_size=3)
            d["after"] = st.integers(1, 3)
        return st.fixed_dictionaries(d)
    return M.config(ests=("probe", "probe", "gpspy", "et") if prefix else
                    ("probe", "probe", "gpspy", "et", "dummy"),
                    n_points=(5, 20)).flatmap(more)


PROP = Prop("C28", [
    Sub("groups", strat, t_groups, 500, shards=8,
        rule="two points or more, and a surrogate was fitted"),
    Sub("x0", lambda: strat(True), t_prefix, 240, shards=8,
        rule="points after the initial design"),
])
