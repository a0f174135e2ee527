"""Shared by the optimizer properties: estimators that record how they are
used, optimizer configurations as JSON, and an interpreter of histories with a
reference model."""
import math
import sys
import warnings

import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin

from . import gens as G
from .core import need

LOG = []          # ("fit", model id, X, y) / ("pred", model id, X, mean, std)


def _probe_eval(Xt, yt, X):
    """Mean and std of the probe: nearest neighbour and a bump between."""
    X = np.asarray(X, dtype=float)
    d = np.sqrt(((X[:, None, :] - Xt[None, :, :]) ** 2).sum(-1))
    i = d.argmin(axis=1)
    scale = 1.0 + np.abs(Xt).max()
    dm = d[np.arange(len(X)), i] / scale
    w = 1.0 / (d / scale + 1e-3) ** 2
    mean = (w * yt).sum(1) / w.sum(1)
    std = np.abs(yt).max() * 0.5 * dm + 0.1 * dm
    # ties between candidates are broken by a fixed pattern
    mean = mean + 1e-6 * np.sin(X.dot(np.arange(1, X.shape[1] + 1)) * 11.0)
    return mean, std


class Probe(RegressorMixin, BaseEstimator):
    """A cheap regressor that records what it is given."""

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y):
        self.X_ = np.array(X, dtype=float)
        self.y_ = np.array(y, dtype=float)
        LOG.append(("fit", id(self), self.X_.copy(), self.y_.copy()))
        return self

    def predict(self, X, return_std=False):
        m, s = _probe_eval(self.X_, self.y_, X)
        LOG.append(("pred" if return_std else "mean", id(self),
                    np.array(X, dtype=float), m.copy(), s.copy()))
        return (m, s) if return_std else m


_SPY = None


def spy_gp_class():
    """GaussianProcessRegressor that records fits and predictions."""
    global _SPY
    if _SPY is None:
        from skopt.learning import GaussianProcessRegressor

        class SpyGP(GaussianProcessRegressor):
            def fit(self, X, y):
                super().fit(X, y)
                LOG.append(("fit", id(self), np.array(X, dtype=float),
                            np.array(y, dtype=float)))
                return self

            def predict(self, X, return_std=False, return_cov=False,
                        return_mean_grad=False, return_std_grad=False):
                r = super().predict(X, return_std, return_cov,
                                    return_mean_grad, return_std_grad)
                if return_std and not return_mean_grad:
                    LOG.append(("pred", id(self), np.array(X, dtype=float),
                                np.array(r[0]), np.array(r[1])))
                return r
        SpyGP.__qualname__ = SpyGP.__name__ = "SpyGP"
        globals()["SpyGP"] = SpyGP
        _SPY = SpyGP
    return _SPY


def __getattr__(name):            # SpyGP, when unpickling
    if name == "SpyGP":
        return spy_gp_class()
    raise AttributeError(name)


def make_estimator(name, seed=0, n_jobs=1):
    """Cheap estimators; strings are passed through."""
    if name == "probe":
        return Probe(tag=7)
    if name == "gpspy":
        from skopt.learning.gaussian_process.kernels import (ConstantKernel,
                                                             Matern)
        return spy_gp_class()(
            kernel=ConstantKernel(1.0, "fixed") * Matern(
                0.6, length_scale_bounds="fixed", nu=2.5),
            optimizer=None, normalize_y=True, noise=1e-4, random_state=seed)
    if name == "et":
        from skopt.learning import ExtraTreesRegressor
        return ExtraTreesRegressor(n_estimators=8, min_samples_leaf=1,
                                   min_variance=0.01, random_state=seed,
                                   n_jobs=n_jobs)
    if name == "rf":
        from skopt.learning import RandomForestRegressor
        return RandomForestRegressor(n_estimators=8, min_samples_leaf=1,
                                     min_variance=0.01, random_state=seed,
                                     n_jobs=n_jobs)
    if name == "gbrt":
        from sklearn.ensemble import GradientBoostingRegressor
        from skopt.learning import GradientBoostingQuantileRegressor
        return GradientBoostingQuantileRegressor(
            base_estimator=GradientBoostingRegressor(
                n_estimators=6, loss="quantile"), random_state=seed,
            n_jobs=n_jobs)
    return name          # "GP", "dummy", ...


def make_generator(g):
    if g is None or isinstance(g, str):
        return g or "random"
    from .props.c06 import make_gen
    return make_gen(g)


def make_optimizer(cfg, **over):
    from skopt import Optimizer
    kw = dict(
        dimensions=G.make_dims(cfg["dims"]),
        base_estimator=make_estimator(cfg["est"], cfg.get("est_seed", 3)),
        n_initial_points=cfg["n_init"],
        initial_point_generator=make_generator(cfg.get("gen")),
        acq_func=cfg["acq"],
        acq_optimizer=cfg.get("acqopt", "sampling"),
        random_state=cfg["seed"],
        model_queue_size=cfg.get("queue"),
        acq_func_kwargs=dict(cfg.get("acqk") or {}) or None,
        acq_optimizer_kwargs={"n_points": cfg.get("n_points", 30),
                              "n_restarts_optimizer":
                              cfg.get("n_restarts", 2)})
    kw.update(over)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Optimizer(**kw)


def encode(specs, p, gp=False):
    """Own encoding of a point as a surrogate sees it (default transforms:
    identity / log10 / one-hot)."""
    row = []
    for s, v in zip(specs, p):
        if s["k"] == "cat":
            cs = G.cats_of(s)
            i = [k for k, c in enumerate(cs) if G.same_value(c, v)][0]
            if len(cs) == 2:
                # skopt uses one column for two categories, in sorted order
                row.append(None)
            else:
                row.append((i, len(cs)))
        elif s["prior"] == "log-uniform":
            row.append(math.log(float(v)) / math.log(s["base"]))
        else:
            row.append(float(v))
    return row


def numeric_only(specs):
    return all(s["k"] != "cat" for s in specs)


def yval(cfg, f, p, k=0):
    """What the objective returns for p ("ps": value and time)."""
    v = f(p)
    if "ps" in cfg["acq"]:
        return (v, 0.5 + 0.25 * ((k * 7) % 5))
    return v


def y_stored(cfg, y):
    if "ps" in cfg["acq"]:
        return [float(y[0]), math.log(y[1])]
    return float(y)


def same_y(cfg, a, b):
    if "ps" in cfg["acq"]:
        return len(a) == 2 and np.allclose(a, b, rtol=1e-12, atol=1e-12)
    return float(a) == float(b)


class Model:
    """Reference state of an optimizer."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.X = []
        self.y = []
        self.n_models = 0
        self.fitted_on = 0        # number of points of the last fit

    def clone(self):
        m = Model(self.cfg)
        m.X = list(self.X)
        m.y = list(self.y)
        m.n_models = self.n_models
        m.fitted_on = self.fitted_on
        return m

    @property
    def remaining(self):
        return self.cfg["n_init"] - len(self.X)

    @property
    def random_phase(self):
        return self.remaining > 0 or self.cfg["est"] == "dummy"

    def told(self, pts, ys, fit=True):
        self.X += [list(p) for p in pts]
        self.y += ys
        fits = fit and self.remaining <= 0 and self.cfg["est"] != "dummy"
        if fits:
            q = self.cfg.get("queue")
            self.n_models = self.n_models + 1 if q is None else \
                min(q, self.n_models + 1)
            self.fitted_on = len(self.X)
        return fits


def check_member(specs, sp, p):
    need(isinstance(p, list), "a point is a list, got %r", type(p))
    need(len(p) == len(specs), "point %r has %d values for %d dimensions", p,
         len(p), len(specs))
    for s, v in zip(specs, p):
        need(G.member(s, v), "%r is not a value of %r", v, s)
    need(p in sp, "%r is not in the space by its own membership test", p)


def check_state(opt, m, what):
    """The optimizer's history is exactly what it was told."""
    cfg = m.cfg
    need(len(opt.Xi) == len(m.X) and len(opt.yi) == len(m.y),
         "%s: %d points, %d values recorded; told %d", what, len(opt.Xi),
         len(opt.yi), len(m.X))
    for a, b in zip(opt.Xi, m.X):
        need(G.same_point(a, b), "%s: recorded point %r, told %r", what, a, b)
    for a, b in zip(opt.yi, m.y):
        need(same_y(cfg, a, b), "%s: recorded value %r, told %r", what, a, b)
    need(len(opt.models) == m.n_models, "%s: %d models, expected %d", what,
         len(opt.models), m.n_models)


def check_result(res, m, what):
    cfg = m.cfg
    need(G.same_points(res.x_iters, m.X), "%s: x_iters %r, told %r", what,
         res.x_iters, m.X)
    ps = "ps" in cfg["acq"]
    vals = [y[0] if ps else y for y in m.y]
    need(len(res.func_vals) == len(vals) and
         all(float(a) == float(b) for a, b in zip(res.func_vals, vals)),
         "%s: func_vals %r, told %r", what, list(res.func_vals), vals)
    if ps:
        need(np.allclose(res.log_time, [y[1] for y in m.y]),
             "%s: log_time", what)
    if vals:
        need(float(res.fun) == min(vals), "%s: fun %r, least value %r", what,
             res.fun, min(vals))
        k = vals.index(min(vals))
        need(G.same_point(res.x, m.X[k]), "%s: x %r is not the first best "
             "point %r", what, res.x, m.X[k])
    need(len(res.models) == m.n_models, "%s: %d models in the result, "
         "expected %d", what, len(res.models), m.n_models)
    sp = res.get("specs")
    need(sp is not None and sp["function"] == "Optimizer" and
         sp["args"]["acq_func"] == cfg["acq"],
         "%s: the call's specifications are %r", what, sp)


# ------------------------------------------------- acquisition, independently

def phi(z):
    return math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)


def Phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def acq_value(name, mu, sd, y_opt, xi=0.01, kappa=1.96, tmu=None, tsd=None):
    """Value to be minimised, from the definition."""
    if name == "LCB":
        return -sd if kappa == "inf" else mu - kappa * sd
    if sd <= 0:
        v = 0.0
    else:
        imp = y_opt - xi - mu
        z = imp / sd
        v = Phi(z) if name.startswith("PI") else imp * Phi(z) + sd * phi(z)
    v = -v
    if name.endswith("ps"):
        v = v * math.exp(-tmu + 0.5 * tsd * tsd)
    return v


def last_search(log, ps):
    """Candidates of the last search in a log: (X, mean, std, tmean, tstd)
    of the predictions that follow the last fit."""
    ids = []
    for e in log:
        if e[0] == "fit":
            ids.append(e[1])
    k = 2 if ps else 1
    if len(ids) < k:
        return None
    last = max(i for i, e in enumerate(log) if e[0] == "fit")
    per = []
    for mid in ids[-k:]:
        es = [e for e in log[last + 1:] if e[0] == "pred" and e[1] == mid]
        if not es:
            return None
        per.append((np.vstack([e[2] for e in es]),
                    np.concatenate([e[3] for e in es]),
                    np.concatenate([e[4] for e in es])))
    X, mu, sd = per[0]
    if ps:
        # one prediction of times for each prediction of values
        if per[1][0].shape != X.shape or not np.allclose(per[1][0], X):
            return None
        return X, mu, sd, per[1][1], per[1][2]
    return X, mu, sd, None, None


def acq_values(name, search, y_opt, kw):
    X, mu, sd, tm, ts = search
    kw = kw or {}
    return np.array([acq_value(
        name, float(mu[i]), float(sd[i]), y_opt, kw.get("xi", 0.01),
        kw.get("kappa", 1.96), None if tm is None else float(tm[i]),
        None if ts is None else float(ts[i])) for i in range(len(X))])


def check_suggestion(cfg, opt, m, log, kw, what):
    """The suggestion is the best of the candidates that were looked at."""
    ps = "ps" in cfg["acq"]
    search = last_search(log, ps)
    need(search is not None, "%s: no search for the next point seen", what)
    X = search[0]
    names = ["EI", "LCB", "PI"] if cfg["acq"] == "gp_hedge" else [cfg["acq"]]
    need(len(X) >= cfg["n_points"], "%s: %d candidates, n_points=%d", what,
         len(X), cfg["n_points"])
    y_opt = min(y[0] for y in m.y) if ps else min(m.y)
    p = opt.ask()
    row = opt.space.transform([p])[0]
    d = np.abs(X - row).max(axis=1)
    near = np.where(d <= 1e-8 * np.maximum(1.0, np.abs(X)).max(axis=1))[0]
    need(len(near) > 0, "%s: the suggestion %r is none of the candidates",
         what, p)
    ok, info = False, []
    for name in names:
        v = acq_values(name, search, y_opt, kw)
        tol = 1e-11 * max(1.0, abs(v.min()))
        if name == "LCB":
            tol = 1e-11 * max(1.0, np.abs(search[1]).max())
        elif not name.startswith("PI"):
            tol = 1e-11 * max(1e-3, np.abs(v).max())
        info.append((name, float(v[near].min()), float(v.min())))
        ok = ok or v[near].min() <= v.min() + tol
    need(ok, "%s: the suggestion %r does not minimise the acquisition: "
         "(name, its value, least value among candidates) %r", what, p, info)
    return len(np.unique(X, axis=0))


# ------------------------------------------------------------- strategies

def config(ests=("dummy", "probe", "probe", "gpspy", "et"),
           acqs=("EI", "LCB", "PI", "gp_hedge", "EIps", "PIps"),
           gens=("random", "random", "lhs", "sobol", "halton", "hammersly",
                 "grid"), max_dims=3, max_init=5, queue=True, dims=None,
           acqk=True, n_points=(5, 20, 60)):
    from hypothesis import strategies as st

    @st.composite
    def build(draw):
        est = draw(st.sampled_from(list(ests)))
        acq = draw(st.sampled_from(list(acqs)))
        ds = draw(dims if dims is not None else G.small_space(1, max_dims))
        c = {"dims": ds, "est": est, "acq": acq, "acqopt": "sampling",
             "n_init": draw(st.one_of(
                 st.sampled_from([1, 2, 1, 2, 3]),
                 st.integers(0 if est != "dummy" else 1, max_init))),
             "gen": draw(st.sampled_from(list(gens))),
             "seed": draw(G.seeds()),
             "queue": draw(st.sampled_from([None, None, 1, 2, 3, 4]))
             if queue else None,
             "n_points": draw(st.sampled_from(list(n_points))),
             "acqk": None}
        if acqk and draw(st.booleans()):
            c["acqk"] = {"xi": draw(st.sampled_from([0.0, 0.01, 0.5])),
                         "kappa": draw(st.sampled_from([0.0, 1.96, 10.0,
                                                        "inf"]))}
        return c
    return build()


def ops_strategy(n_dims, max_ops=8, weights=None, max_batch=4):
    from hypothesis import strategies as st
    fr = G.fracs(n_dims)
    alts = {
        "ask": st.just(["ask"]),
        "tellask": st.just(["tellask"]),
        "tell": st.tuples(st.just("tell"), fr).map(list),
        "batch": st.tuples(st.just("batch"),
                           st.lists(fr, min_size=1, max_size=max_batch),
                           st.booleans()).map(list),
        "nofit": st.tuples(st.just("nofit"), fr).map(list),
        "askn": st.tuples(st.just("askn"), st.integers(1, 4),
                          st.sampled_from(["cl_min", "cl_mean", "cl_max"])
                          ).map(list),
        "copy": st.tuples(st.just("copy"), st.integers(0, 2)).map(list),
        "update": st.just(["update"]),
        "result": st.just(["result"]),
        "run": st.tuples(st.just("run"), st.integers(0, 2)).map(list),
        "bad": st.tuples(st.just("bad"), st.integers(0, 15), fr).map(list),
    }
    weights = weights or {"tellask": 5, "tell": 2, "batch": 2, "nofit": 1,
                          "ask": 2, "askn": 2, "copy": 1, "update": 1,
                          "result": 1, "run": 1}
    # (one_of would drop repeated alternatives)
    bag = [k for k, w in weights.items() for _ in range(w)]
    op = st.sampled_from(bag).flatmap(lambda k: alts[k])
    return st.one_of(
        st.lists(op, min_size=1, max_size=max_ops),
        st.lists(op, min_size=max(1, max_ops - 3), max_size=max_ops))


def history(cfg_strategy, max_ops=8, weights=None, max_batch=4):
    from hypothesis import strategies as st
    return cfg_strategy.flatmap(lambda c: st.fixed_dictionaries({
        "cfg": st.just(c), "obj": G.objective_spec(),
        "ops": ops_strategy(len(c["dims"]), max_ops, weights,
                            max_batch)}))


# ------------------------------------------------------------ interpreter

def expects_no_model(opt_model):
    return not opt_model.random_phase and opt_model.n_models == 0


class Runner:
    """Runs ops on a real optimizer and on the model; `hook(name, self, **kw)`
    is called at interesting places and does the checks of one property."""

    def __init__(self, case, hook, opt=None):
        del LOG[:]
        self.case = case
        self.cfg = case["cfg"]
        self.specs = self.cfg["dims"]
        self.f = G.objective(self.specs, case["obj"])
        self.hook = hook
        self.opt = opt if opt is not None else make_optimizer(self.cfg)
        self.space = G.make_space(self.specs)
        self.m = Model(self.cfg)
        self.k = 0
        self.old_results = []

    def y(self, p):
        self.k += 1
        return yval(self.cfg, self.f, p, self.k)

    def call(self, name, **kw):
        self.hook(name, self, **kw)

    def can_ask(self):
        return not expects_no_model(self.m)

    def ask(self):
        if not self.can_ask():
            try:
                p = self.opt.ask()
            except RuntimeError:
                return None
            need(False, "ask gave %r without any model to ask", p)
        p = self.opt.ask()
        self.call("asked", p=p)
        return p

    def tell(self, x, y, pts, ys, fit=True):
        before = len(LOG)
        res = self.opt.tell(x, y) if fit else self.opt.tell(x, y, fit=False)
        fits = self.m.told(pts, [y_stored(self.cfg, v) for v in ys], fit)
        self.call("told", res=res, fits=fits, log=LOG[before:], pts=pts)

    def step(self, op):
        k = op[0]
        if k == "ask":
            self.ask()
        elif k == "tellask":
            p = self.ask()
            if p is None:
                return
            y = self.y(p)
            self.tell(p, y, [p], [y])
        elif k in ("tell", "nofit"):
            p = G.decode_point(self.specs, op[1])
            y = self.y(p)
            self.tell(p, y, [p], [y], fit=k == "tell")
        elif k == "batch":
            ps = [G.decode_point(self.specs, u) for u in op[1]]
            ys = [self.y(p) for p in ps]
            if op[2]:
                self.tell(tuple(tuple(p) for p in ps), tuple(ys), ps, ys)
            else:
                self.tell(ps, ys, ps, ys)
        elif k == "askn":
            if not self.can_ask():
                return
            before = len(LOG)
            ps = self.opt.ask(op[1], op[2])
            self.call("askedn", ps=ps, n=op[1], strategy=op[2],
                      log=LOG[before:])
        elif k == "copy":
            before = len(LOG)
            c = self.opt.copy(random_state=op[1])
            self.call("copied", c=c, seed=op[1], log=LOG[before:])
        elif k == "update":
            before = len(LOG)
            self.opt.update_next()
            self.call("updated", log=LOG[before:])
        elif k == "result":
            if not self.m.X:
                return
            res = self.opt.get_result()
            self.call("result", res=res)
        elif k == "run":
            if not self.can_ask() or (op[1] == 0 and not self.m.X):
                return
            seen = []

            def func(p):
                y = self.y(p)
                seen.append((list(p), y))
                return y
            before = len(LOG)
            n0 = self.m.n_models
            res = self.opt.run(func, op[1])
            need(len(seen) == op[1], "run(%d) evaluated %d points", op[1],
                 len(seen))
            fits = False
            for p, y in seen:
                self.call("evaluated", p=p)
                fits = self.m.told([p], [y_stored(self.cfg, y)])
            self.call("ran", res=res, fits=fits, log=LOG[before:], n0=n0)
        elif k == "bad":
            self.call("bad", op=op)
        else:
            raise ValueError(k)

    def run(self):
        for op in self.case["ops"]:
            self.step(op)
            self.call("after", op=op)
        return self
