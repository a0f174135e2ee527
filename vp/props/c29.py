"""C29 what belongs to the caller stays as it is: arguments are not changed,
and changing what was handed out changes nothing inside."""
import contextlib
import inspect
import io
import warnings

import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


def dim_state(d):
    t = getattr(d, "transformer", None)
    st = [type(d).__name__, repr(d), d.name, getattr(d, "transform_", None),
          type(t).__name__]
    if hasattr(d, "categories"):
        st += [list(d.categories), [float(p) for p in d.prior_]]
        probe = list(d.categories)
    else:
        st += [d.low, d.high, d.prior, d.base, str(d.dtype)]
        probe = [d.low, d.high]
    st.append(np.asarray(d.transform(probe)).tolist())
    st.append(np.asarray(d.transformed_bounds, dtype=float).tolist())
    return st


def deep(x):
    """Plain, comparable picture of an argument."""
    from sklearn.base import BaseEstimator
    from skopt.sampler.base import InitialPointGenerator
    from skopt.space import Space
    from skopt.space.space import Dimension
    if isinstance(x, Dimension):
        return dim_state(x)
    if isinstance(x, Space):
        return ["space"] + [deep(d) for d in x.dimensions]
    if isinstance(x, dict):
        return {"keys": [str(k) for k in x],
                "values": [deep(v) for v in x.values()]}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [deep(v) for v in x]
    if isinstance(x, InitialPointGenerator):
        # what it was constructed with; how it counts inside is its own matter
        par = [k for k in inspect.signature(type(x).__init__).parameters
               if k in vars(x)]
        return ["generator", type(x).__name__,
                {k: deep(vars(x)[k]) for k in par}]
    if isinstance(x, BaseEstimator):
        return ["estimator", type(x).__name__, sorted(vars(x)),
                {k: deep(v) for k, v in sorted(x.get_params().items())
                 if not hasattr(v, "get_params")}]
    if isinstance(x, np.ndarray):
        return [str(x.dtype), x.shape, x.tolist()]
    if isinstance(x, np.random.RandomState):
        s = x.get_state()
        return [s[0], s[1].tolist(), s[2]]
    if callable(x) and not isinstance(x, type):
        return ["callable", id(x)]
    return [type(x).__name__, repr(x)]


def same(a, b, path=""):
    """Where two pictures differ (None: nowhere)."""
    if type(a) is not type(b):
        return path
    if isinstance(a, dict):
        if set(a) != set(b):
            return path
        for k in a:
            r = same(a[k], b[k], path + "." + str(k))
            if r is not None:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return path + "(length)"
        for i, (u, v) in enumerate(zip(a, b)):
            r = same(u, v, path + "[%d]" % i)
            if r is not None:
                return r
        return None
    if a != b and not (a != a and b != b):
        return path + " %r became %r" % (a, b)
    return None


class Keep:
    """Pictures of arguments, to compare with later."""

    def __init__(self, **args):
        self.args = args
        self.was = {k: deep(v) for k, v in args.items()}

    def check(self, what):
        for k, v in self.args.items():
            r = same(self.was[k], deep(v))
            need(r is None, "%s changed its argument %s%s", what, k, r)


def named_dims(case):
    ds = G.make_dims(case["dims"])
    for k, d in enumerate(ds):
        if case["named"]:
            d.name = "n%d" % k
    return ds


GEN = {"lhs": "Lhs", "sobol": "Sobol", "halton": "Halton",
       "hammersly": "Hammersly", "grid": "Grid"}


def make_gen(name):
    import skopt.sampler as S
    return getattr(S, GEN[name])() if name in GEN else name


def t_optimizer(case, ctx):
    from skopt import Optimizer
    from skopt.space import Space
    cfg = case["cfg"]
    case = dict(case, dims=cfg["dims"])
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])
    dims = named_dims(case)
    arg = {"list": dims, "tuple": tuple(dims), "space": Space(dims)}[
        case["as"]]
    est = M.make_estimator(cfg["est"])
    gen = make_gen(cfg["gen"])
    fk = {"xi": 0.02, "kappa": 1.0}
    ok = {"n_points": cfg["n_points"], "n_restarts_optimizer": 2}
    keep = Keep(dimensions=arg, base_estimator=est, dims=dims,
                initial_point_generator=gen, acq_func_kwargs=fk,
                acq_optimizer_kwargs=ok)
    opt = Optimizer(arg, est, n_initial_points=cfg["n_init"],
                    initial_point_generator=gen, acq_func=cfg["acq"],
                    acq_optimizer="sampling", random_state=cfg["seed"],
                    acq_func_kwargs=fk, acq_optimizer_kwargs=ok,
                    model_queue_size=cfg["queue"])
    keep.check("Optimizer()")
    for k in range(cfg["n_init"] + case["extra"]):
        p = opt.ask()
        y = M.yval(cfg, f, p, k)
        if case.get("ylist") and isinstance(y, tuple):
            y = list(y)
        one = Keep(x=p, y=y)
        opt.tell(p, y)
        one.check("tell")
        keep.check("tell")
    pts = [G.decode_point(specs, u) for u in case["X"]]
    ys = [M.yval(cfg, f, p, k) for k, p in enumerate(pts)]
    if case.get("ylist"):
        ys = [list(y) if isinstance(y, tuple) else y for y in ys]
    many = Keep(x=pts, y=ys)
    opt.tell(pts, ys)
    many.check("tell (many)")
    opt.ask(2)
    c = opt.copy(random_state=0)
    c.tell(pts[0], ys[0])
    opt.update_next()
    opt.get_result()
    keep.check("ask, copy, update_next or get_result")
    many.check("a later call")
    ctx.label(cfg["est"], cfg["gen"], case["as"])
    ctx.nontrivial(bool(opt.models))


def t_minimize(case, ctx):
    import skopt
    specs = case["dims"]
    f = G.objective(specs, case["obj"])
    dims = named_dims(case)
    x0 = [G.decode_point(specs, u) for u in case["X"]]
    y0 = [f(p) for p in x0] if case["y0"] else None
    cbs = [lambda r: None]
    gen = make_gen(case["gen"])
    rs = {"int": 3}.get(case["rs"], 3)
    one = len(x0) == 1 and case["one"]
    x_arg = list(x0[0]) if one else x0
    args = dict(x0=x_arg, y0=y0, callback=cbs,
                initial_point_generator=gen)
    keep = Keep(dimensions=dims, **args)
    which = case["which"]
    kw = dict(n_calls=case["n"] + (0 if case["y0"] else len(x0)) + 1,
              n_initial_points=case["n"], random_state=rs,
              verbose=case["verbose"])
    seen = []

    def func(p):
        seen.append(list(p))
        return f(p)
    est = None
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if which == "dummy":
            kw.pop("n_initial_points")
            skopt.dummy_minimize(func, dims, **kw, **args)
        elif which == "gp":
            est = M.make_estimator("gpspy")
            ek = Keep(base_estimator=est)
            skopt.gp_minimize(func, dims, base_estimator=est, n_points=30,
                              acq_optimizer="sampling", **kw, **args)
        elif which == "forest":
            est = M.make_estimator("et")
            ek = Keep(base_estimator=est)
            skopt.forest_minimize(func, dims, base_estimator=est,
                                  n_points=30, **kw, **args)
        elif which == "gbrt":
            est = M.make_estimator("gbrt")
            ek = Keep(base_estimator=est)
            skopt.gbrt_minimize(func, dims, base_estimator=est, n_points=30,
                                **kw, **args)
    keep.check(which + "_minimize")
    if est is not None:
        ek.check(which + "_minimize")
    ctx.label(which, "verbose" if case["verbose"] else "quiet")
    ctx.nontrivial(len(seen) > 1)


def t_handed(case, ctx):
    """A run whose results and points are spoiled by the caller goes on as
    one whose are not."""
    cfg = case["cfg"]
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])

    def junk(x):
        if isinstance(x, list):
            for i in range(len(x)):
                x[i] = None
            x.append("junk")

    def run(spoil):
        opt = M.make_optimizer(cfg)
        pts, old = [], []
        for k in range(cfg["n_init"] + case["extra"]):
            p = opt.ask()
            pts.append(list(p))
            if spoil:
                q = list(p)
                junk(p)
                p = q
            if case["asks"] and k % 2 and (
                    opt.models or len(opt.Xi) < cfg["n_init"]):
                X = opt.ask(2)
                pts += [list(q) for q in X]
                if spoil:
                    for q in X:
                        junk(q)
                    junk(X)
                pts += [list(q) for q in opt.ask(2)]
            y = M.yval(cfg, f, p, k)
            if case["batch"]:
                bx, by = [p], [y]
                res = opt.tell(bx, by)
                if spoil:
                    junk(bx)
                    junk(by)
            else:
                res = opt.tell(p, y)
            old.append((res, [list(q) for q in res.x_iters], list(res.x),
                        list(map(float, res.func_vals))))
            if spoil:
                if case["batch"]:
                    junk(p)
                for q in p if isinstance(p, list) else []:
                    pass
                r = opt.get_result()
                junk(r.x)
                for q in r.x_iters:
                    junk(q)
                junk(r.x_iters)
                r.func_vals[:] = -99.0
                if r.models is not None:
                    del r.models[:]
                if "ps" not in cfg["acq"] or True:
                    junk(p)
        for res, X, x, v in old:
            need(G.close_points(res.x_iters, X) and G.close_point(res.x, x) and
                 list(map(float, res.func_vals)) == v,
                 "a result changed after it was handed out")
        last = opt.get_result()
        return pts, [list(q) for q in last.x_iters], \
            [float(v) for v in last.func_vals], len(opt.models)
    a, b = run(False), run(True)
    need(G.close_points(a[0], b[0]), "after the caller changed what it was "
         "given the points are\n%r, else\n%r", b[0], a[0])
    need(G.close_points(a[1], b[1]) and G.close_point(a[2], b[2]) and a[3] == b[3],
         "the caller's changes reached the optimizer:\n%r\n%r", b[1:], a[1:])
    ctx.label(cfg["est"], cfg["gen"])
    ctx.nontrivial(a[3] > 0)


def t_search(case, ctx):
    from .c24 import Rec
    from skopt import BayesSearchCV
    specs = case["dims"]
    keys = ["b", "a", "c"][:len(specs)]
    dims = G.make_dims(specs)
    d = dict(zip(keys, dims))
    spaces = {"dict": d, "list": [d, dict(d)], "tuple": [(d, 2)]}[case["as"]]
    est = Rec(kind="sum")
    ok = {"base_estimator": M.make_estimator(case["est"]),
          "n_initial_points": 1, "acq_optimizer": "sampling",
          "acq_optimizer_kwargs": {"n_points": 10}}
    X = np.random.RandomState(0).rand(6, 2)
    y = np.arange(6) % 2
    cbs = [lambda r: None]
    fp = {"w": 1}
    keep = Keep(search_spaces=spaces, estimator=est, optimizer_kwargs=ok,
                X=X, y=y, callback=cbs, dims=dims, fit_params=fp)
    s = BayesSearchCV(est, spaces, optimizer_kwargs=ok, n_iter=2, cv=2,
                      random_state=1, fit_params=fp)
    s.fit(X, y, callback=cbs)
    keep.check("BayesSearchCV.fit")
    need(s.get_params(deep=False)["search_spaces"] is spaces, "the parameter "
         "search_spaces was replaced")
    ctx.label(case["as"], case["est"])
    ctx.nontrivial()


def t_tools(case, ctx):
    """Functions that only look."""
    from scipy.optimize import OptimizeResult  # noqa: F401
    from skopt import (expected_minimum, expected_minimum_random_sampling)
    from skopt.acquisition import _gaussian_acquisition
    from skopt.space import Space
    from skopt.utils import (cook_estimator, dimensions_aslist,
                             normalize_dimensions, point_asdict,
                             point_aslist)
    cfg = case["cfg"]
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])
    k = case["tool"]
    dims = G.make_dims(specs)
    if k == "normalize":
        keep = Keep(d=dims)
        normalize_dimensions(dims)
        keep.check("normalize_dimensions")
    elif k == "cook":
        sp = Space(dims)
        keep = Keep(d=dims, s=sp)
        for name in ("GP", "ET", "GBRT"):
            cook_estimator(name, space=sp, random_state=1)
            cook_estimator(name, space=dims, random_state=1)
        keep.check("cook_estimator")
    elif k == "dicts":
        d = {"k%d" % (9 - i): v for i, v in enumerate(dims)}
        p = G.decode_point(specs, [0.5] * len(specs))
        keep = Keep(d=d, p=p)
        q = point_asdict(d, p)
        k2 = Keep(q=q)
        point_aslist(d, q)
        dimensions_aslist(d)
        keep.check("point_asdict, point_aslist or dimensions_aslist")
        k2.check("point_aslist")
    elif k == "generator":
        for name in sorted(GEN):
            g = make_gen(name)
            ds = Space(dims) if case["named"] else dims
            keep = Keep(d=ds, s=dims)
            x = g.generate(dims, 4, random_state=2)
            keep.check(name + ".generate")
            z = g.generate(dims, 4, random_state=2)
            need(G.close_points(x, z), "generate twice")
    else:
        opt = M.make_optimizer(cfg)
        for i in range(cfg["n_init"] + 1):
            p = opt.ask()
            res = opt.tell(p, f(p))
        keep = Keep(x_iters=res.x_iters, func_vals=res.func_vals, x=res.x,
                    space=res.space)
        n = len(res.models)
        if k == "expected":
            if not any(s["k"] == "cat" for s in specs):
                expected_minimum(res, n_random_starts=2, random_state=1)
            expected_minimum_random_sampling(res, n_random_starts=20,
                                             random_state=1)
        elif k == "dump":
            import os
            import tempfile
            from skopt import dump
            path = os.path.join(tempfile.gettempdir(), "r.pkl")
            before = res.specs
            sk = dict(before["args"]) if before else None
            dump(res, path, store_objective=case["named"])
            need(res.specs is before and (
                sk is None or dict(before["args"]) == sk),
                "dump changed the specs of the result")
            os.remove(path)
        else:
            X = res.space.transform(res.space.rvs(5, random_state=3))
            k2 = Keep(X=X)
            for a in ("EI", "LCB", "PI"):
                fk = {"xi": 0.1}
                k3 = Keep(fk=fk)
                _gaussian_acquisition(X, res.models[-1], y_opt=0.5,
                                      acq_func=a, acq_func_kwargs=fk)
                k3.check("the acquisition")
            k2.check("the acquisition")
        keep.check(k)
        need(len(res.models) == n, "models")
    ctx.label(k)
    ctx.nontrivial()


def strats():
    from hypothesis import strategies as st

    def opt_case():
        return M.config(ests=("probe", "gpspy", "et", "dummy"),
                        n_points=(5,)).flatmap(
            lambda c: st.fixed_dictionaries({
                "cfg": st.just(dict(c, n_init=max(1, c["n_init"]))),
                "obj": G.objective_spec(), "extra": st.integers(0, 3),
                "named": st.booleans(), "ylist": st.booleans(),
                "X": st.lists(G.fracs(len(c["dims"])), min_size=1,
                              max_size=3),
                "as": st.sampled_from(["list", "tuple", "space"])}))

    def min_case():
        return G.small_space(1, 3).flatmap(lambda d: st.fixed_dictionaries({
            "dims": st.just(d), "obj": G.objective_spec(),
            "which": st.sampled_from(["dummy", "gp", "forest", "gbrt"]),
            "X": st.lists(G.fracs(len(d)), min_size=1, max_size=3),
            "y0": st.booleans(), "one": st.booleans(),
            "gen": st.sampled_from(["random"] + sorted(GEN)),
            "rs": st.just("int"), "named": st.booleans(),
            "n": st.integers(1, 3), "verbose": st.booleans()})).filter(
                lambda c: not (c["one"] and c["y0"] and len(c["X"]) == 1))

    def handed_case():
        return M.config(ests=("probe", "gpspy", "et", "dummy"),
                        n_points=(5,)).flatmap(
            lambda c: st.fixed_dictionaries({
                "cfg": st.just(dict(c, n_init=max(1, c["n_init"]))),
                "obj": G.objective_spec(), "extra": st.integers(0, 3),
                "asks": st.booleans(), "batch": st.booleans()}))

    def search_case():
        return st.fixed_dictionaries({
            "dims": G.small_space(1, 3),
            "as": st.sampled_from(["dict", "list", "tuple"]),
            "est": st.sampled_from(["probe", "gpspy", "et", "GP"])})

    def tool_case():
        return st.fixed_dictionaries({
            "cfg": M.config(ests=("gpspy", "et"), n_points=(5,), acqs=(
                "EI", "LCB")).map(lambda c: dict(
                    c, n_init=max(1, c["n_init"]))),
            "obj": G.objective_spec(), "named": st.booleans(),
            "tool": st.sampled_from(["normalize", "cook", "dicts",
                                     "generator", "expected", "dump",
                                     "acq"])})
    return opt_case, min_case, handed_case, search_case, tool_case


_S = strats


PROP = Prop("C29", [
    Sub("optimizer", lambda: _S()[0](), t_optimizer, 400, shards=8,
        rule="a surrogate was fitted"),
    Sub("minimize", lambda: _S()[1](), t_minimize, 120, shards=8,
        rule="two evaluations or more"),
    Sub("handed", lambda: _S()[2](), t_handed, 300, shards=8,
        rule="a surrogate was fitted"),
    Sub("search", lambda: _S()[3](), t_search, 40, shards=4,
        rule="every case"),
    Sub("tools", lambda: _S()[4](), t_tools, 200, shards=8,
        rule="every case"),
])
