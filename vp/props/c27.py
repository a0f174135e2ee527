"""C27 what does not describe the problem does not change the search."""
import contextlib
import io
import warnings

import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need

WAYS = ["shorthand", "space", "names", "queue", "state", "npseed", "explicit",
        "generator", "tuples", "numpy", "floats", "asks", "results", "copies",
        "asksn", "aliases", "auto", "n_random_starts", "n_jobs"]


def short(s):
    if s["k"] == "cat":
        if s.get("prior") is None and len(s["cats"]) > 2 and \
                isinstance(s["cats"][0], str):
            return tuple(s["cats"])
        return G.make_dim(s)
    if s["prior"] == "uniform":
        return (s["low"], s["high"])
    return (s["low"], s["high"], "log-uniform", s["base"])


def variant(cfg, way):
    """Optimizer arguments that mean the same."""
    from skopt.sampler import Grid, Halton, Hammersly, Lhs, Sobol
    from skopt.space import Space
    specs = cfg["dims"]
    over = {}
    if way == "shorthand":
        over["dimensions"] = tuple(short(s) for s in specs)
    elif way == "space":
        over["dimensions"] = Space(G.make_dims(specs))
    elif way == "names":
        ds = G.make_dims(specs)
        for k, d in enumerate(ds):
            d.name = "p%d" % (7 - k)
        over["dimensions"] = ds
    elif way == "queue":
        over["model_queue_size"] = 3 if cfg.get("queue") != 3 else None
    elif way == "state":
        over["random_state"] = np.random.RandomState(cfg["seed"])
    elif way == "npseed":
        over["random_state"] = np.int64(cfg["seed"])
    elif way == "explicit":
        kw = {"xi": 0.01, "kappa": 1.96}
        kw.update(cfg.get("acqk") or {})
        over["acq_func_kwargs"] = kw
    elif way == "generator":
        g = {"lhs": Lhs, "sobol": Sobol, "halton": Halton,
             "hammersly": Hammersly, "grid": Grid}.get(cfg["gen"])
        if g is not None:
            over["initial_point_generator"] = g()
    elif way == "lbfgs":
        over["acq_optimizer"] = "lbfgs"
    elif way == "auto":
        over["acq_optimizer"] = "auto"
    elif way == "n_random_starts":
        over["n_random_starts"] = cfg["n_init"]
        over["n_initial_points"] = cfg["n_init"] + 3
    elif way == "n_jobs":
        over["n_jobs"] = 2
    return over


def drive(cfg, f, n, way, seen_models=None):
    opt = M.make_optimizer(cfg, **variant(cfg, way))
    pts, vals = [], []
    for k in range(n):
        p = list(opt.ask())
        pts.append(list(p))
        y = M.yval(cfg, f, p, k)
        arg, val = list(p), y
        if way == "tuples":
            arg = tuple(p)
            val = tuple(y) if isinstance(y, tuple) else y
        elif way == "numpy":
            arg = [np.int64(v) if type(v) is int else
                   np.float64(v) if type(v) is float else v for v in p]
            val = [np.float64(v) for v in y] if isinstance(y, tuple) else \
                np.float64(y)
        elif way == "floats" and not isinstance(y, tuple):
            val = int(y) if y == int(y) else y
        elif way == "asks":
            if cfg["est"] != "dummy" and (
                    cfg["gen"] != "random" or k >= cfg["n_init"]):
                for _ in range(2):
                    need(G.close_point(opt.ask(), p), "asked again: %r, "
                         "before %r", opt.ask(), p)
        elif way == "results" and k:
            opt.get_result()
        elif way == "aliases":
            buf = list(p)
            arg = buf
        opt.tell(arg, val)
        if way == "aliases":
            for i in range(len(buf)):
                buf[i] = None
        elif way == "copies" and opt.models:
            c = opt.copy(random_state=1)
            c.tell(p, y)
        vals.append(y)
    return opt, pts, vals


def t_same(case, ctx):
    cfg = case["cfg"]
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])
    n = cfg["n_init"] + case["extra"]
    way = case["way"]
    # left to itself an optimizer uses gradients where there are any
    a, pa, _ = drive(cfg, f, n, "lbfgs" if way == "auto" and
                     cfg["est"] == "gpspy" and "ps" not in cfg["acq"]
                     else None)
    if way == "auto" and cfg["est"] == "gpspy" and "ps" in cfg["acq"]:
        way = "names"
    if way == "asksn" or way == "copies" and (
            cfg["gen"] == "random" or cfg["est"] == "dummy"):
        way = "names"
    b, pb, _ = drive(cfg, f, n, way)
    need(G.close_points(pa, pb), "%s: the search went to\n%r, without to\n%r",
         way, pb, pa)
    ra, rb = a.get_result(), b.get_result()
    need(G.close_points(ra.x_iters, rb.x_iters) and
         G.close_arr(ra.func_vals, rb.func_vals) and
         G.close_value(float(ra.fun), float(rb.fun)) and G.close_point(ra.x, rb.x),
         "%s: the results differ", way)
    if cfg["est"] != "dummy" and a.models:
        need(G.close_point(a.ask(), b.ask()), "%s: the next point %r, without "
             "%r", way, b.ask(), a.ask())
    ctx.label(way, cfg["est"])
    ctx.nontrivial(case["extra"] > 0 and cfg["est"] != "dummy")


def strat_same():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "cfg": M.config(ests=("probe", "probe", "gpspy", "et", "dummy"),
                        n_points=(5, 20)).map(
            lambda c: dict(c, n_init=max(1, c["n_init"]))),
        "obj": G.objective_spec(), "extra": st.integers(0, 4),
        "way": st.sampled_from(WAYS)})


# -------------------------------------------------- minimize and ask / tell

def t_loop(case, ctx):
    """base_minimize and friends are the loop of ask and tell."""
    import skopt
    from skopt.optimizer import base_minimize
    cfg = case["cfg"]
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])
    ps = "ps" in cfg["acq"]
    xi, kappa = 0.05, 2.5
    kw = {"xi": xi, "kappa": kappa}
    x0 = [G.decode_point(specs, u) for u in case["x0"]]
    n0 = len(x0)
    lb = case.get("lbfgs") if cfg["est"] == "gpspy" and not ps else None
    acqopt = "lbfgs" if lb else "sampling"
    cfg = dict(cfg, acqopt=acqopt, n_restarts=lb or 2)
    over = dict(acq_func_kwargs=kw, n_initial_points=cfg["n_init"] + n0)
    opt = M.make_optimizer(cfg, **over)
    want = []
    count = [0]

    def func(p):
        count[0] += 1
        return M.yval(cfg, f, p, count[0])
    if x0:
        opt.tell(x0, [func(p) for p in x0])
        want += x0
    for _ in range(cfg["n_init"] + case["extra"]):
        p = opt.ask()
        want.append(list(p))
        opt.tell(p, func(p))
    seen = []
    count[0] = 0

    def func2(p):
        seen.append(list(p))
        return func(p)
    calls = []
    name = case["fn"]
    args = dict(n_calls=len(want), n_initial_points=cfg["n_init"],
                initial_point_generator=cfg["gen"], acq_func=cfg["acq"],
                random_state=cfg["seed"], xi=xi, kappa=kappa,
                n_points=cfg["n_points"], x0=[list(p) for p in x0] or None,
                model_queue_size=cfg["queue"],
                verbose=case["verbose"], n_jobs=1,
                callback=[lambda r: calls.append(len(r.x_iters))]
                if case["cb"] else None)
    if case["alias"]:
        args["n_random_starts"] = cfg["n_init"]
        args["n_initial_points"] = cfg["n_init"] + 50
    est = M.make_estimator(cfg["est"], 3)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if name == "gp":
            res = skopt.gp_minimize(
                func2, G.make_dims(specs), base_estimator=est,
                acq_optimizer=acqopt,
                **dict(args, **({"n_restarts_optimizer": lb} if lb else {})))
        elif name == "forest":
            res = skopt.forest_minimize(func2, G.make_dims(specs),
                                        base_estimator=est, **args)
        elif name == "gbrt":
            res = skopt.gbrt_minimize(func2, G.make_dims(specs),
                                      base_estimator=est, **args)
        else:
            res = base_minimize(func2, G.make_dims(specs), est,
                                acq_optimizer=acqopt, **dict(
                                    args, **({"n_restarts_optimizer": lb}
                                             if lb else {})))
    need(G.close_points(seen, want), "%s_minimize went to\n%r, ask and tell "
         "to\n%r", name, seen, want)
    ref = opt.get_result()
    need(G.close_points(res.x_iters, ref.x_iters) and
         G.close_arr(res.func_vals, ref.func_vals) and
         len(res.models) == len(ref.models), "%s_minimize: another result",
         name)
    need((not ps) or np.allclose(res.log_time, ref.log_time), "log_time")
    ctx.label(name, cfg["est"], "verbose" if case["verbose"] else "quiet",
              acqopt)
    ctx.nontrivial(case["extra"] > 0)


def strat_loop():
    from hypothesis import strategies as st

    def more(c):
        # gp_minimize normalizes every space, the others do so for a GP only
        names = {"probe": ["base"], "gpspy": ["gp", "base"],
                 "et": ["forest", "base"],
                 "gbrt": ["gbrt", "base"]}[c["est"]]
        return st.fixed_dictionaries({
            "cfg": st.just(dict(c, n_init=max(1, c["n_init"]), acqk=None)),
            "obj": G.objective_spec(), "extra": st.integers(0, 3),
            "x0": st.lists(G.fracs(len(c["dims"])), max_size=3),
            "fn": st.sampled_from(names), "verbose": st.booleans(),
            "alias": st.sampled_from([False, False, False, True]),
            "lbfgs": st.sampled_from([None, 1, 2, 6, 7]),
            "cb": st.booleans()})
    return M.config(ests=("probe", "gpspy", "et", "gbrt"),
                    n_points=(5, 20)).flatmap(more)


# ----------------------------------------------- surrogates given by name

def t_named(case, ctx):
    """A surrogate given by name, or left to the default, is the one that
    cook_estimator builds."""
    import skopt
    from skopt.utils import cook_estimator, normalize_dimensions
    cfg = case["cfg"]
    specs, seed, name = cfg["dims"], cfg["seed"], case["name"]
    f = G.objective(specs, case["obj"])
    n = cfg["n_init"] + case["extra"]
    args = dict(n_calls=n, n_initial_points=cfg["n_init"],
                initial_point_generator=cfg["gen"], acq_func=cfg["acq"],
                n_points=cfg["n_points"], model_queue_size=cfg["queue"])
    runs, ests = [], []
    rng = np.random.RandomState(seed)
    mode = case["mode"]
    big = np.iinfo(np.int32).max
    if name == "GP":
        noise = case["noise"]

        def plain():
            return skopt.gp_minimize(func, G.make_dims(specs), noise=noise,
                                     acq_optimizer="sampling",
                                     random_state=seed, **args)

        def built():
            sp = normalize_dimensions(G.make_dims(specs))
            est = cook_estimator("GP" if mode else "gp", space=sp,
                                 random_state=rng.randint(0, big),
                                 noise=noise)
            return skopt.gp_minimize(func, G.make_dims(specs),
                                     base_estimator=est, random_state=rng,
                                     acq_optimizer="sampling", **args)
    elif name == "GBRT":
        def plain():
            return skopt.gbrt_minimize(func, G.make_dims(specs),
                                       random_state=seed, **args)

        def built():
            est = cook_estimator("GBRT" if mode else "gbrt",
                                 random_state=seed)
            return skopt.gbrt_minimize(func, G.make_dims(specs),
                                       base_estimator=est,
                                       random_state=seed, **args)
    else:
        def plain():
            return skopt.forest_minimize(
                func, G.make_dims(specs), random_state=seed,
                **dict(args, **({} if name == "ET" and case["omit"] else
                                {"base_estimator": name})))

        def built():
            est = cook_estimator(name if mode else name.lower(),
                                 random_state=rng.randint(0, big))
            return skopt.forest_minimize(func, G.make_dims(specs),
                                         base_estimator=est,
                                         random_state=rng, **args)

    def func(p):
        seen.append(list(p))
        return M.yval(cfg, f, p, len(seen))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for fn in (plain, built):
            seen = []
            res = fn()
            runs.append(seen)
            ests.append(res.models)
    need(G.close_points(*runs), "%s by name goes to\n%r, as an estimator to"
         "\n%r", name, runs[0], runs[1])
    for a, b in zip(*ests):
        need(type(a) is type(b), "%s by name is a %s, should be %s", name,
             type(a).__name__, type(b).__name__)
        if name == "GP":
            need(a.noise == noise, "noise=%r, the model has %r", noise,
                 a.noise)
    ctx.label(name, "mode:%d" % mode)
    ctx.nontrivial(case["extra"] > 1)


def strat_named():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "cfg": M.config(ests=("probe",), n_points=(5, 20),
                        acqs=("EI", "LCB", "PI", "gp_hedge")).map(
            lambda c: dict(c, n_init=min(4, max(2, c["n_init"])))),
        "obj": G.objective_spec(), "extra": st.integers(1, 3),
        "name": st.sampled_from(["GP", "GBRT", "ET", "RF"]),
        "mode": st.booleans(), "omit": st.booleans(),
        "noise": st.sampled_from(["gaussian", 1e-10, 0.01, 0.5])})


# ----------------------------------------------------------------- n_jobs

def t_jobs(case, ctx):
    """The number of jobs does not decide where the search goes."""
    import joblib
    cfg = case["cfg"]
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])
    runs = []
    for jobs in (1, case["jobs"]):
        with joblib.parallel_backend("threading"):
            opt = M.make_optimizer(cfg, acq_optimizer_kwargs={
                "n_points": cfg["n_points"], "n_restarts_optimizer": 4,
                "n_jobs": jobs}, base_estimator=M.make_estimator(
                    cfg["est"], 3, n_jobs=jobs))
            pts = []
            for k in range(cfg["n_init"] + case["extra"]):
                p = opt.ask()
                pts.append(list(p))
                opt.tell(p, M.yval(cfg, f, p, k))
            if opt.models:
                pts.append(list(opt.ask()))
            runs.append(pts)
    need(G.close_points(*runs), "n_jobs=%d goes to\n%r, n_jobs=1 to\n%r",
         case["jobs"], runs[1], runs[0])
    ctx.label(cfg["est"], cfg.get("acqopt", ""))
    ctx.nontrivial(case["extra"] > 0)


def strat_jobs():
    from hypothesis import strategies as st

    @st.composite
    def build(draw):
        c = draw(M.config(ests=("gpspy", "gpspy", "gbrt"), queue=False,
                          acqs=("EI", "LCB", "PI", "gp_hedge"),
                          n_points=(5, 20)))
        c = dict(c, n_init=max(2, c["n_init"]))
        if c["est"] == "gpspy":
            c["acqopt"] = "lbfgs"
        return {"cfg": c, "obj": draw(G.objective_spec()),
                "extra": draw(st.integers(0, 2)),
                "jobs": draw(st.sampled_from([2, 3, -1]))}
    return build()


PROP = Prop("C27", [
    Sub("same", strat_same, t_same, 1500, shards=8,
        rule="a surrogate suggested points in both runs"),
    Sub("loop", strat_loop, t_loop, 300, shards=8,
        rule="points after the initial design"),
    Sub("named", strat_named, t_named, 64, shards=8,
        rule="a model decided where to look twice"),
    Sub("jobs", strat_jobs, t_jobs, 80, shards=8,
        rule="points after the initial design"),
])
