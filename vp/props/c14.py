"""C14 the suggestion is the best candidate under the acquisition function."""
import warnings

import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


def t_history(case, ctx):
    cfg = case["cfg"]
    n = {"checked": 0, "distinct": 0, "hedge": 0}
    state = {"gains": None, "prev": None, "kw": cfg["acqk"]}

    def searched(r, log, what):
        kw = state["kw"]
        n["checked"] += 1
        n["distinct"] = max(n["distinct"], M.check_suggestion(
            cfg, r.opt, r.m, log, kw, what))

    def hook(name, r, **kw):
        m, opt = r.m, r.opt
        if name == "told" and kw["fits"]:
            searched(r, kw["log"], "tell")
            if cfg["acq"] == "gp_hedge":
                hedge(r, kw["log"])
        elif name == "updated":
            if m.n_models:
                searched(r, kw["log"], "update_next")
                state["prev"] = None
        if name in ("told", "ran", "updated") and hasattr(opt, "gains_"):
            state["gains"] = np.array(opt.gains_)
        if name == "ran":
            state["prev"] = None

    def hedge(r, log):
        """The gains fall by what the new model expects at the points the
        three functions proposed before; a huge eta picks the best gain."""
        opt = r.opt
        search = M.last_search(log, False)
        y_opt = min(r.m.y)
        X = search[0]
        prop = []
        for name in ("EI", "LCB", "PI"):
            v = M.acq_values(name, search, y_opt, state["kw"])
            i = v.argmin()
            ties = X[v <= v[i] + 1e-9 * max(1e-9, abs(v[i]))]
            unique = bool(np.all(ties == X[i]))
            prop.append((X[i], unique))
        prev = state["prev"]
        if prev is not None and all(u for _, u in prev):
            est = opt.models[-1]
            mu, _ = M._probe_eval(est.X_, est.y_,
                                  np.vstack([x for x, _ in prev]))
            want = state["gains"] - mu
            need(np.allclose(opt.gains_, want, rtol=1e-9, atol=1e-9),
                 "gains %r, expected %r", opt.gains_, want)
            n["hedge"] += 1
        if all(u for _, u in prop):
            g = np.array(opt.gains_)
            best = g.argmax()
            rest = np.delete(g, best)
            if (g[best] - rest).min() * (case["eta"] or 1.0) > 40:
                row = opt.space.transform([opt.ask()])[0]
                need(np.allclose(row, prop[best][0]),
                     "gains %r: expected the proposal of %s", g,
                     ("EI", "LCB", "PI")[best])
                n["hedge"] += 1
                ctx.label("gains decide" if case["eta"] else
                          "gains decide, eta 1")
        state["prev"] = prop

    class R(M.Runner):
        def step(self, op):
            if op[0] == "update" and case["kw2"] is not None:
                self.opt.acq_func_kwargs = dict(case["kw2"])
                state["kw"] = case["kw2"]
            super().step(op)
    if case["eta"] and cfg["acq"] == "gp_hedge":
        cfg["acqk"] = dict(cfg["acqk"] or {}, eta=case["eta"])
        state["kw"] = cfg["acqk"]
    R(case, hook).run()
    ctx.label(cfg["acq"])
    if n["hedge"]:
        ctx.label("gains")
    ctx.nontrivial(n["checked"] > 0 and n["distinct"] > 3)


def strat_history():
    from hypothesis import strategies as st
    cfg = M.config(ests=("probe",), n_points=(5, 20, 60), max_init=3)

    @st.composite
    def build(draw):
        c = draw(M.history(cfg, 8, weights={
            "tellask": 5, "tell": 3, "batch": 2, "update": 2, "nofit": 1,
            "askn": 1, "copy": 1}))
        c["eta"] = draw(st.sampled_from([None, None, 1e6])) \
            if c["cfg"]["acq"] == "gp_hedge" else None
        c["kw2"] = draw(st.one_of(st.none(), st.fixed_dictionaries({
            "xi": st.sampled_from([0.0, 0.3, 5.0]),
            "kappa": st.sampled_from([0.0, 5.0, "inf"])})))
        n = len(c["cfg"]["dims"])
        c["ops"] = [["batch", draw(st.lists(G.fracs(n), min_size=3,
                                            max_size=4)), False]] + c["ops"]
        return c
    return build()


def local_ends(cfg, opt, name, X, v, model, y_opt):
    """Where local searches from the best n_restarts candidates end (those
    that are certainly among the best, leaving ties aside)."""
    from scipy.optimize import fmin_l_bfgs_b
    from skopt.acquisition import gaussian_acquisition_1D
    order = np.argsort(v, kind="stable")
    k = cfg["n_restarts"]
    last = v[order[k]] if k < len(v) else np.inf
    ends = []
    for i in order[:k]:
        if v[i] >= last - 1e-9 * abs(last):
            break
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fmin_l_bfgs_b(gaussian_acquisition_1D, X[i].copy(), args=(
                model, y_opt, name, dict(cfg["acqk"] or {}) or None),
                bounds=opt.space.transformed_bounds, approx_grad=False,
                maxiter=20)
        ends.append(float(r[1]))
    return ends


def t_lbfgs(case, ctx):
    """With gradients: at least as good as the best random candidate."""
    cfg = case["cfg"]
    specs = cfg["dims"]
    del M.LOG[:]
    f = G.objective(specs, case["obj"])
    opt = M.make_optimizer(cfg)
    m = M.Model(cfg)
    pts = [G.decode_point(specs, u) for u in case["pts"]]
    for i, p in enumerate(pts):
        before = len(M.LOG)
        y = M.yval(cfg, f, p, i)
        opt.tell(p, y)
        if not m.told([p], [M.y_stored(cfg, y)]):
            continue
        search = M.last_search(
            [e for e in M.LOG[before:] if e[0] == "fit" or
             (e[0] == "pred" and len(e[2]) > 1)], "ps" in cfg["acq"])
        need(search is not None, "no search seen")
        need(len(search[0]) >= cfg["n_points"], "%d candidates, n_points=%d",
             len(search[0]), cfg["n_points"])
        q = opt.ask()
        row = opt.space.transform([q])
        model = opt.models[-1]
        if "ps" in cfg["acq"]:
            a, b = model.estimators_
            mu, sd = a.predict(row, return_std=True)
            tm, ts = b.predict(row, return_std=True)
            y_opt = min(v[0] for v in m.y)
        else:
            mu, sd = model.predict(row, return_std=True)
            tm = ts = None
            y_opt = min(m.y)
        names = ["EI", "LCB", "PI"] if cfg["acq"] == "gp_hedge" \
            else [cfg["acq"]]
        ok, info = False, []
        for name in names:
            v = M.acq_values(name, search, y_opt, cfg["acqk"])
            ends = local_ends(cfg, opt, name, search[0], v, model, y_opt)
            got = M.acq_values(name, (row, mu, sd, tm, ts), y_opt,
                               cfg["acqk"])[0]
            # rounding of the point through the space and back
            scale = max(np.abs(v).max(), np.abs(search[1]).max() * 1e-3)
            info.append((name, got, v.min(), ends))
            ok = ok or got <= min([v.min() + 1e-6 * scale] +
                                  [e + 1e-4 * scale for e in ends])
            if len(ends) > 1 and min(ends) < ends[0] - 1e-3 * scale:
                ctx.label("a later restart is best")
        need(ok, "the suggestion %r is worse than a random candidate, or than "
             "what a local search from one of the best candidates reaches: "
             "(name, its value, least candidate, ends) %r", q, info)
        if got < v.min() - 1e-9 * abs(v.min()):
            ctx.label("improved")
        ctx.nontrivial(len(m.X) > 1)
    ctx.label(cfg["acq"])


def strat_lbfgs():
    from hypothesis import strategies as st
    cfg = M.config(ests=("gpspy",), max_init=2, queue=False,
                   n_points=(10, 40), dims=G.small_space(
                       1, 3, cat=False, integer=False))

    @st.composite
    def build(draw):
        c = draw(cfg)
        c["acqopt"] = draw(st.sampled_from(["lbfgs", "auto"]))
        c["n_restarts"] = draw(st.integers(1, 4))
        n = len(c["dims"])
        return {"cfg": c, "obj": draw(G.objective_spec()),
                "pts": draw(st.lists(G.fracs(n), min_size=2, max_size=6))}
    return build()


def t_hedge(case, ctx):
    """How often each of the three functions is followed is the softmax of
    the gains."""
    import copy
    from scipy.stats import binomtest
    cfg = dict(case["cfg"])
    specs = cfg["dims"]
    f = G.objective(specs, case["obj"])
    pts = [G.decode_point(specs, u) for u in case["pts"]]
    ys = [f(p) for p in pts]

    def build(eta):
        opt = M.make_optimizer(dict(cfg, acqk={"eta": eta}))
        opt.tell(pts[:-2], ys[:-2])
        opt.tell(pts[-2], ys[-2])
        return opt
    opt = build(1.0)
    opt.tell(pts[-1], ys[-1])
    spread = float(np.ptp(opt.gains_))
    if not spread > 1e-9:
        return
    eta = case["spread"] / spread
    base = build(eta)
    wins, total = np.zeros(3), np.zeros(3)
    gains = None
    for s in range(case["draws"]):
        opt = copy.deepcopy(base)
        opt.rng = np.random.RandomState(s)
        before = len(M.LOG)
        opt.tell(pts[-1], ys[-1])
        search = M.last_search(M.LOG[before:], False)
        del M.LOG[before:]
        if search is None:
            return
        need(gains is None or np.allclose(gains, opt.gains_, rtol=1e-9,
                                          atol=1e-12),
             "the gains depend on the candidates: %r, %r", gains, opt.gains_)
        gains = np.array(opt.gains_)
        X = search[0]
        rows = []
        for name in ("EI", "LCB", "PI"):
            v = M.acq_values(name, search, min(ys), {"eta": eta})
            ties = X[v <= v.min() + 1e-9 * max(1e-9, abs(v.min()))]
            rows.append(ties)
        x = opt.space.transform([opt.ask()])[0]
        hit = [bool(np.isclose(r, x, rtol=1e-9, atol=1e-12).all(1).any())
               for r in rows]
        for i in range(3):
            # functions that propose what no other may
            if any(np.isclose(a, b, rtol=1e-9, atol=1e-12).all()
                   for j in range(3) if j != i for a in rows[i]
                   for b in rows[j]):
                continue
            total[i] += 1
            wins[i] += hit[i]
    p = np.exp(eta * (gains - gains.max()))
    p /= p.sum()
    checked = False
    for i, name in enumerate(("EI", "LCB", "PI")):
        if total[i] < 40:
            continue
        checked = True
        q = binomtest(int(wins[i]), int(total[i]),
                      min(1.0, float(p[i]))).pvalue
        need(q > 1e-9, "gains %r, eta %r: the proposal of %s was followed %d "
             "times in %d, expected %.3f of them", gains, eta, name, wins[i],
             total[i], p[i])
        ctx.label(name)
    ctx.nontrivial(checked)


def strat_hedge():
    from hypothesis import strategies as st

    @st.composite
    def build(draw):
        c = draw(M.config(ests=("probe",), acqs=("gp_hedge",),
                          n_points=(20, 40), max_init=1, queue=False,
                          dims=G.small_space(1, 2, cat=False)))
        c["n_init"] = 1
        return {"cfg": c, "obj": draw(G.objective_spec()),
                "pts": draw(st.lists(G.fracs(len(c["dims"])), min_size=4,
                                     max_size=7, unique_by=tuple)),
                "draws": draw(st.sampled_from([150, 250])),
                "spread": draw(st.sampled_from([0.5, 1.0, 2.0, 4.0]))}
    return build()


PROP = Prop("C14", [
    Sub("hedge", strat_hedge, t_hedge, 25, shards=6,
        rule="150 to 250 searches from one state that differ in their random "
        "numbers alone; non-trivial: at least 40 in which one of the three "
        "functions proposes what no other does"),
    Sub("sampling", strat_history, t_history, 900, shards=6,
        rule="histories with a recording surrogate; after each fit the "
        "suggestion is compared with all candidates; non-trivial: more than "
        "3 distinct candidates"),
    Sub("lbfgs", strat_lbfgs, t_lbfgs, 160, shards=6,
        rule="a Gaussian process over real spaces; non-trivial: a fit on two "
        "points"),
])
