"""C09 the history is exactly what was told, and the surrogate is trained on
exactly that."""
import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


def check_training(cfg, m, X, y, col):
    """X, y: what a surrogate was fitted on; m.X, m.y: what was told."""
    specs = cfg["dims"]
    gp = cfg["est"] == "gpspy"
    need(len(X) == len(m.X) and len(y) == len(m.X),
         "the surrogate was fitted on %d points, %d were told", len(X),
         len(m.X))
    want = [t[col] if col is not None else t for t in m.y]
    need(np.allclose(y, want, rtol=1e-12, atol=0),
         "the surrogate was fitted on values %r, told %r", y.tolist(), want)
    j = 0
    for i, s in enumerate(specs):
        w = 1
        if s["k"] == "cat":
            if not gp and len(s["cats"]) > 2:
                w = len(s["cats"])
            codes = {}
            for p, row in zip(m.X, X):
                key = G.cats_of(s).index(p[i])
                code = tuple(row[j:j + w])
                need(codes.setdefault(key, code) == code, "one category has "
                     "two codes, %r and %r", codes[key], code)
            need(len(set(codes.values())) == len(codes),
                 "two categories have one code: %r", codes)
            if w > 1:
                need(all(sorted(c) == [0.0] * (w - 1) + [1.0]
                         for c in codes.values()), "not one-hot: %r", codes)
        else:
            for p, row in zip(m.X, X):
                if gp:
                    want = G.unit(s, p[i])
                elif s["prior"] == "log-uniform":
                    want = np.log(float(p[i])) / np.log(s["base"])
                else:
                    want = float(p[i])
                need(abs(row[j] - want) <= 1e-9 * max(1.0, abs(want)),
                     "the surrogate sees %r for %r of dimension %d, expected "
                     "%r", row[j], p[i], i, want)
        j += w
    need(X.shape[1] == j, "the surrogate sees %d columns, expected %d",
         X.shape[1], j)


def fits_in(log):
    return [e for e in log if e[0] == "fit"]


def t_history(case, ctx):
    cfg = case["cfg"]
    ps = "ps" in cfg["acq"]
    snaps = []
    n = {"fits": 0, "results": 0}

    def on_fits(log, m, count):
        fs = fits_in(log)
        per = 2 if ps else 1
        need(len(fs) == per * count, "%d fits recorded, expected %d",
             len(fs), per * count)
        if count:
            last = fs[-per:]
            if ps:
                # values first, times second
                a, b = last
                check_training(cfg, m, a[2], a[3], 0)
                check_training(cfg, m, b[2], b[3], 1)
            else:
                check_training(cfg, m, last[0][2], last[0][3], None)
            n["fits"] += count

    def keep(res, m):
        snaps.append((res, m.clone()))
        n["results"] += 1

    def hook(name, r, **kw):
        m = r.m
        if name == "told":
            M.check_state(r.opt, m, "after tell")
            M.check_result(kw["res"], m, "result of tell")
            if cfg["est"] in ("probe", "gpspy"):
                on_fits(kw["log"], m, 1 if kw["fits"] else 0)
                if kw["fits"]:
                    check_models(r, m)
            keep(kw["res"], m)
        elif name == "ran":
            M.check_state(r.opt, m, "after run")
            if m.X:
                M.check_result(kw["res"], m, "result of run")
                keep(kw["res"], m)
        elif name == "result":
            M.check_state(r.opt, m, "after get_result")
            M.check_result(kw["res"], m, "get_result")
            keep(kw["res"], m)
        elif name in ("askedn", "copied", "updated", "asked", "after"):
            M.check_state(r.opt, m, "after " + name)

    def check_models(r, m):
        """The newest model is the one trained on everything told."""
        last = r.opt.models[-1]
        est = last.estimators_[0] if ps else last
        X = est.X_ if cfg["est"] == "probe" else est.X_train_
        need(len(X) == len(m.X), "the last model was trained on %d points, "
             "%d were told", len(X), len(m.X))

    r = M.Runner(case, hook).run()
    # results handed out earlier still describe the moment they were made
    for res, m in snaps:
        M.check_result(res, m, "an earlier result")
    if r.m.X:
        M.check_result(r.opt.get_result(), r.m, "final get_result")
    ctx.label(cfg["est"], cfg["acq"])
    ctx.nontrivial(n["fits"] >= 1 and n["results"] >= 2)


def strat_history():
    return M.history(M.config(ests=("probe", "probe", "gpspy", "dummy",
                                    "et")), 9,
                     weights={"tellask": 4, "tell": 3, "batch": 3,
                              "nofit": 2, "ask": 1, "askn": 2, "copy": 1,
                              "update": 1, "result": 2, "run": 2})


def t_budget(case, ctx):
    """The surrogate takes over exactly when n_initial_points were told."""
    cfg = case["cfg"]
    opt = M.make_optimizer(cfg)
    f = G.objective(cfg["dims"], case["obj"])
    told = 0
    made = []
    for k, size in enumerate(case["sizes"]):
        ps = [opt.ask() if told == 0 or case["own"] is None else
              G.decode_point(cfg["dims"], case["own"]) for _ in range(size)]
        ys = [M.yval(cfg, f, p, k) for p in ps]
        before = len(M.LOG)
        if size == 1:
            res = opt.tell(ps[0], ys[0])
        else:
            res = opt.tell(ps, ys)
        told += size
        fitted = bool(fits_in(M.LOG[before:]))
        need(fitted == (told >= cfg["n_init"]),
             "n_initial_points=%d, %d told: %s fitted", cfg["n_init"], told,
             "a model was" if fitted else "no model was")
        q = cfg["queue"]
        need(len(opt.models) <= (q if q else 10 ** 6), "queue of %r holds "
             "%d models", q, len(opt.models))
        # the newest ones, as they came
        if fitted:
            made.append(opt.models[-1])
        kept = made[-q:] if q else made
        for what, ms in (("optimizer", opt.models), ("result", res.models)):
            need(len(ms) == len(kept) and all(
                a is b for a, b in zip(ms, kept)), "after %d fits the %s "
                "holds those numbered %r with a queue of %r", len(made), what,
                [[i for i, b in enumerate(made) if a is b] for a in ms], q)
    ctx.nontrivial(told > cfg["n_init"] > 0)


def strat_budget():
    from hypothesis import strategies as st
    cfg = M.config(ests=("probe",), max_init=6)
    return cfg.filter(lambda c: c["n_init"] > 0).flatmap(
        lambda c: st.fixed_dictionaries({
            "cfg": st.just(c), "obj": G.objective_spec(),
            "own": st.one_of(st.none(), G.fracs(len(c["dims"]))),
            "sizes": st.lists(st.integers(1, 4), min_size=1, max_size=9)}))


def t_long(case, ctx):
    """Hundreds of observations: none is forgotten, however many."""
    cfg = case["cfg"]
    ps = "ps" in cfg["acq"]
    per = 2 if ps else 1
    opt = M.make_optimizer(cfg)
    m = M.Model(cfg)
    f = G.objective(cfg["dims"], case["obj"])
    rng = np.random.RandomState(case["pts"])
    d = len(cfg["dims"])
    for size, fit in case["steps"]:
        X = [G.decode_point(cfg["dims"], list(u)) for u in rng.rand(size, d)]
        y = [M.yval(cfg, f, p, k) for k, p in enumerate(X)]
        before = len(M.LOG)
        res = opt.tell([list(p) for p in X], list(y), fit=fit)
        fits = m.told(X, [M.y_stored(cfg, v) for v in y], fit)
        M.check_state(opt, m, "after telling %d points" % size)
        M.check_result(res, m, "result of telling %d points" % size)
        fs = fits_in(M.LOG[before:])
        need(len(fs) == per * fits, "%d fits recorded", len(fs))
        for c, e in enumerate(fs):
            check_training(cfg, m, e[2], e[3], c if ps else None)
    before = len(M.LOG)
    c = opt.copy(random_state=1)
    M.check_state(c, m if m.remaining > 0 else copied(m), "the copy")
    for c, e in enumerate(fits_in(M.LOG[before:])):
        check_training(cfg, m, e[2], e[3], c if ps else None)
    before = len(M.LOG)
    opt.ask(2)
    fs = fits_in(M.LOG[before:])
    need(not fs or len(fs[-1][2]) == len(m.X) + 2, "the last of the "
         "surrogates of a batch was fitted on %d points, %d were told",
         len(fs[-1][2]) if fs else 0, len(m.X))
    M.check_state(opt, m, "after asking")
    ctx.label("%d00 points" % (len(m.X) // 100))
    ctx.nontrivial(len(m.X) > 200 and m.n_models > 0)


def copied(m):
    """A copy has one model, that of the whole history."""
    c = m.clone()
    c.n_models = 1
    return c


def strat_long():
    from hypothesis import strategies as st
    cfg = M.config(ests=("probe",), max_init=6)
    step = st.tuples(st.sampled_from([1, 3, 40, 150, 300, 700]),
                     st.sampled_from([True, True, False]))
    return cfg.flatmap(lambda c: st.fixed_dictionaries({
        "cfg": st.just(c), "obj": G.objective_spec(),
        "pts": st.integers(0, 10 ** 6),
        "steps": st.lists(step, min_size=1, max_size=5)}))


PROP = Prop("C09", [
    Sub("history", strat_history, t_history, quick=900, shards=8,
        rule="sequences of tells (single, batch, without fit, of arbitrary "
        "points), asks, copies, runs; non-trivial: a fit was checked and at "
        "least two results were"),
    Sub("budget", strat_budget, t_budget, quick=400, shards=4,
        rule="tells of varying sizes around n_initial_points; non-trivial: "
        "the boundary was crossed"),
    Sub("long", strat_long, t_long, quick=40, shards=4,
        rule="histories of up to 3500 points; non-trivial: over 200 points "
        "and a model"),
])
