"""C24 BayesSearchCV: which settings are tried, their scores, the winner."""
import math
import pickle
import warnings

import numpy as np
from sklearn.base import BaseEstimator

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need

FITS = []
KEYS = ["a", "b", "c", "d__e", "B"]


def val(v):
    if v is None:
        return 0.1
    if isinstance(v, bool):
        return 0.7 if v else 0.2
    if isinstance(v, str):
        return (sum(map(ord, v)) % 7) / 7.0
    if isinstance(v, tuple):
        return sum(val(x) for x in v) / 5.0
    return math.tanh(float(v) / 3.0)


def true_score(params, kind, X):
    t = sum((1 + i) * val(params[k]) for i, k in enumerate(sorted(params)))
    if kind == "coarse":
        t = math.floor(3 * t) / 3.0
    elif kind == "const":
        t = 0.5
    elif kind == "big":
        t = 100 * t - 50
    return t + 0.01 * float(np.mean(np.asarray(X)[:, 0]))


class Rec(BaseEstimator):
    """Records its fits; its score is a known function of its parameters."""

    def __init__(self, a=0, b=0, c=0, B=0, d__e=0, kind="sum", keys=()):
        self.a = a
        self.b = b
        self.c = c
        self.B = B
        self.d__e = d__e
        self.kind = kind
        self.keys = keys

    def set_params(self, **kw):
        for k, v in kw.items():
            if k not in ("a", "b", "c", "B", "d__e", "kind", "keys"):
                raise ValueError(k)
            setattr(self, k, v)
        return self

    def fit(self, X, y=None, **kw):
        self.set_ = {k: getattr(self, k) for k in KEYS
                     if getattr(self, k) != "unset"}
        FITS.append((dict(self.set_), np.array(X), None if y is None else
                     np.array(y), kw))
        self.n_ = len(X)
        return self

    def score(self, X, y=None):
        return true_score(self.set_, self.kind, X)

    def predict(self, X):
        return np.full(len(X), self.n_)


def rec(kind):
    return Rec(*["unset"] * 5, kind=kind)


def own_scorer(est, X, y):
    return -2.0 * est.score(X, y) + 1.0


def shorthand(s, how):
    """The same dimension in another notation."""
    d = G.make_dim(s)
    if how == 0 or s["k"] == "int" and s["prior"] != "uniform" or \
            s["k"] == "cat" and (s.get("prior") is not None or len(
                s["cats"]) < 3 or not isinstance(s["cats"][0], str)):
        return d
    if s["k"] == "cat":
        return list(s["cats"]) if how == 1 else tuple(s["cats"])
    if s["prior"] == "uniform":
        return (s["low"], s["high"])
    return (s["low"], s["high"], "log-uniform") if s["base"] == 10 else d


def build_spaces(case):
    out = []
    for sp in case["spaces"]:
        d = {k: shorthand(s, h) for k, s, h in
             zip(sp["keys"], sp["dims"], sp["how"])}
        out.append((d, sp["n"]) if sp["n"] is not None else d)
    if case["single"] and len(out) == 1 and isinstance(out[0], dict):
        return out[0]
    return out


def fold(case, n):
    from sklearn.model_selection import GroupKFold, KFold, PredefinedSplit
    k = case["cv"]
    if k == "kfold":
        return KFold(3, shuffle=True, random_state=case["seed"]), None
    if k == "group":
        return GroupKFold(2), np.arange(n) // 2 % 3
    if k == "pre":
        return PredefinedSplit(np.array([-1, 0, 1] * n)[:n]), None
    if k == "pairs":
        return [(np.arange(n // 2), np.arange(n // 2, n))], None
    return k, None


def splits_of(cv, groups, X, y):
    from sklearn.model_selection import check_cv
    c = check_cv(cv, y, classifier=False)
    return list(c.split(X, y, groups))


def make_search(case, **over):
    from skopt import BayesSearchCV
    n = case["n_data"]
    cv, groups = fold(case, n)
    ok = {"base_estimator": M.make_estimator(case["est"]),
          "n_initial_points": case["n_init"],
          "acq_optimizer": "sampling",
          "acq_optimizer_kwargs": {"n_points": 30},
          "acq_func": case["acq"]}
    kw = dict(optimizer_kwargs=ok, n_iter=case["n_iter"], cv=cv,
              n_points=case["n_points"], refit=case["refit"],
              scoring=own_scorer if case["scoring"] else None,
              random_state=case["seed"], n_jobs=1,
              fit_params=case["fp"][0] or None,
              return_train_score=case["train"])
    if case.get("plain"):
        del kw["optimizer_kwargs"]
    kw.update(over)
    return BayesSearchCV(rec(case["kind"]), build_spaces(case), **kw), groups


def scored(case, params, X):
    s = true_score(params, case["kind"], X)
    return -2.0 * s + 1.0 if case["scoring"] else s


def results_equal(a, b):
    if len(a["params"]) != len(b["params"]):
        return False
    return list(a["params"]) == list(b["params"]) and all(
        type(p[k]) is type(q[k]) for p, q in zip(a["params"], b["params"])
        for k in p) and all(
        np.array_equal(a[k], b[k]) for k in a
        if k.endswith("_test_score") or k.endswith("_train_score"))


def t_search(case, ctx):
    n = case["n_data"]
    X = np.random.RandomState(case["seed"]).rand(n, 2)
    y = np.arange(n) % 2
    search, groups = make_search(case)
    iters = [sp["n"] if sp["n"] is not None else case["n_iter"]
             for sp in case["spaces"]]
    total = sum(iters)
    need(search.total_iterations == total, "total_iterations %r, the search "
         "spaces have %d", search.total_iterations, total)
    cv, _ = fold(case, n)
    splits = splits_of(cv, groups, X, y)
    calls = []
    stop_at = case["stop_at"]
    single = len(iters) == 1

    def cb(res):
        calls.append((len(res.x_iters), len(FITS), float(res.fun)))
        if single and len(calls) == stop_at:
            return True
    del FITS[:]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = search.fit(X, y, groups=groups,
                         callback=[cb] if case["cb_list"] else cb,
                         **case["fp"][1])
    need(got is search, "fit does not return the search")
    fits = list(FITS)
    # how many settings
    expect, expect_calls = [], []
    for it in iters:
        left, done = it, 0
        while left > 0:
            k = min(left, case["n_points"])
            done += k
            left -= k
            expect_calls.append(done)
            if single and len(expect_calls) == stop_at:
                break
        expect.append(done)
    need([c[0] for c in calls] == expect_calls, "callbacks saw %r points, "
         "expected %r", [c[0] for c in calls], expect_calls)
    cr = search.cv_results_
    params = cr["params"]
    need(len(params) == sum(expect), "%d settings tried, expected %r",
         len(params), expect)
    need(search.n_splits_ == len(splits), "n_splits_ %r", search.n_splits_)
    need(len(fits) == len(params) * len(splits) + (1 if case["refit"] else 0),
         "%d fits for %d settings and %d splits", len(fits), len(params),
         len(splits))
    # what the settings are
    at = 0
    every = set()
    for sp, e in zip(case["spaces"], expect):
        every |= set(sp["keys"])
        for p in params[at:at + e]:
            need(set(p) == set(sp["keys"]), "setting %r for the parameters "
                 "%r", p, sp["keys"])
            for k, s in zip(sp["keys"], sp["dims"]):
                need(G.member(s, p[k]) and not isinstance(p[k], np.generic),
                     "%s=%r (%s) is not a native value of %r", k, p[k],
                     type(p[k]), s)
        at += e
    need({k for k in cr if k.startswith("param_")} ==
         {"param_" + k for k in every}, "columns %r", sorted(cr))
    for k in every:
        col = cr["param_" + k]
        for i, p in enumerate(params):
            if k in p:
                need(not np.ma.getmaskarray(col)[i] and
                     G.same_value(col[i], p[k]), "param_%s[%d]=%r, the "
                     "setting is %r", k, i, col[i], p)
            else:
                need(np.ma.getmaskarray(col)[i], "param_%s[%d] is not masked",
                     k, i)
    # what was fitted, and with which arguments
    fp = dict(case["fp"][0])
    fp.update(case["fp"][1])
    for i, (got_p, gx, gy, kw) in enumerate(fits):
        need(kw == fp, "fit got %r, expected %r", kw, fp)
        if i < len(params) * len(splits):
            p, (tr, _) = params[i // len(splits)], splits[i % len(splits)]
        else:
            p, tr = params[search.best_index_], np.arange(n)
        need(got_p == p, "an estimator with %r was fitted for the setting %r",
             got_p, p)
        need(np.array_equal(gx, X[tr]) and np.array_equal(gy, y[tr]),
             "the estimator was fitted on other data")
    # scores
    test = np.array([[scored(case, p, X[te]) for _, te in splits]
                     for p in params])
    train = np.array([[scored(case, p, X[tr]) for tr, _ in splits]
                      for p in params])
    for name, M_ in (("test", test), ("train", train)):
        if name == "train" and not case["train"]:
            need("mean_train_score" not in cr, "train scores not asked for")
            continue
        for k in range(len(splits)):
            need(np.allclose(cr["split%d_%s_score" % (k, name)], M_[:, k],
                             rtol=0, atol=1e-9), "split%d_%s_score", k, name)
        mean = M_.mean(1)
        need(np.allclose(cr["mean_%s_score" % name], mean, rtol=0, atol=1e-9),
             "mean_%s_score", name)
        need(np.allclose(cr["std_%s_score" % name], M_.std(1), rtol=0,
                         atol=1e-9), "std_%s_score", name)
        own = cr["mean_%s_score" % name]
        rank = [1 + int(np.sum(own > v)) for v in own]
        need(list(cr["rank_%s_score" % name]) == rank or
             (name == "test" and np.unique(np.round(own, 9)).size <
              np.unique(own).size), "rank_%s_score %r for %r", name,
             list(cr["rank_%s_score" % name]), list(own))
    mean = test.mean(1)
    b = search.best_index_
    need(mean[b] >= mean.max() - 1e-9, "best_index_ %d scores %r, the best is "
         "%r", b, mean[b], mean.max())
    need(search.best_params_ == params[b], "best_params_")
    need(abs(search.best_score_ - mean[b]) <= 1e-9, "best_score_")
    if case["refit"]:
        be = search.best_estimator_
        need({k: getattr(be, k) for k in params[b]} == params[b],
             "best_estimator_ has other parameters")
        need(list(search.predict(X[:3])) == [n] * 3, "not refit on all data")
        need(abs(search.score(X[:4], y[:4]) - scored(case, params[b], X[:4]))
             <= 1e-9, "score")
    else:
        need(not hasattr(search, "best_estimator_"), "refit=False")
    # what the optimizers saw
    need(len(search.optimizer_results_) == len(iters), "%d results for %d "
         "spaces", len(search.optimizer_results_), len(iters))
    at = 0
    own = list(cr["mean_test_score"])
    for sp, e, res in zip(case["spaces"], expect, search.optimizer_results_):
        ks = sorted(sp["keys"])
        need(G.same_points(res.x_iters, [[p[k] for k in ks]
                                         for p in params[at:at + e]]),
             "the points of the optimizer are not the settings tried")
        need([float(v) for v in res.func_vals] == [-v for v in
                                                   own[at:at + e]],
             "the optimizer was told %r for the scores %r",
             list(res.func_vals), own[at:at + e])
        need(float(res.fun) == -max(own[at:at + e]), "fun of the result")
        need([d.name for d in res.space.dimensions] == ks, "the dimensions "
             "are named %r", [d.name for d in res.space.dimensions])
        at += e
    ctx.label("%d spaces" % len(iters), "points=%d" % case["n_points"],
              "cv=%s" % case["cv"], "est=" + case["est"])
    ctx.nontrivial(len(params) > 2 and len(np.unique(mean)) > 1)


def t_same(case, ctx):
    """The same search again: clone, threads, pickle, and by hand."""
    import joblib
    from sklearn.base import clone
    n = case["n_data"]
    X = np.random.RandomState(case["seed"]).rand(n, 2)
    y = np.arange(n) % 2
    search, groups = make_search(case)
    again = clone(search)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        search.fit(X, y, groups=groups, **case["fp"][1])
        first = search.cv_results_
        if case["how"] == "clone":
            other = clone(search)
        elif case["how"] == "refit":
            other = search
        elif case["how"] == "before":
            other = again
        elif case["how"] == "changed":
            # nothing of a fit with other settings is left
            other = again.set_params(
                n_iter=1 + case["seed"] % 3, n_points=2, refit=False,
                optimizer_kwargs={"initial_point_generator": "lhs",
                                  "n_initial_points": 3})
            other.fit(X, y, groups=groups, **case["fp"][1])
            other.set_params(**{k: getattr(search, k) for k in (
                "n_iter", "n_points", "refit", "optimizer_kwargs")})
        elif case["how"] == "global":
            np.random.seed(case["seed"] + 1)
            other = again
        elif case["how"] == "jobs":
            other = clone(search).set_params(
                n_jobs=2, pre_dispatch=case["pre"])
        elif case["how"] == "pickle":
            back = pickle.loads(pickle.dumps(search))
            need(results_equal(back.cv_results_, first), "pickled results")
            if case["refit"]:
                need(list(back.predict(X)) == list(search.predict(X)),
                     "pickled best estimator")
            other = back
        else:
            other = None
        if other is not None:
            with joblib.parallel_backend("threading"):
                other.fit(X, y, groups=groups, **case["fp"][1])
            need(results_equal(other.cv_results_, first), "%s: the same "
                 "search tried %r, before %r", case["how"],
                 other.cv_results_["params"], first["params"])
        if case["how"] == "hand" and len(case["spaces"]) == 1:
            from skopt import Optimizer
            sp = case["spaces"][0]
            ks = sorted(sp["keys"])
            kw = dict(search.optimizer_kwargs or {})
            opt = Optimizer([shorthand(s, h) for _, s, h in sorted(
                zip(sp["keys"], sp["dims"], sp["how"]),
                key=lambda t: t[0])], random_state=case["seed"], **kw)
            done = 0
            while done < len(first["params"]):
                k = min(case["n_points"], len(first["params"]) - done)
                pts = opt.ask(n_points=k)
                want = [[p[q] for q in ks]
                        for p in first["params"][done:done + k]]
                need(G.same_points(pts, want), "the search tried %r, its "
                     "optimizer suggests %r", want, pts)
                opt.tell(want, [-float(v) for v in
                                first["mean_test_score"][done:done + k]])
                done += k
    ctx.label(case["how"])
    ctx.nontrivial(len(first["params"]) > case["n_init"] and
                   case["est"] != "dummy" and not case["plain"])


def case_strategy(same=False):
    from hypothesis import strategies as st

    @st.composite
    def build(draw):
        ns = draw(st.sampled_from([1, 1, 1, 2, 3]))
        if same and draw(st.booleans()):
            ns = 1
        spaces = []
        for _ in range(ns):
            nk = draw(st.integers(1, 3))
            keys = draw(st.permutations(KEYS))[:nk]
            dims = [draw(G.dim_spec(
                real_kw=dict(transforms=(None, "normalize"), wide=False),
                int_kw=dict(transforms=(None,), wide=False),
                cat_kw=dict(transforms=(None,), max_cats=4, min_cats=2,
                            kinds=("str", "int", "bool", "mixed", "none",
                                   "tuple"))))
                for _ in keys]
            spaces.append({"keys": list(keys), "dims": dims,
                           "how": [draw(st.integers(0, 2)) for _ in keys],
                           "n": draw(st.sampled_from([None, 1, 2, 3, 5]))})
        fp = draw(st.sampled_from([[{}, {}], [{}, {"w": 1}], [{"w": 2}, {}],
                                   [{"w": 2, "z": 0}, {"w": 3}]]))
        est = draw(st.sampled_from(["dummy", "probe", "probe", "et", "gpspy"]
                                   if not same else
                                   ["probe", "probe", "et", "gpspy", "GP"]))
        c = {"spaces": spaces, "single": draw(st.booleans()),
             "n_iter": draw(st.integers(1, 9)),
             "n_points": draw(st.integers(1, 4)),
             "n_init": draw(st.sampled_from([1, 2, 3, 10])),
             "est": est, "acq": draw(st.sampled_from(["EI", "LCB"])),
             "cv": draw(st.sampled_from([2, 2, 3, None, "kfold", "group",
                                         "pre", "pairs"])),
             "n_data": draw(st.integers(6, 12)),
             "refit": draw(st.booleans()), "train": draw(st.booleans()),
             "scoring": draw(st.booleans()), "fp": fp,
             "kind": draw(st.sampled_from(["sum", "sum", "big", "coarse",
                                           "const"])),
             "stop_at": draw(st.sampled_from([0, 0, 1, 2, 3])),
             "cb_list": draw(st.booleans()), "seed": draw(G.seeds())}
        # the default optimizer starts with ten random settings
        c["plain"] = draw(st.sampled_from([False] * 5 + [True])) and max(
            [sp["n"] or c["n_iter"] for sp in spaces]) < 10 - c["n_points"]
        if same:
            c["how"] = draw(st.sampled_from(
                ["clone", "refit", "before", "global", "jobs", "pickle",
                 "hand", "hand", "changed", "changed"]))
            c["pre"] = draw(st.sampled_from(["2*n_jobs", 1, None, "all"]))
            if c["pre"] is None:
                c["pre"] = "all"
        return c
    return build()


# ------------------------------------------------ against cross_val_score

def t_cross(case, ctx):
    from sklearn.linear_model import Ridge
    from sklearn.model_selection import cross_val_score
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.base import clone
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    from sklearn.tree import DecisionTreeClassifier
    from skopt import BayesSearchCV
    from skopt.space import Categorical, Integer, Real
    rs = np.random.RandomState(case["seed"])
    X = rs.rand(24, 3)
    which = case["which"]
    y = X.dot([1.0, -2.0, 0.5]) + 0.3 * rs.rand(24)
    if which == "tree":
        est = DecisionTreeClassifier(random_state=0)
        sp = {"max_depth": Integer(1, 5), "min_samples_leaf": (1, 4),
              "criterion": ["gini", "entropy"]}
    elif which == "knn":
        est = KNeighborsClassifier()
        sp = {"n_neighbors": (1, 9), "weights": Categorical(
            ["uniform", "distance"]), "p": Real(1.0, 3.0)}
    elif which == "pipe":
        est = make_pipeline(StandardScaler(), Ridge())
        sp = {"ridge__alpha": (1e-4, 1e2, "log-uniform"),
              "ridge__fit_intercept": Categorical([True, False]),
              "standardscaler__with_mean": Categorical([True, False])}
    else:
        est = Ridge()
        sp = {"alpha": Real(1e-4, 1e2, prior="log-uniform"),
              "fit_intercept": Categorical([True, False])}
    if which in ("tree", "knn"):
        y = (y > np.median(y)).astype(int)
        if which == "tree":
            y = np.array(["no", "yes"])[y]
        scoring = case["scoring"][0]
    else:
        scoring = case["scoring"][1]
    before = repr(est.get_params())
    search = BayesSearchCV(
        est, sp, n_iter=case["n_iter"], n_points=case["n_points"], cv=3,
        scoring=scoring, random_state=case["seed"],
        optimizer_kwargs={"base_estimator": M.make_estimator(case["est"]),
                          "n_initial_points": 2,
                          "acq_optimizer": "sampling",
                          "acq_optimizer_kwargs": {"n_points": 30}})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        search.fit(X, y)
        need(repr(est.get_params()) == before, "the search changed the "
             "estimator it was given")
        cr = search.cv_results_
        need(len(cr["params"]) == case["n_iter"], "settings")
        best = None
        for i, p in enumerate(cr["params"]):
            v = cross_val_score(clone(est).set_params(**p), X, y, cv=3,
                                scoring=scoring)
            need(abs(v.mean() - cr["mean_test_score"][i]) < 1e-7 * max(
                1.0, abs(v.mean())), "%r scores %r, cv_results_ says %r", p,
                v.mean(), cr["mean_test_score"][i])
            best = v.mean() if best is None else max(best, v.mean())
        need(abs(search.best_score_ - best) < 1e-7 * max(1.0, abs(best)),
             "best_score_ %r, the best setting scores %r",
             search.best_score_, best)
        ref = clone(est).set_params(**search.best_params_).fit(X, y)
        a, b = ref.predict(X), search.predict(X)
        need(np.array_equal(a, b) if a.dtype.kind in "US" else
             np.allclose(a, b), "the search predicts as another estimator")
        if scoring is None:
            need(abs(search.score(X, y) - ref.score(X, y)) < 1e-9, "score")
    ctx.label(which, str(scoring))
    ctx.nontrivial(len(set(cr["mean_test_score"])) > 1)


def cross_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "which": st.sampled_from(["tree", "knn", "pipe", "ridge"]),
        "scoring": st.tuples(
            st.sampled_from([None, "accuracy", "roc_auc"]),
            st.sampled_from([None, "r2", "neg_mean_squared_error"])),
        "est": st.sampled_from(["probe", "et", "gpspy"]),
        "n_iter": st.integers(1, 6), "n_points": st.integers(1, 3),
        "seed": G.seeds()})


# ------------------------------------------------------------- rejections

def t_reject(case, ctx):
    from skopt import BayesSearchCV
    good = {"a": (0.0, 1.0)}
    k = case["bad"]
    bad = {
        "empty-list": [], "empty-dict": {}, "three": [(good, 1, 2)],
        "one": [(good,)], "zero": [(good, 0)],
        "neg": [(good, -1 - case["n"])],
        "float": [(good, 2.0)], "str-n": [(good, "3")],
        "none-n": [(good, None)],
        "not-dict": [3], "str": ["a"], "list-in": [[good]],
        "tuple-of": (good, 2), "number": 4.5, "no-tuple": (),
        "low>high": {"a": (2.0, 1.0)},
        "low>high2": [good, {"b": (5, 1)}],
        "scalar": {"a": 3}, "set": [good, ({"b": {1: 2}}, 2)],
    }[k]
    if case["wrap"] and isinstance(bad, list) and bad:
        bad = [good] + bad
    try:
        BayesSearchCV(rec("sum"), bad, n_iter=1, cv=2)
    except (ValueError, TypeError) as e:
        need("format" not in str(e), "search_spaces=%r: %s", bad, e)
    else:
        need(False, "search_spaces=%r was accepted", bad)
    ctx.label(k)
    ctx.nontrivial()


BADS = ["empty-list", "empty-dict", "three", "one", "zero", "neg", "float",
        "str-n", "none-n", "not-dict", "str", "list-in", "tuple-of",
        "number", "no-tuple", "low>high", "low>high2", "scalar", "set"]


def reject_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "bad": st.sampled_from(BADS), "wrap": st.booleans(),
        "n": st.integers(0, 50)})


PROP = Prop("C24", [
    Sub("search", case_strategy, t_search, 480, shards=8,
        rule="three settings or more with different scores"),
    Sub("same", lambda: case_strategy(True), t_same, 160, shards=8,
        rule="settings were tried that a surrogate suggested"),
    Sub("cross", cross_strategy, t_cross, 80, shards=4,
        rule="the settings have different scores"),
    Sub("reject", reject_strategy, t_reject, 60, shards=1,
        rule="a malformed description of search spaces"),
])
