"""C21 callbacks: stoppers decide by their definitions, and runs obey."""
import io
import contextlib
import math
import time

import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


class Res(dict):
    __getattr__ = dict.__getitem__


def dist(specs, a, b):
    t = 0.0
    for s, u, v in zip(specs, a, b):
        t += (0 if G.same_value(u, v) else 1) if s["k"] == "cat" \
            else abs(u - v)
    return t


def want(spec, specs, X, y):
    """(decision, sure) by definition; sure is false at the boundary."""
    k = spec["k"]
    n = len(y)
    if k == "dx":
        if n < 2:
            return False, True
        d = dist(specs, X[-2], X[-1])
        return d < spec["d"], d == 0 or not math.isclose(d, spec["d"],
                                                          rel_tol=1e-9)
    if k == "dy":
        if n < spec["n"]:
            return False, True
        s = sorted(y)[:spec["n"]]
        g = s[-1] - s[0]
        return g < spec["d"], g == 0 or not math.isclose(g, spec["d"],
                                                          rel_tol=1e-9)
    if k == "hollow":
        if n <= spec["n"]:
            return False, True
        g = min(y[:n - spec["n"]]) - min(y)
        return g <= spec["d"], g == 0 or not math.isclose(g, spec["d"],
                                                           rel_tol=1e-9)
    if k == "threshold":
        return min(y) < spec["t"], min(y) != spec["t"]
    raise ValueError(k)


def make(spec):
    from skopt import callbacks as C
    k = spec["k"]
    if k == "dx":
        return C.DeltaXStopper(spec["d"])
    if k == "dy":
        if spec["n"] == 5 and spec.get("def"):
            return C.DeltaYStopper(spec["d"])
        return C.DeltaYStopper(spec["d"], n_best=spec["n"])
    if k == "hollow":
        if spec["d"] == 0 and spec.get("def"):
            return C.HollowIterationsStopper(spec["n"])
        return C.HollowIterationsStopper(spec["n"], spec["d"])
    return C.ThresholdStopper(spec["t"])


def t_stoppers(case, ctx):
    """Decisions over every prefix of a synthetic history."""
    specs = case["dims"]
    sp = G.make_space(specs)
    X = [G.decode_point(specs, u) for u in case["X"]]
    y = [float(v) for v in case["y"]]
    if len(y) > 9:
        X = [list(X[i * i % len(X)]) for i in range(len(y))]
    y = y[:len(X)]
    X = X[:len(y)]
    stoppers = [make(s) for s in case["stop"]]
    fired = 0
    for n in range(1, len(y) + 1):
        res = Res(x_iters=[list(p) for p in X[:n]],
                  func_vals=np.array(y[:n]), space=sp, fun=min(y[:n]))
        keep = np.array(y[:n])
        for st, spec in zip(stoppers, case["stop"]):
            got = st(res)
            w, sure = want(spec, specs, X[:n], y[:n])
            need(got is None or isinstance(got, (bool, np.bool_)),
                 "a decision of type %r", type(got))
            if sure:
                need(bool(got) == w, "%r after %r at %r: %r, by definition "
                     "%r", spec, y[:n], X[:n][-2:], got, w)
                fired += w
            # asking again changes nothing
            need(bool(st(res)) == bool(got), "asked twice, two answers")
            need(np.array_equal(res["func_vals"], keep), "a stopper changed "
                 "the result")
    for s in case["stop"]:
        ctx.label(s["k"])
    ctx.nontrivial(0 < fired < len(y) * len(stoppers))


def stop_spec(st):
    return st.one_of(
        st.fixed_dictionaries({"k": st.just("dx"), "d": st.sampled_from(
            [0.05, 0.3, 1.0, 1.5, 3.0, 0.0])}),
        st.fixed_dictionaries({
            "k": st.just("dy"), "def": st.booleans(), "d": st.sampled_from(
                [0.05, 0.5, 1.0, 2.5, 0.0]), "n": st.one_of(
                    st.integers(1, 5), st.integers(2, 12))}),
        st.fixed_dictionaries({
            "k": st.just("hollow"), "def": st.booleans(),
            "d": st.sampled_from([0, 0, 0.25, 1.0]), "n": st.one_of(
                st.integers(1, 4), st.integers(1, 25))}),
        st.fixed_dictionaries({"k": st.just("threshold"),
                               "t": st.sampled_from([-2.0, -0.5, 0.0, 0.3,
                                                     1.0])}))


def strat_stoppers():
    from hypothesis import strategies as st
    val = st.one_of(st.integers(-4, 4), st.floats(-3, 3, width=16))
    return G.small_space(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "dims": st.just(d), "X": st.lists(G.fracs(len(d)), min_size=1,
                                          max_size=9),
        # short ones, and long ones whose best values may be long ago
        "y": st.one_of(
            st.lists(val, min_size=2, max_size=9),
            st.lists(val, min_size=2, max_size=9),
            st.builds(lambda a, b, k: a + (b * 40)[:k],
                      st.lists(val, min_size=1, max_size=12),
                      st.lists(st.floats(-1, 9, width=16), min_size=3,
                               max_size=12), st.integers(5, 60))),
        "stop": st.lists(stop_spec(st), min_size=1, max_size=3)}))


def t_run(case, ctx):
    """A run ends with the first round after which some callback says so;
    all callbacks of a round are called, in order."""
    import skopt
    specs = case["dims"]
    f = G.objective(specs, case["obj"])
    seen, vals, log = [], [], []

    def func(p):
        seen.append(list(p))
        vals.append(f(p) if not case["round"] else float(round(f(p), 1)))
        return vals[-1]
    stops = case["stop"]
    n = case["n"]

    def fixed(i, plan):
        def cb(res):
            log.append(i)
            k = len([1 for j in log if j == i])
            v = plan[(k - 1) % len(plan)]
            return {"n": None, "f": False, "t": True, "1": 1, "0": 0,
                    "np": np.bool_(True)}[v]
        return cb
    cbs = [make(s) for s in stops] + [fixed(i, p) for i, p in
                                      enumerate(case["plans"])]
    kw = {"callback": cbs[0] if len(cbs) == 1 and case["bare"] else
          (list(cbs) if cbs or case["bare"] else None)}
    dims = G.make_dims(specs)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if case["which"] == "dummy":
            res = skopt.dummy_minimize(func, dims, n_calls=n,
                                       random_state=case["seed"],
                                       verbose=case["verbose"], **kw)
        else:
            from skopt.optimizer import base_minimize
            res = base_minimize(func, dims, M.make_estimator("probe"),
                                acq_optimizer="sampling", n_points=20,
                                n_calls=n, n_initial_points=min(2, n),
                                random_state=case["seed"],
                                verbose=case["verbose"], **kw)
    # the first round at which something says stop
    end, sure = n, True
    for r in range(1, n + 1):
        if r > len(vals):
            break
        ds = [want(s, specs, seen[:r], vals[:r]) for s in stops]
        ps = [p[(r - 1) % len(p)] in ("t", "1", "np") for p in case["plans"]]
        if not all(d[1] for d in ds):
            sure = False
        if any(d[0] for d in ds) or any(ps):
            end = r
            break
    else:
        end = n
    if sure:
        need(len(vals) == end, "the run ended after %d rounds; by its "
             "callbacks it ends after %d of %d (values %r)", len(vals), end,
             n, vals)
    need(len(res.x_iters) == len(vals), "the result has %d points of %d",
         len(res.x_iters), len(vals))
    k = len(case["plans"])
    need(log == [i for _ in range(len(vals)) for i in range(k)],
         "callbacks were called in the order %r in %d rounds", log,
         len(vals))
    text = out.getvalue()
    if case["verbose"]:
        got = [l for l in text.splitlines() if "Function value" in l]
        need([l.split(":")[1].strip() for l in got] ==
             ["%.4f" % v for v in vals], "verbose reports %r, the values are "
             "%r", got, vals)
        got = [l for l in text.splitlines() if "Current minimum" in l]
        need([l.split(":")[1].strip() for l in got] ==
             ["%.4f" % min(vals[:i + 1]) for i in range(len(vals))],
             "verbose reports %r", got)
        its = [l for l in text.splitlines() if l.startswith("Iteration No")]
        nums = [int(l.split()[2]) for l in its if " ended" in l]
        need(nums == list(range(1, len(vals) + 1)), "iterations %r", nums)
    else:
        need(text == "", "printed without verbose: %r", text[:200])
    ctx.label("stopped" if len(vals) < n else "complete", case["which"])
    ctx.nontrivial(1 < len(vals) < n)


def strat_run():
    from hypothesis import strategies as st
    plan = st.lists(st.sampled_from(["n", "f", "n", "f", "0", "n", "t", "1",
                                     "np"]), min_size=1, max_size=6)
    return G.small_space(1, 2).flatmap(lambda d: st.fixed_dictionaries({
        "dims": st.just(d), "obj": G.objective_spec(),
        "which": st.sampled_from(["dummy", "base"]),
        "n": st.integers(1, 10), "seed": G.seeds(), "round": st.booleans(),
        "verbose": st.booleans(), "bare": st.booleans(),
        "stop": st.lists(stop_spec(st), max_size=2),
        "plans": st.lists(plan, max_size=2)}))


class Clock:
    """Every clock that the module may look at, replaced by ours."""

    def __init__(self, module, now):
        self.todo = []
        fake = lambda: now[0]
        names = ("time", "monotonic", "perf_counter")
        real = [getattr(time, n) for n in names]
        for n in names:
            self.todo.append((time, n, fake))
        for n in dir(module):
            if any(getattr(module, n) is r for r in real):
                self.todo.append((module, n, fake))

    def __enter__(self):
        self.old = [(m, n, getattr(m, n)) for m, n, _ in self.todo]
        for m, n, f in self.todo:
            setattr(m, n, f)

    def __exit__(self, *a):
        for m, n, f in self.old:
            setattr(m, n, f)


def t_clock(case, ctx):
    """Timer and deadline under a clock of our own."""
    from skopt import callbacks as C
    now = [case["t0"]]
    with Clock(C, now):
        timer = C.TimerCallback()
        dead = C.DeadlineStopper(case["total"])
        used, over = [], 0
        for i, dt in enumerate(case["dts"]):
            now[0] += dt
            res = Res(x_iters=[[0]] * (i + 1),
                      func_vals=np.zeros(i + 1), fun=0.0)
            need(timer(res) is None, "the timer decides")
            got = dead(res)
            used.append(dt)
            left = case["total"] - sum(used)
            w = left <= max(used)
            need(bool(got) == w, "after iterations of %r s, a budget of %r s: "
                 "%r, expected %r", used, case["total"], got, w)
            over += w
        need(np.allclose(timer.iter_time, used) and
             np.allclose(dead.iter_time, used), "times %r, %r, expected %r",
             timer.iter_time, dead.iter_time, used)
    ctx.nontrivial(0 < over < len(used))


def strat_clock():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "t0": st.integers(0, 10 ** 6).map(float),
        "total": st.integers(1, 40).map(lambda v: v + 0.5),
        "dts": st.lists(st.integers(1, 12).map(float), min_size=1,
                        max_size=8)})


def t_check(case, ctx):
    """What may be given as callback."""
    from skopt.callbacks import check_callback
    from skopt.utils import eval_callbacks

    def f(r):
        return None

    def g(r):
        return True
    need(check_callback(None) == [], "no callback")
    need(check_callback(f) == [f], "one callback")
    given = [f, g] * case["n"]
    got = check_callback(given)
    need(got == [f, g] * case["n"] and given == [f, g] * case["n"],
         "a list of callbacks")
    for bad in (3, "f", [f, 3], [None], {"a": f}, (f, "x")):
        try:
            check_callback(bad)
        except ValueError:
            pass
        else:
            need(False, "%r is taken for a callback", bad)
    called = []

    def mk(v):
        def cb(r):
            called.append((v, r))
            return v
        return cb
    vs = case["vs"]
    token = object()
    got = eval_callbacks([mk(v) for v in vs], token)
    need(bool(got) == any(bool(v) for v in vs), "decision of %r is %r", vs,
         got)
    need([c[0] for c in called] == vs and
         all(c[1] is token for c in called), "called %r of %r", called, vs)
    need(not eval_callbacks(None, token) and not eval_callbacks([], token),
         "a decision without callbacks")
    ctx.nontrivial(len(vs) > 1)


def strat_check():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "n": st.integers(0, 3),
        "vs": st.lists(st.sampled_from([None, True, False, 0, 1]),
                       max_size=5)})


PROP = Prop("C21", [
    Sub("stoppers", strat_stoppers, t_stoppers, 2500, 50000, 4,
        "histories of up to 9 evaluations, stoppers asked after each; "
        "non-trivial: some stop and some do not"),
    Sub("run", strat_run, t_run, 1000, 20000, 4,
        "runs with stoppers and callbacks; non-trivial: stopped in between"),
    Sub("clock", strat_clock, t_clock, 500, 5000, 1,
        "non-trivial: the deadline comes in between"),
    Sub("check", strat_check, t_check, 200, 1000, 1,
        "non-trivial: several callbacks"),
])
