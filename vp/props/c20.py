"""C20 results and optimizers survive being stored; checkpoints survive
interruptions."""
import copy
import os
import pathlib
import pickle
import shutil
import tempfile

import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Reject, Sub, need

BAD = [None]          # what pickling an Objective does: None, "raise", "exit"


class Interrupt(Exception):
    pass


class Objective:
    """A storable objective; storing or calling it can be made to fail."""

    def __init__(self, specs, spec, ps=False):
        self.args = specs, spec, ps
        self.seen = []
        self.fail_at = None

    def __call__(self, p):
        if self.fail_at is not None and len(self.seen) >= self.fail_at:
            raise Interrupt()
        specs, spec, ps = self.args
        v = G.objective(specs, spec)(p)
        self.seen.append(list(p))
        return (v, 1.0 + len(self.seen) % 3) if ps else v

    def __getstate__(self):
        if BAD[0] == "raise":
            raise Interrupt()
        if BAD[0] == "exit":
            os._exit(7)
        return self.__dict__


class NotStorable:
    def __init__(self, f):
        self.f = f

    def __call__(self, p):
        return self.f(p)

    def __reduce__(self):
        raise TypeError("this objective cannot be stored")

    def method(self, p):
        return self.f(p)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp-c20-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def same_result(a, b, what, models=True):
    need(set(a.keys()) == set(b.keys()), "%s: fields %r, %r", what,
         sorted(a), sorted(b))
    need(G.close_point(a.x, b.x) and [type(v) for v in a.x] ==
         [type(v) for v in b.x], "%s: x %r, %r", what, a.x, b.x)
    need(a.fun == b.fun and np.array_equal(a.func_vals, b.func_vals),
         "%s: values", what)
    need(G.close_points(a.x_iters, b.x_iters), "%s: x_iters", what)
    need(a.space == b.space, "%s: space %r, %r", what, a.space, b.space)
    for d, e in zip(a.space.dimensions, b.space.dimensions):
        need(d.name == e.name and d.transform_ == e.transform_,
             "%s: dimension %r, %r", what, d, e)
    need(G.close_arr(a.space.transform(a.x_iters),
                     b.space.transform(b.x_iters)), "%s: transform", what)
    if a.random_state is not None:
        need(all(np.array_equal(u, v) for u, v in zip(
            a.random_state.get_state(), b.random_state.get_state())),
            "%s: random state", what)
    need(len(a.models or []) == len(b.models or []), "%s: %d models, %d",
         what, len(a.models), len(b.models))
    Q = a.space.transform(a.space.rvs(5, random_state=1))
    for m, n in zip(a.models or [], b.models or []):
        need(G.close_arr(m.predict(Q), n.predict(Q)),
             "%s: a model predicts otherwise", what)
    if "log_time" in a:
        need(np.array_equal(a.log_time, b.log_time), "%s: log_time", what)
    need(a.space.rvs(3, random_state=5) == b.space.rvs(3, random_state=5),
         "%s: samples of the space", what)


def path_of(case, d):
    p = os.path.join(d, case["file"])
    return pathlib.Path(p) if case["pathlib"] else p


def t_result(case, ctx):
    import skopt
    specs = case["dims"]
    ps = "ps" in case["acq"]
    obj = Objective(specs, case["obj"], ps)
    plain = case["func"] == "plain"
    func = obj if plain else NotStorable(obj)
    if case["func"] == "method":
        func = func.method
    res = minimize(case, func)
    args = set(res.specs["args"])
    with Scratch() as d:
        p = path_of(case, d)
        kw = dict(case["kw"])
        if plain:
            ret = skopt.dump(res, p, **kw)
            need(ret is None, "dump returns %r", ret)
            back = skopt.load(p)
            same_result(res, back, "stored and loaded")
            need(set(back.specs["args"]) == args, "call arguments %r, %r",
                 sorted(back.specs["args"]), sorted(args))
            need(back.specs["args"]["func"](list(res.x)) ==
                 obj_again(obj, res.x), "the stored objective is another")
            ctx.label("with objective")
        else:
            try:
                skopt.dump(res, os.path.join(d, "x"), **kw)
            except Exception:
                pass
            else:
                need(False, "an objective that cannot be stored was stored")
        skopt.dump(res, p, store_objective=False, **kw)
        need(set(res.specs["args"]) == args and
             res.specs["args"]["func"] == func,
             "storing without the objective took it from the result")
        back = skopt.load(p)
        same_result(res, back, "stored without the objective")
        need("func" not in back.specs["args"], "the objective was stored")
        need(set(back.specs["args"]) == args - {"func"},
             "arguments %r lost", args - {"func"} - set(back.specs["args"]))
        # again, from one that has none; and on top of another file
        skopt.dump(back, p, store_objective=False, **kw)
        twice = skopt.load(p)
        same_result(res, twice, "stored twice")
        # a stored history can be told to a new optimizer
        cont = case["cont"]
        obj2 = Objective(specs, case["obj"], ps)
        y0 = list(back.func_vals)
        if ps:
            y0 = list(zip(back.func_vals, np.exp(back.log_time)))
        res2 = minimize(dict(case, n_init=1, extra=cont - 1), obj2,
                        x0=back.x_iters, y0=y0)
        need(len(obj2.seen) == cont, "%d evaluations, expected %d",
             len(obj2.seen), cont)
        need(G.close_points(res2.x_iters[:len(res.x_iters)], res.x_iters) and
             G.close_arr(res2.func_vals[:len(res.x_iters)],
                         res.func_vals) and
             len(res2.x_iters) == len(res.x_iters) + cont,
             "a continued run has another history")
        need(res2.fun <= res.fun, "a continued run is worse")
    ctx.label(case["which"])
    ctx.nontrivial(len(res.models) > 0 and len(res.x_iters) > 2)


def obj_again(obj, x):
    specs, spec, ps = obj.args
    return Objective(specs, spec, ps)(list(x)) if not ps else \
        (G.objective(specs, spec)(list(x)), 1.0 + (len(obj.seen) + 1) % 3)


def minimize(case, func, **kw):
    import skopt
    w = case["which"]
    a = dict(n_calls=case["n_init"] + case["extra"],
             random_state=case["seed"],
             initial_point_generator=case["gen"])
    a.update(kw)
    dims = G.make_dims(case["dims"])
    for i, d in enumerate(dims):
        d.name = "dim%d" % i
    if w == "dummy":
        return skopt.dummy_minimize(func, dims, **a)
    a.update(n_initial_points=case["n_init"], n_points=20,
             acq_func=case["acq"])
    if w == "gp":
        return skopt.gp_minimize(
            func, dims, base_estimator=M.make_estimator("gpspy"),
            n_restarts_optimizer=1, **a)
    if w == "gbrt":
        return skopt.gbrt_minimize(
            func, dims, base_estimator=M.make_estimator("gbrt"), **a)
    if w == "base":
        from skopt.optimizer import base_minimize
        return base_minimize(func, dims, M.make_estimator("probe"),
                             acq_optimizer="sampling", **a)
    return skopt.forest_minimize(func, dims,
                                 base_estimator=M.make_estimator(w), **a)


def run_base(st, which, acqs=("EI", "LCB", "PI", "gp_hedge", "EIps")):
    return G.small_space(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "dims": st.just(d), "obj": G.objective_spec(),
        "which": st.sampled_from(list(which)),
        "acq": st.sampled_from(list(acqs)),
        "gen": st.sampled_from(["random", "lhs", "sobol", "grid"]),
        "n_init": st.integers(1, 3), "extra": st.integers(0, 3),
        "seed": G.seeds()})).map(
        lambda c: dict(c, acq="EI") if c["which"] == "dummy" else c)


def strat_result():
    from hypothesis import strategies as st
    files = [("r.pkl", {}), ("r.gz", {}), ("r.pkl", {"compress": 9}),
             ("r.bz2", {}), ("r.xz", {}), ("r.z", {"compress": 3}),
             ("r", {"compress": True}), ("r.lzma", {}),
             ("a b é.pkl", {"protocol": 2})]
    return st.tuples(run_base(st, ["dummy", "base", "et", "rf", "gbrt",
                                   "gp"]), st.sampled_from(files),
                     st.booleans(), st.sampled_from(["plain", "not", "method"]),
                     st.integers(1, 2)).map(
        lambda t: dict(t[0], file=t[1][0], kw=t[1][1], pathlib=t[2],
                       func=t[3], cont=t[4]))


def t_optimizer(case, ctx):
    """An optimizer stored in mid-history goes on as if nothing had been."""
    ops = case["ops"]
    cut = min(case["cut"], len(ops))
    out = [[], []]

    def hook(i):
        def h(name, r, **kw):
            if name in ("asked", "evaluated"):
                out[i].append((name, list(kw["p"])))
            elif name == "askedn":
                out[i].append((name, [list(p) for p in kw["ps"]]))
            elif name in ("told", "ran") and kw["res"] is not None:
                out[i].append((name, float(kw["res"].fun),
                               list(kw["res"].x), len(kw["res"].models),
                               len(kw["res"].x_iters)))
        return h
    a = M.Runner(case, hook(0))
    for op in ops[:cut]:
        a.step(op)
    del out[0][:]
    if case["how"] == "pickle":
        opt2 = pickle.loads(pickle.dumps(a.opt, protocol=case["proto"]))
    elif case["how"] == "deepcopy":
        opt2 = copy.deepcopy(a.opt)
    else:
        import skopt
        with Scratch() as d:
            p = os.path.join(d, "opt.pkl")
            skopt.dump(a.opt, p)
            opt2 = skopt.load(p)
    m2, k = a.m.clone(), a.k
    for op in ops[cut:]:
        a.step(op)
    b = M.Runner(case, hook(1), opt=opt2)
    b.m, b.k = m2, k
    for op in ops[cut:]:
        b.step(op)
    need(same(out[0], out[1]), "a stored optimizer goes on otherwise:\n%r\n%r",
         out[0], out[1])
    ctx.label(case["cfg"]["est"], case["how"])
    ctx.nontrivial(len(out[0]) > 1 and cut > 0)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return G.same_value(a, b)


def strat_optimizer():
    from hypothesis import strategies as st
    cfg = st.one_of(
        M.config(ests=("probe", "dummy", "et", "rf", "gbrt", "gpspy")),
        M.config(ests=("probe", "gpspy"), max_init=2))
    return st.tuples(M.history(cfg, 7), st.integers(0, 6),
                     st.sampled_from(["pickle", "dump", "deepcopy"]),
                     st.sampled_from([2, 4, 5])).map(
        lambda t: dict(t[0], cut=t[1], how=t[2], proto=t[3]))


class Watch:
    """Looks at the checkpoint after each round."""

    def __init__(self, path):
        self.path = str(path)
        self.rounds = 0

    def __call__(self, res):
        import skopt
        back = skopt.load(self.path)
        self.rounds += 1
        same_result(res, back, "the checkpoint of round %d" % self.rounds)


class Arm:
    """Makes storing fail from some round on."""

    def __init__(self, at, how):
        self.at, self.how, self.n = at, how, 0

    def __call__(self, res):
        self.n += 1
        if self.n >= self.at:
            BAD[0] = self.how


def t_checkpoint(case, ctx):
    import skopt
    from skopt.callbacks import CheckpointSaver
    specs = case["dims"]
    ps = "ps" in case["acq"]
    obj = Objective(specs, case["obj"], ps)
    n_calls = case["n_init"] + case["extra"]
    fault, at = case["fault"], min(case["at"], n_calls)
    BAD[0] = None
    with Scratch() as d:
        p = path_of(case, d)
        saver = CheckpointSaver(p if case["pathlib"] else str(p),
                                **case["kw"])
        watch = Watch(p)
        cbs = [saver, watch]
        if fault == "objective":
            obj.fail_at = at
        elif fault in ("store", "crash"):
            # storing fails in the round after `at`
            cbs.append(Arm(at, {"store": "raise", "crash": "exit"}[fault]))
        saved = at

        def run():
            return minimize(case, obj, callback=cbs)
        if fault == "crash":
            pid = os.fork()
            if pid == 0:
                try:
                    with open(os.devnull, "w") as f:
                        os.dup2(f.fileno(), 2)
                    run()
                    os._exit(0)
                except BaseException:
                    import traceback
                    with open(os.path.join(d, "error"), "w") as f:
                        traceback.print_exc(file=f)
                    os._exit(1)
            code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            err = os.path.join(d, "error")
            if os.path.exists(err):
                need(False, "a run with checkpoints failed: %s",
                     open(err).read())
            need(code == (7 if at < n_calls else 0), "exit code %r", code)
        else:
            try:
                res = run()
            except Interrupt:
                need(fault != "none" and at < n_calls, "interrupted")
            else:
                need(fault == "none" or at >= n_calls, "not interrupted")
                saved = n_calls
            finally:
                BAD[0] = None
            need(watch.rounds == saved, "%d rounds seen, %d expected",
                 watch.rounds, saved)
        if at >= n_calls:
            saved = n_calls
        # what is left is the last state that was saved, and nothing else
        left = sorted(set(os.listdir(d)) - {os.path.basename(str(p))})
        need(fault == "crash" or not left, "files left over: %r", left)
        if saved == 0:
            need(not os.path.exists(p), "a checkpoint before the first round")
            return
        try:
            back = skopt.load(p)
        except Exception as e:
            need(False, "after a failure while saving round %d, the "
                 "checkpoint of round %d is gone: %r", saved + 1, saved, e)
        need(len(back.x_iters) == saved, "the checkpoint has %d points, %d "
             "rounds were saved", len(back.x_iters), saved)
        if fault != "crash":
            need(G.close_points(back.x_iters, obj.seen[:saved]),
                 "the points of the checkpoint %r, evaluated %r",
                 back.x_iters, obj.seen)
        # and the run can be gone on with
        if not ps:
            obj2 = Objective(specs, case["obj"])
            r2 = minimize(dict(case, n_init=1, extra=0), obj2,
                          x0=back.x_iters, y0=back.func_vals)
            need(G.close_points(r2.x_iters[:saved], back.x_iters) and
                 len(r2.x_iters) == saved + 1, "continued")
    ctx.label(fault, case["which"])
    ctx.nontrivial(saved > 1 and (fault == "none" or at < n_calls))


def strat_checkpoint():
    from hypothesis import strategies as st
    files = [("c.pkl", {}), ("c.gz", {}), ("c.pkl", {"compress": 9}),
             ("c", {}), ("c.pkl", {"compress": 0})]
    return st.tuples(
        run_base(st, ["dummy", "base", "base", "et", "gp"]),
        st.sampled_from(files), st.booleans(),
        st.sampled_from(["none", "objective", "store", "crash"]),
        st.integers(0, 5)).map(
        lambda t: dict(t[0], file=t[1][0], kw=t[1][1], pathlib=t[2],
                       fault=t[3], at=max(1, t[4]) if t[3] in
                       ("store", "crash") else t[4]))


PROP = Prop("C20", [
    Sub("result", strat_result, t_result, 400, 8000, 4,
        "runs of the minimize functions stored in files of all kinds and "
        "continued; non-trivial: a model and three points"),
    Sub("optimizer", strat_optimizer, t_optimizer, 500, 10000, 4,
        "histories cut in two by storing the optimizer; non-trivial: two "
        "observations after the cut, some operation before"),
    Sub("checkpoint", strat_checkpoint, t_checkpoint, 500, 10000, 4,
        "runs with checkpoints, interrupted by the objective, by an error in "
        "saving or by the death of the process while saving; non-trivial: "
        "interrupted after two rounds, or complete"),
])
