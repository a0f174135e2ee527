"""C13 parallel suggestions and copies: lies are told to a copy, the optimizer
itself is not disturbed."""
import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


def lie_of(strategy, vals):
    return {"cl_min": np.min, "cl_mean": np.mean, "cl_max": np.max}[
        strategy](vals)


def check_lies(cfg, r, ps, n, strategy, log):
    """Every model fitted for ask(n) saw the history and correct lies."""
    m = r.m
    per_second = "ps" in cfg["acq"]
    fits = [e for e in log if e[0] == "fit"]
    rows = r.opt.space.transform(ps)
    h = len(m.X)
    seen = 0
    for k, (_, _, X, y) in enumerate(fits):
        col = k % 2 if per_second else None
        hist = [t[col] if col is not None else t for t in m.y]
        need(len(y) >= h and np.allclose(y[:h], hist, rtol=1e-12, atol=0),
             "ask(%d): a model was fitted on values %r, the history is %r",
             n, y.tolist(), hist)
        lies = y[h:]
        need(len(lies) <= n, "ask(%d) told %d lies", n, len(lies))
        if h:
            want = lie_of(strategy, hist)
            need(np.allclose(lies, want, rtol=1e-9,
                             atol=1e-9 * np.abs(hist).max()),
                 "%s lies are %r, expected %r for the history %r", strategy,
                 lies.tolist(), want, hist)
        need(np.allclose(X[h:], rows[:len(lies)], rtol=1e-9, atol=1e-9),
             "lies were told about other points than those given out")
        seen = max(seen, len(lies))
    return len(fits), seen


def t_history(case, ctx):
    cfg = case["cfg"]
    specs = cfg["dims"]
    n = {"lies": 0, "copy": 0, "cached": 0}
    state = {"fresh": {}}

    def snapshot(opt):
        return (list(opt.Xi), list(opt.yi), list(opt.models),
                np.array(getattr(opt, "gains_", 0.0)))

    def unchanged(opt, s, what):
        need(G.same_points(opt.Xi, s[0]), "%s changed the points", what)
        need(len(opt.yi) == len(s[1]) and
             all(np.array_equal(a, b) for a, b in zip(opt.yi, s[1])),
             "%s changed the values", what)
        need(len(opt.models) == len(s[2]) and
             all(a is b for a, b in zip(opt.models, s[2])),
             "%s changed the models", what)
        need(np.array_equal(getattr(opt, "gains_", 0.0), s[3]),
             "%s changed the gains of the acquisition functions: %r, %r",
             what, getattr(opt, "gains_", 0.0), s[3])

    def hook(name, r, **kw):
        m, opt = r.m, r.opt
        if name == "askedn":
            M.check_state(opt, m, "after ask(n)")
            ps = [list(p) for p in kw["ps"]]
            need(len(ps) == kw["n"], "ask(%d) gave %d", kw["n"], len(ps))
            for p in ps:
                M.check_member(specs, r.space, p)
            if cfg["est"] == "probe":
                key = (kw["n"], kw["strategy"])
                nf, lies = check_lies(cfg, r, ps, kw["n"], kw["strategy"],
                                      kw["log"])
                n["lies"] += lies
                if key != state["fresh"].get("key"):
                    # a new question: the models know the whole history
                    if m.remaining <= 0 and m.X:
                        need(nf > 0, "ask(%d) after a tell fitted nothing",
                             kw["n"])
                    if m.remaining <= 0 and m.X and kw["n"] > 1:
                        need(lies >= kw["n"] - 1, "ask(%d) told %d lies",
                             kw["n"], lies)
            state["fresh"] = {"key": (kw["n"], kw["strategy"])}
            again = opt.ask(kw["n"], kw["strategy"])
            need(G.same_points(ps, again), "ask(%d) twice: %r, %r", kw["n"],
                 ps, again)
            n["cached"] += 1
        elif name in ("told", "ran", "updated"):
            state["fresh"] = {}
        elif name == "copied":
            c = kw["c"]
            n["copy"] += 1
            M.check_state(opt, m, "after copy")
            need(G.same_points(c.Xi, m.X), "the copy has points %r", c.Xi)
            need(all(M.same_y(cfg, a, b) for a, b in zip(c.yi, m.y)) and
                 len(c.yi) == len(m.y), "the copy has values %r", c.yi)
            need(c.acq_func == opt.acq_func and
                 c.acq_optimizer == opt.acq_optimizer and
                 c.max_model_queue_size == opt.max_model_queue_size and
                 c.n_points == opt.n_points,
                 "the copy has other settings")
            need(c.space == opt.space, "the copy has another space")
            if hasattr(opt, "gains_"):
                need(np.allclose(c.gains_, opt.gains_),
                     "the copy has gains %r, the optimizer %r", c.gains_,
                     opt.gains_)
            if m.remaining <= 0 and cfg["est"] != "dummy" and m.X:
                p = c.ask()
                M.check_member(specs, r.space, p)
                if cfg["est"] == "probe":
                    fits = [e for e in kw["log"] if e[0] == "fit"]
                    need(fits and len(fits[-1][2]) == len(m.X),
                         "the copy's model was not trained on the history")
                    M.check_suggestion(cfg, c, m, kw["log"], cfg["acqk"],
                                       "copy")
            elif cfg["gen"] != "random" and m.remaining > 0:
                need(G.same_point(c.ask(), opt.ask()),
                     "the copy is at another point of the initial design")
            # telling one does not tell the other
            s = snapshot(opt)
            before = list(opt.ask()) if r.can_ask() and \
                not m.random_phase else None
            q = G.decode_point(specs, [0.25] * len(specs))
            c.tell(q, M.yval(cfg, r.f, q))
            unchanged(opt, s, "telling the copy")
            need(len(c.Xi) == len(m.X) + 1, "the copy was told, has %d "
                 "points", len(c.Xi))
            if before is not None:
                need(G.same_point(opt.ask(), before), "telling the copy "
                     "changed the suggestion")
            state["copy"] = (c, snapshot(c), c.ask() if c.models else None)
        if name == "after" and "copy" in state:
            c, s, nxt = state["copy"]
            unchanged(c, s, "%s on the original" % kw["op"][0])
            if nxt is not None:
                need(G.same_point(c.ask(), nxt), "%s on the original changed "
                     "the suggestion of its copy", kw["op"][0])

    class R(M.Runner):
        def step(self, op):
            before = list(self.opt.ask()) if op[0] in ("askn", "copy") and \
                self.can_ask() and not self.m.random_phase else None
            s = snapshot(self.opt)
            super().step(op)
            if op[0] in ("askn", "copy"):
                unchanged(self.opt, s, op[0])
                if before is not None:
                    need(G.same_point(self.opt.ask(), before),
                         "%s changed the next suggestion", op[0])
    R(case, hook).run()
    for k, v in n.items():
        if v:
            ctx.label(k)
    ctx.nontrivial(n["lies"] > 0 or n["copy"] > 0)


def strat_history():
    from hypothesis import strategies as st
    cfg = M.config(ests=("probe", "probe", "probe", "dummy", "et"),
                   n_points=(5, 20))
    return st.one_of(
        M.history(cfg, 7, weights={"tellask": 4, "tell": 2, "batch": 2,
                                   "askn": 5, "copy": 3, "update": 1,
                                   "nofit": 1, "run": 1}),
        M.history(cfg.map(no_init), 5, weights={
            "tell": 2, "tellask": 2, "askn": 4, "copy": 2}).map(told_first),
        M.history(cfg.map(no_init), 6, weights={
            "tell": 1, "tellask": 1, "askn": 4, "nofit": 2, "batch": 1,
            "update": 1}).map(same_question).map(told_first))


def same_question(case):
    """All ask(n) of the history ask for the same."""
    first = [op for op in case["ops"] if op[0] == "askn"]
    return dict(case, ops=[first[0] if op[0] == "askn" else op
                           for op in case["ops"]])


def no_init(c):
    return dict(c, n_init=1)


def told_first(case):
    n = len(case["cfg"]["dims"])
    case = dict(case)
    case["ops"] = [["batch", [[0.1] * n, [0.7] * n], False]] + case["ops"]
    return case


def t_stateful_design(case, ctx):
    """ask(n) and copies with a generator that keeps a state (Sobol)."""
    from skopt import Optimizer
    from skopt.sampler import Sobol
    specs = case["dims"]
    n = case["n"]
    opt = Optimizer(G.make_dims(specs), "dummy", n_initial_points=n,
                    initial_point_generator=Sobol(
                        skip=case["skip"], randomize=case["rand"]),
                    random_state=case["seed"])
    ps = opt.ask(n)
    need(len(ps) == n, "ask(%d)", n)
    f = G.objective(specs, case["obj"])
    for k, p in enumerate(ps):
        need(G.same_point(opt.ask(), p), "point %d of the design: ask() "
             "%r, ask(n) %r", k, opt.ask(), p)
        c = opt.copy()
        need(G.same_point(c.ask(), p), "the copy is at %r of the design, the "
             "original at %r", c.ask(), p)
        opt.tell(p, f(p))
    ctx.nontrivial(n > 1)


def strat_stateful():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dims": G.small_space(1, 3), "obj": G.objective_spec(),
        "n": st.integers(1, 8), "skip": st.sampled_from([0, 8, 16]),
        "rand": st.booleans(), "seed": G.seeds()})


PROP = Prop("C13", [
    Sub("history", strat_history, t_history, 900, shards=8,
        rule="histories with ask(n), copies and tells to both; non-trivial: "
        "a lie was told or a copy made"),
    Sub("design", strat_stateful, t_stateful_design, 120, shards=2,
        rule="a Sobol design given out by ask(n), ask and copies; "
        "non-trivial: two points"),
])
