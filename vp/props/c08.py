"""C08 every suggestion is a point of the space, and asking changes nothing."""
import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


class RecGen:
    """A user-supplied initial point generator with a known design."""

    @staticmethod
    def make(points, calls):
        from skopt.sampler import InitialPointGenerator

        class Rec(InitialPointGenerator):
            def generate(self, dimensions, n_samples, random_state=None):
                calls.append((len(dimensions), n_samples))
                return [list(p) for p in points[:n_samples]]
        return Rec()


def t_history(case, ctx):
    cfg = case["cfg"]
    specs = cfg["dims"]
    design = None
    opt = None
    if case["design"] is not None:
        design = [G.decode_point(specs, u) for u in case["design"]]
        design = (design * 10)[:cfg["n_init"]]
        calls = []
        opt = M.make_optimizer(
            cfg, initial_point_generator=RecGen.make(design, calls))
        need(calls and calls[0] == (len(specs), cfg["n_init"]),
             "the generator was asked %r, not for n_initial_points=%d points",
             calls, cfg["n_init"])
        ctx.label("design given")
    seen = {"model": 0, "design": 0, "many": 0}

    def hook(name, r, **kw):
        m = r.m
        if name in ("asked", "evaluated"):
            p = kw["p"]
            M.check_member(specs, r.space, p)
            if m.random_phase:
                if design is not None and m.remaining > 0:
                    want = design[cfg["n_init"] - m.remaining]
                    need(G.same_point(p, want), "after %d tells the initial "
                         "design gives %r, asked %r", len(m.X), want, p)
                    seen["design"] += 1
                return
            seen["model"] += 1
        elif name == "askedn":
            ps = kw["ps"]
            need(len(ps) == kw["n"], "ask(%d) gave %d points", kw["n"],
                 len(ps))
            for p in ps:
                M.check_member(specs, r.space, p)
            if design is not None and m.remaining > 0:
                k = cfg["n_init"] - m.remaining
                want = design[k:k + kw["n"]]
                need(G.same_points(ps[:len(want)], want),
                     "ask(n) gave %r, the design goes on with %r", ps, want)
            seen["many"] += 1
        elif name == "after":
            # asking twice gives the same suggestion and no tell is needed
            if r.can_ask() and not m.random_phase:
                a = list(r.opt.ask())
                b = list(r.opt.ask())
                need(G.same_point(a, b), "two asks in a row: %r, %r", a, b)
            if r.m.X:
                need(len(r.opt.Xi) == len(m.X), "asking recorded a point")
    M.Runner(case, hook, opt=opt).run()
    for k, v in seen.items():
        if v:
            ctx.label(k)
    ctx.nontrivial(seen["model"] > 0 and (seen["many"] > 0 or
                                          seen["model"] > 1))


def strat_history():
    from hypothesis import strategies as st
    base = M.history(M.config(ests=("dummy", "probe", "probe", "gpspy", "et",
                                    "gbrt"), max_init=9), 7, max_batch=7)

    @st.composite
    def build(draw):
        c = draw(base)
        n = len(c["cfg"]["dims"])
        c["design"] = draw(st.one_of(st.none(), st.lists(
            G.fracs(n), min_size=1, max_size=9))) \
            if c["cfg"]["gen"] == "random" else None
        return c
    return build()


def t_engine(case, ctx):
    """The shipped surrogates on awkward spaces."""
    cfg = case["cfg"]
    specs = cfg["dims"]
    sp = G.make_space(specs)
    opt = M.make_optimizer(cfg)
    f = G.objective(specs, case["obj"])
    for k in range(case["iters"]):
        p = opt.ask()
        M.check_member(specs, sp, p)
        if k >= cfg["n_init"]:
            need(G.same_point(p, opt.ask()), "two asks differ")
            ctx.nontrivial()
        opt.tell(p, M.yval(cfg, f, p, k))
    if case["many"]:
        ps = opt.ask(case["many"])
        need(len(ps) == case["many"], "ask(%d) gave %d points", case["many"],
             len(ps))
        for p in ps:
            M.check_member(specs, sp, p)
    ctx.label("est:" + cfg["est"], cfg["acq"], cfg["acqopt"])


def strat_engine():
    from hypothesis import strategies as st
    dims = G.space_spec(
        1, 3, real_kw=dict(), int_kw=dict(),
        cat_kw=dict(kinds=("str", "int", "float", "bool", "mixed",
                            "tuple", "object"),
                    transforms=(None, "onehot", "label", "normalize"))
        ).map(G.plain_first)

    @st.composite
    def build(draw):
        est = draw(st.sampled_from(["GP", "gpspy", "gpspy", "et", "rf",
                                    "gbrt"]))
        cfg = draw(M.config(ests=(est,), dims=dims, max_init=3,
                            n_points=(20, 60)))
        cfg["n_init"] = max(1, cfg["n_init"])
        if est in ("GP", "gpspy") and not all(
                s["k"] == "cat" for s in cfg["dims"]):
            cfg["acqopt"] = draw(st.sampled_from(["auto", "lbfgs",
                                                  "sampling"]))
        return {"cfg": cfg, "obj": draw(G.objective_spec()),
                "iters": cfg["n_init"] + draw(st.integers(1, 3)),
                "many": draw(st.sampled_from([0, 0, 2, 3]))}
    return build()


PROP = Prop("C08", [
    Sub("history", strat_history, t_history, quick=700, shards=8,
        rule="an optimizer (estimator, acquisition, initial design, queue) "
        "and a sequence of asks, tells, batches, copies; non-trivial: a "
        "surrogate's suggestions were checked at least twice"),
    Sub("engine", strat_engine, t_engine, quick=160, shards=8,
        rule="shipped surrogates over spaces of all kinds of dimensions; "
        "non-trivial: a suggestion of a fitted surrogate was checked"),
])
