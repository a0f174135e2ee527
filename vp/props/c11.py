"""C11 the same seed gives the same run, and nothing else decides it."""
import random

import numpy as np

from .. import gens as G
from .. import opt_model as M
from ..core import Prop, Sub, need


def trace(case, salt):
    """Everything an optimizer says over a history, as plain data."""
    np.random.seed(salt)
    random.seed(salt)
    out = []

    def hook(name, r, **kw):
        if name in ("asked", "evaluated"):
            out.append((name, list(kw["p"])))
        elif name == "askedn":
            out.append((name, [list(p) for p in kw["ps"]]))
        elif name in ("told", "ran") and kw["res"] is not None:
            out.append((name, float(kw["res"].fun), list(kw["res"].x),
                        len(kw["res"].models)))
        elif name == "copied":
            c = kw["c"]
            if c.models or len(c.Xi) < case["cfg"]["n_init"]:
                out.append((name, list(c.ask())))
        if name == "told" and case["noise"]:
            # something else in the program draws from the global generators
            np.random.rand(salt % 7 + 1)
            random.random()
    r = M.Runner(case, hook).run()
    return out, r


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return G.same_value(a, b)


def t_history(case, ctx):
    a, ra = trace(case, 11)
    state = np.random.get_state()
    b, rb = trace(case, 2718)
    need(same(a, b), "the same seed and history, two runs:\n%r\n%r", a, b)
    ctx.label(case["cfg"]["est"])
    ctx.nontrivial(len(a) >= 3 and len(ra.m.X) > case["cfg"]["n_init"])


def strat_history():
    from hypothesis import strategies as st
    cfg = st.one_of(
        M.config(ests=("probe", "dummy", "et", "rf", "gbrt", "gpspy")),
        M.config(ests=("GP", "ET", "RF", "GBRT"), max_init=2,
                 n_points=(5, 20)).map(fewer))

    @st.composite
    def build(draw):
        c = draw(M.history(cfg, 6))
        if c["cfg"]["est"] in ("GP", "ET", "RF", "GBRT"):
            c["ops"] = [o for o in c["ops"] if o[0] != "askn" or o[1] < 3][:4]
            if c["cfg"]["est"] == "GP" and any(
                    s["k"] != "cat" for s in c["cfg"]["dims"]):
                c["cfg"]["acqopt"] = draw(st.sampled_from(["auto",
                                                           "sampling"]))
        c["noise"] = draw(st.booleans())
        return c
    return build()


def fewer(c):
    c = dict(c)
    c["n_init"] = max(1, c["n_init"])
    return c


def run_minimize(case, salt, seed):
    import skopt
    np.random.seed(salt)
    specs = case["dims"]
    f = G.objective(specs, case["obj"])
    seen = []

    def func(p):
        seen.append(list(p))
        if case["noise"]:
            np.random.rand(salt % 5 + 1)
        return f(p)
    kw = dict(n_calls=case["n_init"] + case["extra"],
              n_initial_points=case["n_init"],
              initial_point_generator=case["gen"], random_state=seed)
    w = case["which"]
    if w == "dummy":
        kw.pop("n_initial_points")
        res = skopt.dummy_minimize(func, G.make_dims(specs), **kw)
    elif w == "forest":
        res = skopt.forest_minimize(func, G.make_dims(specs), n_points=40,
                                    base_estimator=case["base"],
                                    acq_func=case["acq"], **kw)
    elif w == "gbrt":
        res = skopt.gbrt_minimize(func, G.make_dims(specs), n_points=40,
                                  acq_func=case["acq"], **kw)
    else:
        res = skopt.gp_minimize(func, G.make_dims(specs), n_points=40,
                                n_restarts_optimizer=2,
                                acq_func=case["acq"], **kw)
    return seen, res


def t_minimize(case, ctx):
    s = case["seed"]
    a, ra = run_minimize(case, 5, s)
    b, rb = run_minimize(case, 77, s)
    need(G.close_points(a, b), "the same seed, two runs of %s_minimize:\n"
         "%r\n%r", case["which"], a, b)
    need(G.close_value(float(ra.fun), float(rb.fun)) and G.close_point(ra.x, rb.x),
         "two results of one seed")
    c, rc = run_minimize(case, 5, np.random.RandomState(s))
    d, rd = run_minimize(case, 78, np.random.RandomState(s))
    need(G.close_points(c, d), "equal RandomStates, two runs of %s_minimize:\n"
         "%r\n%r", case["which"], c, d)
    ctx.label(case["which"])
    ctx.nontrivial(case["extra"] > 0)


def strat_minimize():
    from hypothesis import strategies as st
    return G.small_space(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "dims": st.just(d), "obj": G.objective_spec(),
        "which": st.sampled_from(["dummy", "forest", "gbrt", "gp"]),
        "base": st.sampled_from(["ET", "RF"]),
        "acq": st.sampled_from(["EI", "LCB", "PI", "gp_hedge"]),
        "gen": st.sampled_from(["random", "lhs", "sobol", "halton",
                                "hammersly", "grid"]),
        "n_init": st.integers(1, 4), "extra": st.integers(1, 2),
        "seed": G.seeds(), "noise": st.booleans()}))


PROP = Prop("C11", [
    Sub("history", strat_history, t_history, 400, shards=8,
        rule="a history run twice with the same seed and different global "
        "random states; non-trivial: a surrogate was fitted"),
    Sub("minimize", strat_minimize, t_minimize, 90, shards=8,
        rule="a minimize function run four times; non-trivial: iterations "
        "after the initial design"),
])
