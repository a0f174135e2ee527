"""C03 random sampling: count, membership, seeding and the declared prior."""
import math

import numpy as np

from .. import gens as G
from ..core import Prop, Sub, need
from .c01 import NUM, type_ok


def t_rvs(case, ctx):
    specs = case["dims"]
    space = G.make_space(specs)
    cur = [NUM[s["k"]][case["tr"][i % len(case["tr"])] % len(NUM[s["k"]])]
           for i, s in enumerate(specs)]
    space.set_transformer(list(cur))
    n, seed = case["n"], case["seed"]
    a = space.rvs(n_samples=n, random_state=seed)
    need(len(a) == n, "asked %d samples, got %d", n, len(a))
    for p in a:
        need(len(p) == len(specs), "sample of length %d", len(p))
        need(p in space, "sample %r not in space", p)
        for s, v in zip(specs, p):
            need(G.member(s, v), "%r is not a value of %r", v, s)
            need(type_ok(s, v), "%r has type %s, declared %r", v,
                 type(v).__name__, s.get("dtype"))
    need(space.get_transformer() == cur, "rvs changed the transformers")
    # seeded: an int, or a RandomState in the same state, give the same draw
    # and the global generator is not involved
    state = np.random.get_state()[1].copy()
    b = space.rvs(n_samples=n, random_state=seed)
    c = space.rvs(n_samples=n, random_state=np.random.RandomState(seed))
    need(np.array_equal(state, np.random.get_state()[1]),
         "a seeded draw consumed the global random state")
    need(G.same_points(a, b), "same seed, different samples")
    need(G.same_points(a, c), "RandomState(seed) differs from seed")
    # a RandomState passed in advances: further draws are new
    rng = np.random.RandomState(seed)
    first = space.rvs(n_samples=30, random_state=rng)
    second = space.rvs(n_samples=30, random_state=rng)
    if any(s["k"] == "real" and s["dtype"] == "float" for s in specs):
        need(not G.same_points(first, second),
             "two draws from one RandomState are equal")
        need(len({str(p) for p in first}) > 15, "samples repeat")
    # two real dimensions are sampled independently, not in lockstep
    reals = [j for j, s in enumerate(specs) if s["k"] == "real"
             and s["dtype"] == "float"]
    if len(reals) > 1:
        i, j = reals[:2]
        ui = [G.unit(specs[i], p[i]) for p in first]
        uj = [G.unit(specs[j], p[j]) for p in first]
        need(not np.allclose(ui, uj, atol=1e-6),
             "dimensions %d and %d are sampled in lockstep", i, j)
    # single dimension, one at a time
    for s, dim in zip(specs, space.dimensions):
        xs = dim.rvs(n_samples=3, random_state=seed)
        need(len(xs) == 3, "dimension gave %d of 3 samples", len(xs))
        for v in xs:
            need(v in dim and G.member(s, v), "%r not a value of %r", v, s)
        ys = dim.rvs(n_samples=3, random_state=seed)
        need(G.same_point(list(xs), list(ys)), "dimension rvs not seeded")
    ctx.label("dims:%d" % len(specs), *["tr:" + t for t in cur])
    ctx.nontrivial(n > 1 and len(specs) > 1)


def strat_rvs():
    from hypothesis import strategies as st
    sp = G.space_spec(
        1, 4, big=True, real_kw=dict(dtypes=G.REAL_DTYPES),
        int_kw=dict(dtypes=G.INT_DTYPES),
        cat_kw=dict(kinds=("str", "int", "float", "bool", "mixed",
                            "tuple", "object")))
    return st.fixed_dictionaries({
        "dims": sp, "tr": st.lists(st.integers(0, 2), min_size=1, max_size=4),
        "n": st.one_of(st.integers(1, 12), st.sampled_from([50, 200])),
        "seed": G.seeds()})


N = 4000
EPS = math.sqrt(math.log(2e12) / (2 * N))     # DKW, false alarm 1e-12


def t_prior(case, ctx):
    s = case["dim"]
    dim = G.make_dim(s)
    opts = {"real": ["identity", "normalize"],
            "int": ["identity", "normalize"],
            "cat": ["onehot", "label", "normalize", "identity", "string"]}
    t = opts[s["k"]][case["tr"] % len(opts[s["k"]])]
    if t == "string" and len({type(c) for c in G.cats_of(s)}) > 1:
        t = "onehot"
    dim.set_transformer(t)
    ctx.label(s["k"], "tr:" + t, "prior:" + (
        str(s["prior"]) if s["k"] != "cat" else str(s["prior"] is not None)))
    xs = list(dim.rvs(n_samples=N, random_state=case["seed"]))
    need(len(xs) == N, "asked %d samples, got %d", N, len(xs))
    if s["k"] == "cat":
        cats = G.cats_of(s)
        p = s["prior"] or [1.0 / len(cats)] * len(cats)
        for c, pc in zip(cats, p):
            f = sum(G.same_value(x, c) for x in xs) / N
            need(abs(f - pc) <= EPS,
                 "category %r has prior %.4f, drawn %.4f of the time "
                 "(transform %s)", c, pc, f, t)
        ctx.nontrivial(len(cats) > 1)
        return
    ctx.nontrivial()
    lo, hi = s["low"], s["high"]
    if s["k"] == "real":
        us = np.sort([G.unit(s, x) for x in xs])
        grid = np.arange(N)
        d = max(np.max((grid + 1) / N - us), np.max(us - grid / N))
        need(d <= EPS, "distance %.4f from the %s prior (transform %s)", d,
             s["prior"], t)
        return
    xs = np.sort(np.asarray(xs, dtype=float))

    def cdf(v):
        """log-uniform mass below v, clipped to the range"""
        v = min(max(v, lo), hi)
        return (math.log(v) - math.log(lo)) / (math.log(hi) - math.log(lo))
    pts = sorted(set([lo, hi - 1, (lo + hi) // 2, lo + (hi - lo) // 4,
                      lo + 1] + [int(G.decode(s, u))
                                 for u in (0.05, 0.1, .25, .5, .75, .9)]))
    for k in pts:
        if not lo <= k < hi:
            continue
        f = np.searchsorted(xs, k, side="right") / N
        if s["prior"] == "uniform":
            ref = (k - lo + 1) / (hi - lo + 1)
            need(abs(f - ref) <= EPS,
                 "P(X <= %d) is %.4f, uniform prior on [%d, %d] says %.4f "
                 "(transform %s)", k, f, lo, hi, ref, t)
        else:
            need(cdf(k) - EPS <= f <= cdf(k + 1) + EPS,
                 "P(X <= %d) is %.4f, log-uniform prior on [%d, %d] puts it "
                 "in [%.4f, %.4f] (transform %s)", k, f, lo, hi, cdf(k),
                 cdf(k + 1), t)


def strat_prior():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dim": st.one_of(G.real_spec(), G.int_spec(),
                         G.cat_spec(kinds=("str", "int", "float", "bool", "mixed",
                            "tuple", "object"))),
        "tr": st.integers(0, 9), "seed": G.seeds()})


PROP = Prop("C03", [
    Sub("draw", strat_rvs, t_rvs, 1000, 30000, 4,
        "a space under generated transforms, a sample size and a seed; "
        "non-trivial: two dimensions and two samples"),
    Sub("prior", strat_prior, t_prior, 320, 8000, 4,
        "a dimension under a generated transform, 4000 draws compared with "
        "its prior (DKW bound, p=1e-12); non-trivial: more than one value"),
])
