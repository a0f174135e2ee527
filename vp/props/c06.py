"""C06 initial designs: n points of the space, reproducible, no side effect."""
import numpy as np

from .. import gens as G
from ..core import Prop, Sub, need
from .c01 import type_ok


def make_gen(g):
    from skopt import sampler as S
    k = g["k"]
    if k == "lhs":
        return S.Lhs(lhs_type=g["type"], criterion=g["crit"],
                     iterations=g["it"])
    if k == "sobol":
        return S.Sobol(skip=g["skip"], randomize=g["rand"])
    if k == "grid":
        return S.Grid(border=g["border"], use_full_layout=g["full"],
                      append_border=g["append"])
    cls = S.Halton if k == "halton" else S.Hammersly
    kw = dict(min_skip=g["lo"], max_skip=g["hi"])
    if g.get("primes"):
        kw["primes"] = tuple(g["primes"])
    return cls(**kw)


def by_name(g):
    """The same generator by its name and options."""
    from skopt.utils import cook_initial_point_generator
    k = g["k"]
    if k == "lhs":
        kw = dict(lhs_type=g["type"], criterion=g["crit"], iterations=g["it"])
    elif k == "sobol":
        kw = dict(skip=g["skip"], randomize=g["rand"])
    elif k == "grid":
        kw = dict(border=g["border"], use_full_layout=g["full"],
                  append_border=g["append"])
    else:
        kw = dict(min_skip=g["lo"], max_skip=g["hi"])
        if g.get("primes"):
            kw["primes"] = tuple(g["primes"])
    return cook_initial_point_generator(k, **kw)


def gen_spec():
    from hypothesis import strategies as st
    lhs = st.fixed_dictionaries({
        "k": st.just("lhs"), "type": st.sampled_from(["classic", "centered"]),
        "crit": st.sampled_from([None, "maximin", "ratio", "correlation"]),
        "it": st.integers(0, 12)})
    sobol = st.fixed_dictionaries({
        "k": st.just("sobol"), "skip": st.sampled_from([0, 64, 128]),
        "rand": st.booleans()})
    halt = st.fixed_dictionaries({
        "k": st.sampled_from(["halton", "hammersly"]),
        "lo": st.integers(-1, 6), "hi": st.integers(-1, 20),
        "primes": st.one_of(st.none(), st.permutations([2, 3, 5, 7, 11]))})
    halt = halt.filter(lambda g: g["lo"] <= g["hi"] or
                       (g["lo"] < 0) != (g["hi"] < 0))
    grid = st.fixed_dictionaries({
        "k": st.just("grid"),
        "border": st.sampled_from(["include", "exclude", "only"]),
        "full": st.booleans(),
        "append": st.sampled_from(["include", "exclude", "only"])})
    return st.one_of(lhs, sobol, halt, grid)


def t_design(case, ctx):
    specs, g, n, seed = case["dims"], case["gen"], case["n"], case["seed"]
    if g["k"] == "sobol" and g["skip"]:
        n = min(n, g["skip"])
    dims = G.make_dims(specs)
    before = [d.transform_ for d in dims]
    gen = make_gen(g)
    state = np.random.get_state()[1].copy()
    X = gen.generate(dims, n, random_state=seed)
    need(np.array_equal(state, np.random.get_state()[1]),
         "a seeded design consumed the global random state")
    ctx.label("gen:" + g["k"])
    check(specs, dims, before, X, n)
    # the same seed gives the same design, a RandomState(seed) too
    Y = make_gen(g).generate(G.make_dims(specs), n, random_state=seed)
    need(G.close_points(X, Y), "same seed, different designs")
    Z = make_gen(g).generate(G.make_dims(specs), n,
                             random_state=np.random.RandomState(seed))
    need(G.close_points(X, Z), "RandomState(seed) differs from seed")
    W = by_name(g).generate(G.make_dims(specs), n, random_state=seed)
    need(G.close_points(X, W), "%s by name and options gives another design",
         g["k"])
    # a generator object can be used again, for another space as well
    if not (g["k"] == "sobol" and g["skip"]):
        A = gen.generate(dims, n, random_state=seed)
        need(G.close_points(X, A), "second call of the same generator differs")
        d2 = dims[:1] + dims
        B = gen.generate(d2[:4], 3, random_state=seed)
        need(len(B) == 3 and all(len(p) == len(d2[:4]) for p in B),
             "second use with other dimensions")
        C = gen.generate(dims, n, random_state=seed)
        need(G.close_points(X, C), "a use with other dimensions left traces")
    check(specs, dims, before, X, n)
    ctx.nontrivial(n > 1 and len(specs) > 1)


def t_refuse(case, ctx):
    """Refused options leave no trace either."""
    from skopt import sampler as S
    specs, n = case["dims"], case["n"]
    dims = G.make_dims(specs)
    before = [d.transform_ for d in dims]
    state = np.random.get_state()[1].copy()
    how, word = case["how"], case["word"]
    try:
        if how == "lhs_type":
            gen = S.Lhs(lhs_type=word)
        elif how == "criterion":
            gen = S.Lhs(criterion=word, iterations=3)
        elif how == "border":
            gen = S.Grid(border=word)
        elif how == "append":
            gen, n = S.Grid(append_border=word), 3
            if len(dims) == 1:
                dims, before = dims * 2, before * 2
        else:
            gen, n = S.Sobol(skip=64), 64 + n
        X = gen.generate(dims, n, random_state=case["seed"])
    except ValueError:
        pass
    else:
        need(False, "%s=%r is accepted: %r", how, word, X)
    need([d.transform_ for d in dims] == before, "a refused %s changed the "
         "transformers from %r to %r", how, before,
         [d.transform_ for d in dims])
    need(np.array_equal(state, np.random.get_state()[1]),
         "the global random state is consumed")
    ctx.label("refuse:" + how)
    ctx.nontrivial()


def strat_refuse():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dims": G.space_spec(1, 3),
        "how": st.sampled_from(["lhs_type", "criterion", "border", "append",
                                "skip"]),
        "word": st.sampled_from(["", "classical", "Centered", "all", 3]),
        "n": st.integers(2, 12), "seed": G.seeds()})


def check(specs, dims, before, X, n):
    need(len(X) == n, "asked %d points, got %d", n, len(X))
    for p in X:
        need(len(p) == len(specs), "point of length %d", len(p))
        for s, dim, v in zip(specs, dims, p):
            need(v in dim and G.member(s, v), "%r is not a value of %r", v, s)
            need(type_ok(s, v), "%r has type %s, declared %r", v,
                 type(v).__name__, s.get("dtype"))
    need([d.transform_ for d in dims] == before,
         "generate changed the transformers from %r to %r", before,
         [d.transform_ for d in dims])
    # the warping really works as declared, not just by name
    for s, dim in zip(specs, dims):
        if s["k"] == "real" and (s["tr"] or "identity") == "identity" \
                and s["prior"] == "uniform":
            v = 0.5 * (s["low"] + s["high"])
            need(np.allclose(dim.transform([v]), [v]), "dimension still "
                 "normalizes")


def t_named(case, ctx):
    """By name through the optimizer's own entry point."""
    from skopt.utils import cook_initial_point_generator
    name, n, seed = case["name"], case["n"], case["seed"]
    specs = case["dims"]
    short = []
    for s in specs:
        if s["k"] == "cat":
            short.append(list(G.cats_of(s)) if len(s["cats"]) > 4
                         else G.make_dim(s))
        else:
            short.append((s["low"], s["high"]) if s["prior"] == "uniform"
                         else (s["low"], s["high"], s["prior"]))
    kw = {"iterations": 5} if name.lower() == "lhs" else {}
    gen = cook_initial_point_generator(name, **kw)
    X = gen.generate(short, n, random_state=seed)
    need(len(X) == n, "asked %d points, got %d", n, len(X))
    from skopt.space import Space
    sp = Space(short)
    for p in X:
        need(p in sp, "%r not in space", p)
    Y = cook_initial_point_generator(name, **kw).generate(
        short, n, random_state=seed)
    need(G.close_points(X, Y), "same seed, different designs")
    need(cook_initial_point_generator("random") is None, "random")
    need(cook_initial_point_generator(gen) is gen, "instance not kept")
    for bad in ("foo", "lhss", 3, object()):
        try:
            cook_initial_point_generator(bad)
        except ValueError:
            continue
        need(False, "generator %r accepted", bad)
    ctx.label(name)
    ctx.nontrivial(n > 1)


def strat_design():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dims": G.space_spec(
            1, 3, big=True, real_kw=dict(dtypes=("float", "float", "T:float32")),
            int_kw=dict(dtypes=("T:int64", "int", "T:int32")),
            cat_kw=dict(kinds=("str", "int", "float", "bool", "mixed",
                            "tuple", "object"),
                        transforms=(None, "onehot", "label", "normalize",
                                    "identity"))),
        "gen": gen_spec(),
        "n": st.one_of(st.integers(0, 12), st.integers(1, 40)),
        "seed": G.seeds()})


def strat_named():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dims": G.space_spec(1, 3, real_kw=dict(bases=(10,)),
                             int_kw=dict(bases=(10,)),
                             cat_kw=dict(priors=False)),
        "name": st.sampled_from(["lhs", "sobol", "halton", "hammersly",
                                 "grid", "LHS", "Sobol"]),
        "n": st.integers(1, 20), "seed": G.seeds()})


PROP = Prop("C06", [
    Sub("design", strat_design, t_design, 1200, 30000, 6,
        "a generator with generated parameters, a space, a size and a seed; "
        "non-trivial: two points in two dimensions"),
    Sub("refuse", strat_refuse, t_refuse, 150, 2000, 1,
        "an option a generator does not know; non-trivial: all"),
    Sub("named", strat_named, t_named, 300, 5000, 2,
        "a generator by name over shorthand dimensions; non-trivial: two "
        "points"),
])
