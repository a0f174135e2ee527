"""C04 a space is built as described: shorthand, YAML, names, rejection."""
import os
import tempfile

import numpy as np

from .. import gens as G
from ..core import Prop, Sub, need


def raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    need(False, "accepted: %s", what)


def same_dim(dim, s):
    """dim is what spec s describes."""
    from skopt.space import Categorical, Integer, Real
    cls = {"real": Real, "int": Integer, "cat": Categorical}[s["k"]]
    need(type(dim) is cls, "%r built %s", s, type(dim).__name__)
    if s["k"] == "cat":
        cats = G.cats_of(s)
        need(len(dim.categories) == len(cats) and all(
            type(a) is type(b) and a == b
            for a, b in zip(dim.categories, cats)),
            "categories %r, described %r", dim.categories, cats)
        p = s.get("prior") or [1.0 / len(cats)] * len(cats)
        need(np.allclose(dim.prior_, p), "prior_ %r", dim.prior_)
        need(tuple(dim.bounds) == tuple(dim.categories), "bounds")
        need(dim.is_constant == (len(cats) <= 1), "is_constant")
    else:
        need(dim.low == s["low"] and dim.high == s["high"],
             "%r built bounds %r", s, (dim.low, dim.high))
        need(tuple(dim.bounds) == (s["low"], s["high"]), "bounds %r",
             dim.bounds)
        need(dim.prior == (s.get("prior") or "uniform"), "%r built prior %r",
             s, dim.prior)
        if (s.get("prior") or "uniform") == "log-uniform":
            need(dim.base == (s.get("base") or 10), "%r built base %r", s,
                 dim.base)
        need(not dim.is_constant, "is_constant")
    need(dim.name == s.get("name"), "name %r, described %r", dim.name,
         s.get("name"))


def shorthand(s, form):
    """A shorthand description of s, or None if it has none."""
    seq = tuple if form % 2 else list
    if s["k"] == "cat":
        if s.get("prior") is not None:
            return None
        cats = G.cats_of(s)
        # described by a list of its categories where the documented reading
        # of such a list is a Categorical
        if len(cats) == 1 or len(cats) >= 5:
            return seq(cats)
        if len(cats) == 2 and any(isinstance(c, (str, bool)) for c in cats):
            return seq(cats)
        if len(cats) in (3, 4) and cats[2] not in ("uniform", "log-uniform"):
            return seq(cats)
        return None
    lo, hi = s["low"], s["high"]
    if s["k"] == "real":
        lo, hi = float(lo), float(hi)
        if form % 3 == 1:
            lo, hi = np.float64(lo), np.float64(hi)
    elif form % 3 == 1 and s["prior"] == "uniform" and form % 5 == 0:
        lo, hi = np.int64(lo), np.int64(hi)
        return seq([lo, hi])
    if s["prior"] == "uniform":
        if form % 4 < 2:
            return seq([lo, hi])
        return seq([lo, hi, "uniform"])
    if s["base"] == 10 and form % 4 < 2:
        return seq([lo, hi, "log-uniform"])
    return seq([lo, hi, "log-uniform", s["base"]])


def t_short(case, ctx):
    from skopt.space import Space, check_dimension
    specs, given = [], []
    for d in case["dims"]:
        s = dict(d["s"])
        s["tr"] = None
        if s["k"] != "cat":
            s["dtype"] = None
        sh = shorthand(s, d["form"])
        if sh is None or d["form"] % 7 == 0:
            s["name"] = d["name"]
            dim = G.make_dim(s)
            need(check_dimension(dim) is dim, "Dimension not kept as it is")
            given.append(dim)
            ctx.label("instance")
        else:
            given.append(sh)
            one = check_dimension(sh)
            same_dim(one, s)
            for t in (["onehot", "label", "identity", "normalize"]
                      if s["k"] == "cat" else ["identity", "normalize"]):
                one = check_dimension(sh, transform=t)
                same_dim(one, s)
                ref = G.make_dim(dict(s, tr=t))
                x = G.decode(s, 0.3)
                a = np.asarray(one.transform([x]))
                b = np.asarray(ref.transform([x]))
                need(a.shape == b.shape and a.tolist() == b.tolist(),
                     "transform=%r of %r: %r becomes %r, should be %r", t,
                     sh, x, a.tolist(), b.tolist())
            ctx.label("short:%d:%s" % (len(sh), s["k"]))
        specs.append(s)
    space = Space(given)
    check_space(space, specs)
    for g, dim in zip(given, space.dimensions):
        if not isinstance(g, (list, tuple)):
            need(dim is g, "Dimension instance replaced")
    ctx.nontrivial(len(specs) > 1)


def check_space(space, specs):
    need(space.n_dims == len(specs) and len(list(space)) == len(specs),
         "%d dimensions, described %d", space.n_dims, len(specs))
    for dim, s in zip(space.dimensions, specs):
        same_dim(dim, s)
    names = [s.get("name") or "X_%d" % i for i, s in enumerate(specs)]
    need(space.dimension_names == names, "dimension_names %r, expected %r",
         space.dimension_names, names)
    need(list(space.bounds) == [
        tuple(G.cats_of(s)) if s["k"] == "cat" else (s["low"], s["high"])
        for s in specs], "bounds %r", space.bounds)
    kinds = [s["k"] for s in specs]
    need(space.is_real == all(k == "real" for k in kinds), "is_real")
    need(space.is_categorical == all(k == "cat" for k in kinds),
         "is_categorical")
    need(space.is_partly_categorical == any(k == "cat" for k in kinds),
         "is_partly_categorical")
    need(space.n_constant_dimensions == sum(
        s["k"] == "cat" and len(s["cats"]) == 1 for s in specs),
        "n_constant_dimensions")


def t_numpy(case, ctx):
    """Descriptions by numpy scalars and arrays."""
    from skopt.space import Categorical, Integer, Real, Space
    given, want = [], []
    for d in case["dims"]:
        k, form = d["k"], d["form"]
        if k == "cat":
            vals = d["vals"]
            arr = np.array(vals)
            if isinstance(vals[0], bool) and len(vals) == 2 and form % 3:
                # one numpy boolean, one of python
                g = (np.bool_(vals[0]), vals[1] if form % 3 == 1 else
                     np.bool_(vals[1]))
            else:
                g = arr if form % 2 else list(arr)
            w = Categorical(vals)
            kind = Categorical
        else:
            tp = [np.int64, np.int32, np.int16, np.int8][form % 4] \
                if k == "int" else [np.float64, np.float32][form % 2]
            lo, hi = tp(d["low"]), tp(d["high"])
            kind = Integer if k == "int" else Real
            kw = {}
            tail = []
            if d["prior"] is not None:
                tail, kw["prior"] = [d["prior"]], d["prior"]
                if d["prior"] == "log-uniform" and d["base"]:
                    tail.append(np.int64(d["base"]) if form % 3
                                else d["base"])
                    kw["base"] = d["base"]
            g = [lo, hi] + tail
            if not tail and form % 5 == 0:
                g = np.array([lo, hi], dtype=tp)
            elif form % 2:
                g = tuple(g)
            w = kind(lo.item(), hi.item(), **kw)
        given.append(g)
        want.append(w)
        one = Space([g]).dimensions[0]
        need(type(one) is kind, "%r is a %s, not a %s", g,
             type(one).__name__, kind.__name__)
        if k == "cat":
            need(list(one.categories) == list(w.categories), "%r has the "
                 "categories %r", g, one.categories)
        else:
            need(one.low == w.low and one.high == w.high and
                 one.prior == w.prior and one.base == w.base,
                 "%r built %r", g, one)
    a, b = Space(given), Space(want)
    need(a == b and b == a, "%r is not equal to %r", a, b)
    X = b.rvs(4, random_state=case["seed"])
    Y = a.rvs(4, random_state=case["seed"])
    for x, y in zip(X, Y):
        need(x in a and y in b and all(
            u == v or G.close_value(u, v) for u, v in zip(x, y)),
            "the same seed gives %r in one and %r in the other", x, y)
    A, B = a.transform(X), b.transform(X)
    need(A.shape == B.shape and np.allclose(A, B), "transforms differ")
    need(np.allclose(np.array(a.transformed_bounds, dtype=float),
                     np.array(b.transformed_bounds, dtype=float)), "bounds")
    ctx.nontrivial(len(given) > 1)


def strat_numpy():
    from hypothesis import strategies as st
    form = st.integers(0, 60)

    def num(k):
        v = st.integers(1, 60) if k == "int" else st.integers(
            1, 240).map(lambda i: i / 4.0)
        return st.tuples(v, v).filter(lambda t: t[0] != t[1]).flatmap(
            lambda t: st.fixed_dictionaries({
                "k": st.just(k), "form": form, "low": st.just(min(t)),
                "high": st.just(max(t)),
                "prior": st.sampled_from([None, "uniform", "log-uniform"]),
                "base": st.sampled_from([None, 2, 10])}))

    def cat(vals, a, b):
        return st.fixed_dictionaries({
            "k": st.just("cat"), "form": form,
            "vals": st.lists(st.sampled_from(vals), min_size=a, max_size=b,
                             unique=True)})
    return st.fixed_dictionaries({
        "dims": st.lists(st.one_of(
            num("int"), num("real"), cat(["a", "bb", "c", "", "z9"], 1, 5),
            cat([True, False], 1, 2), cat([1, 2, 3, 5, 8], 3, 5),
            cat([0.5, 1.5, -2.0, 8.0], 3, 4)), min_size=1, max_size=4),
        "seed": G.seeds()})


def t_names(case, ctx):
    specs = [dict(s) for s in case["dims"]]
    names = case["names"]
    for i, s in enumerate(specs):
        s["name"] = names[i % len(names)] if i < len(names) else None
    space = G.make_space(specs)
    check_space(space, specs)
    known = {}
    for i, s in enumerate(specs):
        if s["name"] is not None:
            known.setdefault(s["name"], i)
    for nm, i in known.items():
        got = space[nm]
        need(got[0] == i and got[1] is space.dimensions[i],
             "space[%r] is %r, expected dimension %d", nm, got, i)
    for i in range(len(specs)):
        got = space[i]
        need(got[0] == i and got[1] is space.dimensions[i],
             "space[%d] is %r", i, got)
    q = [n for n in names if n in known][::-1] + ["no such name"]
    got = space[q]
    need(len(got) == len(q), "lookup of %d names gave %d", len(q), len(got))
    for nm, (i, d) in zip(q, got):
        if nm in known:
            need(i == known[nm] and d is space.dimensions[i],
                 "space[%r][%r] is %r", q, nm, (i, d))
        else:
            need(i is None and d is None, "unknown name found: %r", (i, d))
    need(tuple(space["no such name"]) == (None, None), "unknown name found")
    raises(ValueError, lambda: space[1.5], "lookup by a float")
    for bad in (3, 1.5, ["a"], ("a",)):
        raises(ValueError,
               lambda bad=bad: setattr(space.dimensions[0], "name", bad),
               "name %r" % (bad,))
    need(space.dimensions[0].name == specs[0]["name"], "rejected name stuck")
    ctx.nontrivial(len(known) > 1)


def t_yaml(case, ctx):
    import yaml
    from skopt.space import Space
    specs = []
    opts = []
    for d in case["dims"]:
        s = dict(d["s"])
        s["name"] = d["name"]
        kw = {}
        if s["k"] == "cat":
            kw["categories"] = s["cats"]
            if s["prior"] is not None:
                kw["prior"] = s["prior"]
        else:
            kw["low"], kw["high"] = s["low"], s["high"]
            if s["prior"] != "uniform" or d["form"] % 2:
                kw["prior"] = s["prior"]
            if s["prior"] == "log-uniform" and s["base"] != 10:
                kw["base"] = s["base"]
        if s["name"] is not None:
            kw["name"] = s["name"]
        if s["tr"] is not None:
            kw["transform"] = s["tr"]
        key = {"real": "Real", "int": "Integer", "cat": "Categorical"}[s["k"]]
        style = d["form"] % 3
        key = key.upper() if style == 1 else key.lower() if style == 2 else key
        if style == 1:
            kw = {k.capitalize(): v for k, v in kw.items()}
        opts.append({key: kw})
        specs.append(s)
    layout = case["layout"] % 3
    if layout == 0:
        doc, ns = opts, None
    elif layout == 1:
        doc, ns = {"Space": opts, "Zother": [{"Integer": {"low": 0,
                                                          "high": 1}}]}, None
    else:
        # one of several
        doc, ns = {}, "MySpace"
        others = 1 + case["layout"] // 3 % 3
        at = case["layout"] // 9 % (others + 1)
        for i in range(others + 1):
            if i == at:
                doc[ns] = opts
            if i < others:
                doc["AZq"[i]] = [{"Integer": {"low": 0, "high": i + 1}}]
        ctx.label("namespace %d of %d" % (at + 1, others + 1))
    fd, path = tempfile.mkstemp(suffix=".yml")
    with os.fdopen(fd, "w") as f:
        yaml.safe_dump(doc, f, sort_keys=False, allow_unicode=True)
    try:
        space = Space.from_yaml(path, namespace=ns)
        if layout:
            try:
                other = Space.from_yaml(path, namespace="none such")
            except (KeyError, ValueError):
                pass
            else:
                need(False, "a namespace that is not there: %r", other)
        # the same with one thing wrong
        i = case["layout"] % len(opts)
        key = next(iter(opts[i]))
        how = case["spoil"]
        if how == "kind":
            opts[i] = {key + "s": opts[i][key]}
        elif how == "word":
            opts[i] = {key: dict(opts[i][key], upper=3)}
        elif how == "range" and specs[i]["k"] != "cat":
            opts[i] = {key: {"low": 3, "high": 1}}
        elif how == "missing":
            opts[i] = {key: {"name": "x"}}
        else:
            doc = "Space"
        with open(path, "w") as f:
            yaml.safe_dump(doc, f, sort_keys=False, allow_unicode=True)
        try:
            other = Space.from_yaml(path, namespace=ns)
        except (KeyError, ValueError, TypeError):
            pass
        else:
            need(False, "a file with a wrong %s is read as %r", how, other)
    finally:
        os.unlink(path)
    check_space(space, specs)
    for s, t in zip(specs, space.get_transformer()):
        need(t == (s["tr"] or ("onehot" if s["k"] == "cat" else "identity")),
             "transform %r, described %r", t, s["tr"])
    need(space == G.make_space(specs), "not equal to the space it describes")
    ctx.label("layout:%d" % layout)
    ctx.nontrivial(len(specs) > 1)


def t_bad(case, ctx):
    from skopt.space import (Categorical, Integer, Real, Space,
                             check_dimension)
    s = case["dim"]
    k = case["kind"]
    ctx.label(k)
    cls = {"real": Real, "int": Integer}.get(s["k"], Integer)
    lo, hi = (s["low"], s["high"]) if s["k"] != "cat" else (0, 3)
    ctx.nontrivial()
    if k == "order":
        raises(ValueError, lambda: cls(hi, lo), "%s(%r, %r)" % (cls, hi, lo))
        raises(ValueError, lambda: cls(lo, lo), "%s(%r, %r)" % (cls, lo, lo))
        raises(ValueError, lambda: Space([(hi, lo)]), "(%r, %r)" % (hi, lo))
    elif k == "prior":
        raises(ValueError, lambda: cls(lo, hi, prior=case["word"]),
               "prior " + case["word"])
    elif k == "transform":
        for t in (case["word"], "onehot", "label", "string"):
            raises(ValueError, lambda: cls(lo, hi, transform=t),
                   "transform " + t)
            dim = cls(lo, hi)
            raises(ValueError, lambda: dim.set_transformer(t),
                   "set_transformer " + t)
        raises(ValueError, lambda: Categorical(["a", "b"],
                                               transform=case["word"]),
               "Categorical transform " + case["word"])
    elif k == "dtype":
        for d in (case["word"], "complex", str, bool):
            raises(ValueError, lambda: cls(lo, hi, dtype=d),
                   "dtype %r" % (d,))
        raises(ValueError, lambda: Integer(0, 3, dtype=float), "float dtype")
        raises(ValueError, lambda: Integer(0, 3, dtype="float32"), "float")
        raises(ValueError, lambda: Real(0, 3, dtype=np.int64), "int dtype")
        raises(ValueError, lambda: Real(0, 3, dtype="int32"), "int dtype")
    else:
        for bad in (case["word"], 3, None, {"a": 1}, 2.5, (), []):
            raises(ValueError, lambda: check_dimension(bad),
                   "dimension %r" % (bad,))
        raises(ValueError, lambda: Space([(lo, hi), case["word"]]),
               "a string as dimension")
        raises(ValueError, lambda: check_dimension((None, object())),
               "(None, object)")


NAMES = ["alpha", "b", "C 3", "x_y", "X_0", "X_1", "éa", "k"]
WORDS = ["foo", "uniforms", "log_uniform", "norm", "Identity", "loguniform",
         "float65", "int3", "one-hot"]


def _dims(st, **kw):
    return st.fixed_dictionaries({
        "s": G.dim_spec(real_kw=dict(kw), int_kw=dict(kw), cat_kw=dict(
            kinds=("str", "int", "float", "bool", "mixed"))),
        "form": st.integers(0, 60),
        "name": st.sampled_from([None] + NAMES)})


def strat_short():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dims": st.lists(_dims(st), min_size=1, max_size=5)})


def strat_names():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dims": G.space_spec(1, 5, big=True),
        "names": st.lists(st.sampled_from(NAMES), min_size=1, max_size=5,
                          unique=True)})


def strat_yaml():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dims": st.lists(_dims(st), min_size=1, max_size=4),
        "layout": st.integers(0, 35),
        "spoil": st.sampled_from(["kind", "word", "range", "missing",
                                  "doc"])})


def strat_bad():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dim": G.dim_spec(cat=False),
        "kind": st.sampled_from(["order", "prior", "transform", "dtype",
                                 "shape"]),
        "word": st.sampled_from(WORDS)})


PROP = Prop("C04", [
    Sub("shorthand", strat_short, t_short, 1500, 30000, 3,
        "1-5 dimensions given as tuples, lists, numpy scalars or instances; "
        "non-trivial: two dimensions"),
    Sub("numpy", strat_numpy, t_numpy, 800, 12000, 2,
        "1-4 dimensions described by numpy scalars and arrays; non-trivial: "
        "two dimensions"),
    Sub("names", strat_names, t_names, 600, 8000, 2,
        "named and unnamed dimensions and lookups; non-trivial: two names"),
    Sub("yaml", strat_yaml, t_yaml, 800, 10000, 2,
        "a YAML file describing 1-4 dimensions in several layouts; "
        "non-trivial: two dimensions"),
    Sub("invalid", strat_bad, t_bad, 300, 3000, 1,
        "an invalid description; all non-trivial"),
])
