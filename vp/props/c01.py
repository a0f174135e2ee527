"""C01 transforms lose nothing: inverse_transform(transform(x)) is x."""
import numpy as np

from .. import gens as G
from ..core import Prop, Sub, need


def eps_of(s):
    d = s.get("dtype") or "float"
    d = d.replace("T:", "")
    return {"float32": 1.2e-7, "float16": 1e-3}.get(d, 2.3e-16)


def close_real(s, x, y):
    """y is the stored form of x in dimension s."""
    scale = max(abs(float(s["low"])), abs(float(s["high"])))
    if s.get("prior") == "log-uniform":
        tol = 1e-10 * abs(x)
    else:
        tol = 1e-12 * scale
    tol += 2 * eps_of(s) * abs(x)
    if "16" in (s.get("dtype") or ""):
        tol += 1e-7
    return abs(float(x) - float(y)) <= tol


def type_ok(s, v):
    d = (s.get("dtype") or "").replace("T:", "")
    if s["k"] == "cat":
        return True
    if s["k"] == "real":
        if d in ("", "float"):
            return type(v) is float
        return isinstance(v, np.floating) and v.dtype == np.dtype(d)
    if d == "int":
        return type(v) is int
    return isinstance(v, np.integer) and v.dtype == np.dtype(d or "int64")


def check_back(s, xs, back, what):
    need(len(back) == len(xs), "%s: %d samples came back for %d", what,
         len(back), len(xs))
    for x, y in zip(xs, back):
        if s["k"] == "real":
            need(close_real(s, x, y), "%s: %r came back as %r", what, x, y)
        elif s["k"] == "int":
            need(int(x) == int(y) and int(y) == y,
                 "%s: %r came back as %r", what, x, y)
        else:
            need(G.member(s, y), "%s: %r came back as non-category %r", what,
                 x, y)
            need(G.same_value(x, y), "%s: %r came back as %r", what, x, y)
        need(type_ok(s, y), "%s: %r came back with type %s", what, x,
             type(y).__name__)


def transforms_of(s):
    if s["k"] == "cat":
        return ["onehot", "label", "string", "identity", "normalize"]
    return ["identity", "normalize"]


def t_dim(case, ctx):
    s = case["dim"]
    dim = G.make_dim(s)
    xs = [G.decode(s, u) for u in case["us"]]
    if s["k"] == "real" and eps_of(s) > 1e-10:
        # values of a narrower type: use representable ones
        d = np.dtype(s["dtype"].replace("T:", ""))
        lo, hi = float(s["low"]), float(s["high"])
        xs = [float(d.type(x)) for x in xs]
        xs = [x for x in xs if lo <= x <= hi]
    if not xs:
        return
    keep = list(xs)
    ctx.label("kind:" + s["k"], "prior:" + str(
        s.get("prior") if s["k"] != "cat" else s["prior"] is not None))
    first = s.get("tr")
    opts = transforms_of(s)
    seq = [None] + [opts[i % len(opts)] for i in case["switch"]]
    if s["k"] == "cat" and len({type(c) for c in G.cats_of(s)}) > 1:
        # "string" is documented for categories of one type only
        seq = [t for t in seq if t != "string"]
        if first == "string":
            return
    for step, tr in enumerate(seq):
        if tr is not None:
            dim.set_transformer(tr)
        what = "%s under %s" % (s["k"], tr or first or "default")
        Xt = dim.transform(list(xs))
        need(len(Xt) == len(xs), "%s: transform of %d gave %d rows", what,
             len(xs), len(Xt))
        back = dim.inverse_transform(Xt)
        check_back(s, xs, back, what)
        if s["k"] == "cat" and (tr or first) == "identity":
            need(all(G.same_value(a, b) for a, b in zip(Xt, xs)),
                 "identity made %r of %r", list(Xt), xs)
        # transforming again what came back lands on the same warped values
        if not (s["k"] == "real" and eps_of(s) > 1e-10):
            A, B = Xt, dim.transform(list(back))
            if s["k"] == "cat" and (tr or first) == "identity":
                # categories, which may be sequences
                A, B = np.empty(len(Xt), object), np.empty(len(B), object)
                for i, (a, b) in enumerate(zip(Xt, back)):
                    A[i], B[i] = a, b
            A, B = np.asarray(A), np.asarray(B)
            need(A.shape == B.shape, "%s: shape changed on re-transform", what)
            if A.dtype.kind in "fiub":
                need(np.allclose(A.astype(float), B.astype(float), rtol=1e-9,
                                 atol=1e-9 * max(1., np.abs(
                                     A.astype(float)).max())),
                     "%s: re-transform moved %r to %r", what, A.tolist(),
                     B.tolist())
            else:
                need(A.tolist() == B.tolist(), "%s: re-transform differs",
                     what)
        # one at a time gives what the batch gives
        one = dim.inverse_transform(dim.transform([xs[-1]]))
        check_back(s, [xs[-1]], one, what + " (single)")
        need(xs == keep, "the caller's list was modified")
        ctx.label("tr:" + str(tr or first))
    ctx.nontrivial(len(set(map(str, xs))) > 1 or len(seq) > 1)


def strat_dim():
    from hypothesis import strategies as st
    d = st.one_of(
        G.real_spec(), G.real_spec(dtypes=G.REAL_DTYPES),
        G.int_spec(), G.int_spec(dtypes=G.INT_DTYPES),
        G.cat_spec(), G.cat_spec(kinds=("mixed", "none", "bool", "str",
                                        "tuple", "object")))
    return st.fixed_dictionaries({
        "dim": d, "us": st.lists(G.fracs(), min_size=1, max_size=8),
        "switch": st.lists(st.integers(0, 9), max_size=4)})


# ------------------------------------------------------------------- spaces

NUM = {"real": ["identity", "normalize"], "int": ["identity", "normalize"],
       "cat": ["onehot", "label", "normalize"]}


def t_space(case, ctx):
    from skopt.space import Categorical, Integer, Real
    specs = case["dims"]
    space = G.make_space(specs)
    pts = [G.decode_point(specs, us) for us in case["pts"]]
    cur = [s.get("tr") or ("onehot" if s["k"] == "cat" else "identity")
           for s in specs]
    need(space.get_transformer() == cur, "get_transformer %r, made with %r",
         space.get_transformer(), cur)
    classes = {"real": Real, "int": Integer, "cat": Categorical}

    def check(what):
        width = sum(G.transformed_size(s, t) for s, t in zip(specs, cur))
        need(space.transformed_n_dims == width,
             "%s: transformed_n_dims %r, expected %r", what,
             space.transformed_n_dims, width)
        keep = [list(p) for p in pts]
        Xt = space.transform(pts)
        need(pts == keep, "%s: transform modified its argument", what)
        Xt = np.asarray(Xt)
        need(Xt.shape == (len(pts), width), "%s: transformed shape %r for %d "
             "points of width %d", what, Xt.shape, len(pts), width)
        need(Xt.dtype.kind in "fiub", "%s: not numeric: %s", what, Xt.dtype)
        kept = Xt.copy()
        back = space.inverse_transform(Xt)
        need(np.array_equal(kept, Xt), "%s: inverse modified its argument",
             what)
        need(len(back) == len(pts), "%s: %d points came back for %d", what,
             len(back), len(pts))
        for p, q in zip(pts, back):
            need(len(q) == len(specs), "%s: point of length %d", what, len(q))
            need(q in space, "%s: %r not in space", what, q)
            for s, x, y in zip(specs, p, q):
                check_back(s, [x], [y], what + " " + s["k"])
        # each dimension owns its own columns: replacing one coordinate of a
        # point changes only the columns of that dimension
        if len(pts) > 1:
            a, b = pts[0], pts[1]
            start = 0
            for j, s in enumerate(specs):
                w = G.transformed_size(s, cur[j])
                m = list(a)
                m[j] = b[j]
                row = np.asarray(space.transform([m]))[0]
                ref = Xt[0].copy()
                ref[start:start + w] = Xt[1][start:start + w]
                need(np.allclose(row.astype(float), ref.astype(float)),
                     "%s: columns mixed up between dimensions", what)
                start += w

    check("as constructed")
    for op in case["ops"]:
        if op[0] == "all":
            t = ["identity", "normalize"][op[1] % 2]
            if t == "identity" and any(s["k"] == "cat" for s in specs):
                t = "normalize"
            space.set_transformer(t)
            cur = [t] * len(specs)
        elif op[0] == "list":
            cur = [NUM[s["k"]][(op[1] + 3 * i + i * i) % len(NUM[s["k"]])]
                   for i, s in enumerate(specs)]
            space.set_transformer(list(cur))
        else:
            kind = ["real", "int", "cat"][op[1] % 3]
            t = NUM[kind][op[2] % len(NUM[kind])]
            space.set_transformer_by_type(t, classes[kind])
            cur = [t if s["k"] == kind else c for s, c in zip(specs, cur)]
        need(space.get_transformer() == cur,
             "after %r: get_transformer %r, expected %r", op,
             space.get_transformer(), cur)
        check("after %r" % (op,))
        ctx.label("op:" + op[0])
    ctx.label("dims:%d" % len(specs))
    ctx.nontrivial(len(specs) > 1 and len(pts) > 1)


def strat_space():
    from hypothesis import strategies as st
    sp = G.space_spec(
        1, 5, big=True, cat_kw=dict(transforms=(None, "onehot", "label", "normalize"),
                          kinds=("str", "int", "float", "bool", "mixed",
                                 "tuple", "object")))
    op = st.one_of(
        st.tuples(st.just("all"), st.integers(0, 1)),
        st.tuples(st.just("list"), st.integers(0, 20)),
        st.tuples(st.just("type"), st.integers(0, 2), st.integers(0, 5)))
    return sp.flatmap(lambda dims: st.fixed_dictionaries({
        "dims": st.just(dims),
        "pts": st.lists(G.fracs(len(dims)), min_size=1, max_size=5),
        "ops": st.lists(op, max_size=3)}))


# ------------------------------------------------------ bare transformers

def t_bare(case, ctx):
    from skopt.space import transformers as T
    k = case["kind"]
    ctx.label(k)
    if k in ("onehot", "label", "string"):
        cats = [G._cat(c) for c in case["cats"]]
        if k == "string":
            cats = [c for c in cats if type(c) is type(cats[0])]
        tr = {"onehot": T.CategoricalEncoder, "label": T.LabelEncoder,
              "string": T.StringEncoder}[k]()
        tr.fit(cats)
        xs = [cats[i % len(cats)] for i in case["idx"]]
        Xt = tr.transform(xs)
        back = tr.inverse_transform(Xt)
        need(len(back) == len(xs), "%s: lost samples", k)
        for x, y in zip(xs, back):
            need(G.same_value(x, y), "%s: %r came back as %r", k, x, y)
        if k == "label":
            codes = [int(v) for v in tr.transform(cats)]
            need(sorted(codes) == list(range(len(cats))),
                 "label codes %r are not 0..n-1", codes)
        if k == "onehot" and len(cats) > 2:
            M = np.asarray(tr.transform(cats))
            need(M.shape == (len(cats), len(cats)) and
                 np.array_equal(M.sum(axis=1), np.ones(len(cats))) and
                 np.array_equal(M.sum(axis=0), np.ones(len(cats))),
                 "one-hot matrix is not a permutation matrix")
        ctx.nontrivial(len(cats) > 1)
        return
    lo, hi = case["low"], case["low"] + case["width"]
    xs = np.array([lo + u * (hi - lo) for u in case["us"]])
    xs = np.clip(xs, lo, hi)
    if k == "normint":
        lo, hi = int(np.floor(lo)), int(np.ceil(hi)) + 1
        xs = np.round(np.clip(xs, lo, hi)).astype(int)
        tr = T.Normalize(lo, hi, is_int=True)
        Xt = np.asarray(tr.transform(xs))
        need(np.all((Xt >= 0) & (Xt <= 1)), "outside [0, 1]: %r", Xt)
        need(np.array_equal(np.asarray(tr.inverse_transform(Xt)), xs),
             "Normalize(int) changed %r", xs.tolist())
        need(np.allclose(Xt, (xs - lo) / float(hi - lo)), "not affine")
        bad = [hi + 1, lo - 1]
        badt = [1 + 1e-3, -1e-3]
    elif k == "norm":
        tr = T.Normalize(lo, hi)
        Xt = np.asarray(tr.transform(xs))
        need(np.all((Xt >= -1e-8) & (Xt <= 1 + 1e-8)), "outside [0, 1]")
        need(np.allclose(np.asarray(tr.inverse_transform(Xt)), xs, rtol=1e-12,
                         atol=1e-12 * max(abs(lo), abs(hi))),
             "Normalize changed %r", xs.tolist())
        bad = [hi + 1e-3 * max(1, abs(hi)), lo - 1e-3 * max(1, abs(lo))]
        badt = [1 + 1e-3, -1e-3]
    elif k == "logn":
        xs = np.exp(np.clip(xs, -20, 20))
        tr = T.LogN(case["base"])
        Xt = np.asarray(tr.transform(xs))
        need(np.allclose(Xt, np.log(xs) / np.log(case["base"]), rtol=1e-10,
                         atol=1e-12), "not the log to base %r", case["base"])
        need(np.allclose(tr.inverse_transform(Xt), xs, rtol=1e-10, atol=0),
             "LogN changed %r", xs.tolist())
        bad, badt = [], []
    else:                                           # pipeline
        a = np.exp(np.clip(lo, -15, 15))
        b = a * np.exp(min(10.0, max(0.1, case["width"])))
        us = np.array(case["us"])
        xs = np.clip(a * (b / a) ** us, a, b)
        tr = T.Pipeline([T.LogN(case["base"]), T.Normalize(
            np.log(a) / np.log(case["base"]),
            np.log(b) / np.log(case["base"])), T.Identity()])
        Xt = np.asarray(tr.transform(xs))
        need(np.allclose(Xt, us, atol=1e-8), "pipeline order: %r for %r",
             Xt.tolist(), us.tolist())
        need(np.allclose(tr.inverse_transform(Xt), xs, rtol=1e-9),
             "Pipeline changed %r", xs.tolist())
        bad, badt = [], []
    for b in bad:
        try:
            tr.transform([b])
        except ValueError:
            continue
        need(False, "Normalize(%r, %r) accepted %r", lo, hi, b)
    for b in badt:
        try:
            tr.inverse_transform([b])
        except ValueError:
            continue
        need(False, "Normalize inverse accepted %r", b)
    ctx.nontrivial(len(xs) > 1)


def strat_bare():
    from hypothesis import strategies as st
    enc = G.cat_spec(kinds=("str", "int", "float", "bool", "mixed", "none",
                            "tuple", "object")
                     ).flatmap(lambda s: st.fixed_dictionaries({
                         "kind": st.sampled_from(["onehot", "label",
                                                  "string"]),
                         "cats": st.just(s["cats"]),
                         "idx": st.lists(st.integers(0, 7), min_size=1,
                                         max_size=8)}))
    num = st.fixed_dictionaries({
        "kind": st.sampled_from(["norm", "normint", "logn", "pipe"]),
        "low": st.floats(-1000, 1000, width=32),
        "width": st.floats(0.125, 1000, width=32),
        "base": st.sampled_from([2, 10, 3, 2.5]),
        "us": st.lists(G.fracs(), min_size=1, max_size=8)})
    return st.one_of(enc, num)


PROP = Prop("C01", [
    Sub("dimension", strat_dim, t_dim, 2400, 60000, 4,
        "a dimension of any type, prior, base, dtype and transform, points "
        "of it, and transformer switches; non-trivial: two different points "
        "or a switch"),
    Sub("space", strat_space, t_space, 1200, 30000, 4,
        "a space of 1-5 dimensions with set_transformer operations; "
        "non-trivial: two dimensions and two points"),
    Sub("transformer", strat_bare, t_bare, 1200, 20000, 2,
        "a bare transformer and its inputs; non-trivial: two inputs"),
])
