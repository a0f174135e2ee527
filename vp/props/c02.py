"""C02 warped coordinates: inside transformed_bounds, and back inside."""
import math

import numpy as np

from .. import gens as G
from ..core import Prop, Sub, need
from .c01 import NUM, strat_space as c01_space, type_ok


def dim_cols(dim, s, tr):
    """The (low, high) pairs of one dimension, one per transformed column."""
    b = dim.transformed_bounds
    w = G.transformed_size(s, tr)
    need(dim.transformed_size == w, "transformed_size %r, expected %r",
         dim.transformed_size, w)
    cols = [b] if w == 1 else list(b)
    need(len(cols) == w, "%d bounds for %d columns", len(cols), w)
    return [(float(a), float(c)) for a, c in cols]


def expected_cols(s, tr):
    """Own reference of the warped box."""
    if tr == "normalize":
        return [(0.0, 1.0)]
    if s["k"] == "cat":
        n = len(s["cats"])
        if tr == "onehot":
            return [(0.0, 1.0)] * (n if n != 2 else 1)
        if tr == "label":
            return [(0.0, float(n - 1))]
        return None
    if s["prior"] == "uniform":
        return [(float(s["low"]), float(s["high"]))]
    b = math.log(s["base"])
    return [(math.log(s["low"]) / b, math.log(s["high"]) / b)]


def cancel(s):
    """Rounding of the position in a range that is narrow for its size."""
    lo, hi = float(s["low"]), float(s["high"])
    if s["prior"] == "log-uniform":
        lo, hi = math.log(lo), math.log(hi)
    return 2e-15 * max(abs(lo), abs(hi)) / (hi - lo)


def t_box(case, ctx):
    specs = case["dims"]
    space = G.make_space(specs)
    cur = [NUM[s["k"]][case["tr"][i % len(case["tr"])] % len(NUM[s["k"]])]
           for i, s in enumerate(specs)]
    space.set_transformer(list(cur))
    pts = [G.decode_point(specs, us) for us in case["pts"]]
    # every corner of the original space as well
    for u in (0.0, 1.0):
        pts.append(G.decode_point(specs, [u] * len(specs)))
    Xt = np.asarray(space.transform(pts), dtype=float)
    box = [tuple(map(float, b)) for b in space.transformed_bounds]
    need(len(box) == Xt.shape[1] == space.transformed_n_dims,
         "%d transformed bounds, %d columns, transformed_n_dims %d",
         len(box), Xt.shape[1], space.transformed_n_dims)
    for j, (lo, hi) in enumerate(box):
        slack = 1e-9 * max(1.0, abs(lo), abs(hi))
        need(lo <= hi, "bounds %r reversed", (lo, hi))
        need(np.all(Xt[:, j] >= lo - slack) and np.all(Xt[:, j] <= hi + slack),
             "column %d of transform() leaves %r: %r", j, (lo, hi),
             Xt[:, j].tolist())
    start = 0
    flat = []
    for i, (s, dim, t) in enumerate(zip(specs, space.dimensions, cur)):
        cols = dim_cols(dim, s, t)
        flat += cols
        exp = expected_cols(s, t)
        if exp is not None:
            need(np.allclose(cols, exp, rtol=1e-9, atol=1e-9),
                 "transformed_bounds %r of %r under %s, expected %r", cols, s,
                 t, exp)
        if t == "normalize" or s["k"] != "cat":
            # the ends of a numerical range are the ends of the box
            if s["k"] != "cat":
                ends = np.asarray(dim.transform([s["low"], s["high"]]), float)
                need(np.allclose(ends, cols[0], rtol=1e-9, atol=1e-9),
                     "ends %r of the range warp to %r, not %r",
                     (s["low"], s["high"]), ends.tolist(), cols[0])
                xs = sorted(set(p[i] for p in pts))
                w = np.asarray(dim.transform(xs), float)
                need(np.all(np.diff(w) >= -1e-12 * max(1, abs(w).max())),
                     "warping does not keep the order")
                # spacing follows the prior
                (lo, hi) = cols[0]
                ref = [lo + G.unit(s, x) * (hi - lo) for x in xs]
                need(np.allclose(w, ref, rtol=1e-7, atol=1e-9 * max(
                    1, abs(lo), abs(hi)) + (hi - lo) * cancel(s)),
                    "warped %r, expected %r", w.tolist(), ref)
            ctx.label("prior:" + str(s.get("prior"))
                      if s["k"] != "cat" else "cat")
        start += len(cols)
        if s["k"] == "cat" and all(type(c) in (int, float)
                                   for c in G.cats_of(s)):
            # categories that are numbers may stay numbers
            one = G.make_dim(dict(s, tr="identity"))
            lo, hi = one.transformed_bounds
            cs = G.cats_of(s)
            need(lo == min(cs) and hi == max(cs) and
                 one.transformed_size == 1, "%r stays in %r", cs, (lo, hi))
            w = list(one.transform([p[i] for p in pts]))
            need(all(lo <= v <= hi for v in w) and
                 list(one.inverse_transform(w)) == [p[i] for p in pts],
                 "identity of %r in %r", w, (lo, hi))
    need(np.allclose(flat, box), "Space bounds differ from the dimensions'")

    # anything in the box comes back as a member of the space
    W = []
    for us in case["warped"]:
        row = []
        for j, (lo, hi) in enumerate(box):
            u = us[j % len(us)]
            v = lo + u * (hi - lo) if 0 < u < 1 else (lo if u <= 0 else hi)
            row.append(min(hi, max(lo, v)))
        W.append(row)
    # one-hot columns: rows as the acquisition optimiser makes them too
    back = space.inverse_transform(np.asarray(W, dtype=float))
    need(len(back) == len(W), "lost rows")
    for q in back:
        need(q in space, "%r came back outside the space", q)
        for s, v in zip(specs, q):
            need(G.member(s, v), "%r is not a value of %r", v, s)
            need(type_ok(s, v), "%r has type %s, declared %r", v,
                 type(v).__name__, s.get("dtype"))
    # and it is a fixed point of the round trip from there on
    again = space.inverse_transform(space.transform(back))
    for p, q in zip(back, again):
        for s, x, y in zip(specs, p, q):
            if s["k"] == "real":
                need(abs(float(x) - float(y)) <=
                     1e-9 * max(abs(s["low"]), abs(s["high"])) +
                     (2e-3 if "16" in s["dtype"] else
                      4e-7 if "32" in s["dtype"] else 0) * abs(float(x)),
                     "%r became %r", x, y)
            else:
                need(G.same_value(x, y), "%r became %r", x, y)
    # continuous coordinates: warped -> original -> warped is the identity
    Wb = np.asarray(space.transform(back), float)
    start = 0
    for i, (s, t) in enumerate(zip(specs, cur)):
        w = G.transformed_size(s, t)
        if s["k"] == "real" and "16" not in s["dtype"] \
                and "32" not in s["dtype"]:
            lo, hi = box[start]
            A = np.asarray(W, float)[:, start]
            # a warped value below the resolution of the bound is lost
            tol = 1e-9 * (hi - lo) + 1e-12 * max(abs(lo), abs(hi)) + \
                4e-16 * max(abs(s["low"]), abs(s["high"])) / \
                (s["high"] - s["low"])
            if s["prior"] == "uniform" and t == "identity":
                need(np.allclose(A, Wb[:, start], rtol=1e-12, atol=0),
                     "identity moved %r to %r", A.tolist(),
                     Wb[:, start].tolist())
            else:
                need(np.all(abs(A - Wb[:, start]) <= tol),
                     "warped %r came back as %r", A.tolist(),
                     Wb[:, start].tolist())
        if s["k"] == "int":
            # the nearest integer
            lo, hi = box[start]
            for v, q in zip(np.asarray(W, float)[:, start], back):
                f = (v - lo) / (hi - lo)
                if s["prior"] == "uniform":
                    ref = s["low"] + f * (s["high"] - s["low"])
                else:
                    ref = math.exp(math.log(s["low"]) + f * (
                        math.log(s["high"]) - math.log(s["low"])))
                got = float(q[i])
                need(abs(got - ref) <= 0.5 + 1e-6 * max(1, abs(ref)),
                     "warped %r means %r but came back as %r", v, ref, got)
        start += w
    ctx.label("dims:%d" % len(specs))
    ctx.nontrivial(len(case["warped"]) > 1)


def strat_box():
    from hypothesis import strategies as st
    sp = G.space_spec(
        1, 4, big=True, real_kw=dict(dtypes=G.REAL_DTYPES),
        int_kw=dict(dtypes=G.INT_DTYPES),
        cat_kw=dict(kinds=("str", "int", "float", "bool", "mixed",
                            "tuple", "object")))
    return sp.filter(lambda d: len({str(x) for x in d}) == len(d)).flatmap(
        lambda dims: st.fixed_dictionaries({
            "dims": st.just(dims),
            "tr": st.lists(st.integers(0, 2), min_size=1, max_size=4),
            "pts": st.lists(G.fracs(len(dims)), min_size=1, max_size=4),
            "warped": st.lists(st.lists(G.fracs(), min_size=1, max_size=6),
                               min_size=1, max_size=4)}))


def t_onehot(case, ctx):
    """Soft one-hot rows: the category with the largest entry wins."""
    s = case["dim"]
    dim = G.make_dim(s)
    dim.set_transformer("onehot")
    cats = G.cats_of(s)
    n = len(cats)
    rows, want = [], []
    for r in case["rows"]:
        v = [float(r[i % len(r)]) for i in range(n)]
        k = int(r[0] * 997) % n
        if n == 1:
            rows.append([0.0])
            want.append(cats[0])
        elif n == 2:
            rows.append([float(k)])
            want.append(cats[k])
        else:
            v = [0.9 * x for x in v]
            v[k] = 1.0
            rows.append(v)
            want.append(cats[k])
    if n == 2:
        A = np.asarray(rows).reshape(-1)
        A = A.reshape(-1, 1)
    else:
        A = np.asarray(rows)
    got = dim.inverse_transform(A)
    for g, w in zip(got, want):
        need(G.same_value(g, w), "%r decoded to %r, expected %r",
             A.tolist(), list(got), want)
    ctx.label("n:%d" % n)
    ctx.nontrivial(n > 2)


def strat_onehot():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dim": G.cat_spec(kinds=("str", "int", "float", "bool", "mixed",
                            "tuple", "object")),
        "rows": st.lists(st.lists(st.floats(0, 1, width=16), min_size=1,
                                  max_size=8), min_size=1, max_size=4)})


PROP = Prop("C02", [
    Sub("box", strat_box, t_box, 2000, 50000, 6,
        "a space of 1-4 dimensions under generated numeric transforms, points "
        "of it and vectors of its warped box; non-trivial: two warped "
        "vectors"),
    Sub("onehot", strat_onehot, t_onehot, 400, 5000, 1,
        "soft one-hot rows; non-trivial: three categories or more"),
])
