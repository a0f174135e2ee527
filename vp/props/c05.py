"""C05 membership, distance and equality of spaces."""
import numpy as np

from .. import gens as G
from ..core import Prop, Sub, need


def outside(s, how):
    """A value that is not in dimension s."""
    if s["k"] == "cat":
        pool = ["no such category", -987654, 3.14159, None, "A", "aa",
                1234567]
        for i in range(len(pool)):
            v = pool[(how + i) % len(pool)]
            if not any(G.same_value(v, c) for c in G.cats_of(s)):
                return v
    lo, hi = s["low"], s["high"]
    if s["k"] == "int":
        return [lo - 1, hi + 1, lo - 1000, hi + 12345][how % 4]
    w = hi - lo
    return [float(np.nextafter(lo, -np.inf)), float(np.nextafter(hi, np.inf)),
            lo - w, hi + w, float("inf"), float("-inf"), float("nan")][how % 7]


def t_member(case, ctx):
    specs = case["dims"]
    space = G.make_space(specs)
    p = G.decode_point(specs, case["us"])
    need(p in space, "%r not in its space", p)
    for s, dim, v in zip(specs, space.dimensions, p):
        need(v in dim, "%r not in %r", v, s)
    # one component out at a time
    for j, s in enumerate(specs):
        v = outside(s, case["how"])
        q = list(p)
        q[j] = v
        need(v not in space.dimensions[j], "%r in %r", v, s)
        need(q not in space, "%r in space although %r is not in %r", q, v, s)
        ctx.label("out:" + s["k"])
    # boundaries are inclusive
    for s, dim in zip(specs, space.dimensions):
        if s["k"] == "cat":
            for c in G.cats_of(s):
                need(c in dim, "category %r not in", c)
        else:
            need(s["low"] in dim and s["high"] in dim, "bounds excluded")
    ctx.nontrivial(len(specs) > 1)


def t_distance(case, ctx):
    specs = case["dims"]
    space = G.make_space(specs)
    a, b, c = ([typed(s, v, case["typed"]) for s, v in zip(
        specs, G.decode_point(specs, us))] for us in case["pts"])

    def ref(p, q):
        t = 0.0
        for s, x, y in zip(specs, p, q):
            t += ref_dim(s, x, y)
        return t
    for p, q in ((a, b), (b, c), (a, c), (a, a)):
        d = space.distance(p, q)
        need(np.isclose(d, ref(p, q), rtol=1e-12, atol=0),
             "distance(%r, %r) = %r, expected %r", p, q, d, ref(p, q))
        need(d == space.distance(q, p), "not symmetric: %r %r", p, q)
        need((d == 0) == G.same_point(p, q), "distance %r for %r and %r", d,
             p, q)
    dab, dbc, dac = (space.distance(a, b), space.distance(b, c),
                     space.distance(a, c))
    need(dac <= dab + dbc + 1e-9 * (dab + dbc), "triangle inequality")
    for s, dim, x, y in zip(specs, space.dimensions, a, b):
        d = dim.distance(x, y)
        need(np.isclose(d, ref_dim(s, x, y), rtol=1e-12, atol=0),
             "%r.distance(%r, %r) = %r", s, x, y, d)
        v = outside(s, case["how"])
        for u, w in ((v, x), (x, v)):
            try:
                dim.distance(u, w)
            except RuntimeError:
                continue
            need(False, "distance of %r and %r outside %r", u, w, s)
    ctx.label(*["k:" + s["k"] for s in specs])
    ctx.nontrivial(not G.same_point(a, b) and len(specs) > 1)


def ref_dim(s, x, y):
    if s["k"] == "cat":
        return 0 if G.same_value(x, y) else 1
    x, y = (v.item() if isinstance(v, np.generic) else v for v in (x, y))
    return abs(x - y)


def typed(s, v, yes):
    """The value as a number of the type of its dimension, as suggested."""
    d = (s.get("dtype") or "").replace("T:", "")
    if not yes or s["k"] == "cat" or d in ("", "int", "float"):
        return v
    w = np.dtype(d).type(v)
    return w if s["low"] <= float(w) <= s["high"] else v


def changed(s, how):
    """A dimension that differs from s."""
    t = dict(s)
    if s["k"] == "cat":
        if how % 3 == 0:
            t["cats"] = list(s["cats"]) + ["zzz new"]
            t["prior"] = None
        elif how % 3 == 1 and len(s["cats"]) > 1:
            t["cats"] = list(s["cats"])[::-1]
            t["prior"] = s["prior"][::-1] if s["prior"] else None
        elif len(s["cats"]) > 1:
            n = len(s["cats"])
            p = list(s["prior"] or [1.0 / n] * n)
            p[0] = p[0] / 2
            p[1] = 1.0 - p[0] - sum(p[2:])
            t["prior"] = p
        else:
            t["cats"] = ["zzz other"]
        return t
    w = s["high"] - s["low"]
    big = max(w, 0.01 * abs(s["high"]) + 0.01 * abs(s["low"]), 1)
    if s["k"] == "int":
        big = int(big) + 1
    if how >= 12:
        # a little, or what is made of the numbers
        if how % 6 == 0 and s["k"] == "int":
            t["high"] = s["high"] + 1
        elif how % 6 == 1 and s["k"] == "int" and s["high"] - s["low"] > 1:
            t["low"] = s["low"] + 1
        elif how % 6 == 2 and s["k"] == "int" and s["prior"] == "uniform" \
                and s["low"] > 0:
            t["prior"] = "log-uniform"
        elif how % 6 == 3:
            t["tr"] = None if s["tr"] == "normalize" else "normalize"
        elif s["k"] == "real" and s["low"] > 0:
            t["low"] = s["low"] * (1 - [1e-3, .5, .9][how % 3])
        elif s["k"] == "real" and s["high"] < 0:
            t["high"] = s["high"] * (1 - [1e-3, .5, .9][how % 3])
        elif s["k"] == "real" and s["high"] > 0:
            t["high"] = s["high"] * (1 + [1e-3, .5, 9][how % 3])
        else:
            t["high"] = s["high"] + big
    elif how % 4 == 0:
        t["high"] = s["high"] + big
    elif how % 4 == 1 and s["prior"] == "uniform":
        t["low"] = s["low"] - big
    elif how % 4 == 2 and s["k"] == "real":
        if s["prior"] == "log-uniform":
            t["prior"] = "uniform"
        elif s["low"] > 0:
            t["prior"] = "log-uniform"
        else:
            t["high"] = s["high"] + big
    else:
        t = {"k": "cat", "cats": [s["low"], s["high"]], "prior": None,
             "tr": None, "name": None}
    return t


def t_equal(case, ctx):
    specs = case["dims"]
    a, b = G.make_space(specs), G.make_space(specs)
    need(a == b and b == a and not (a != b), "equal descriptions differ")
    for x, y in zip(a.dimensions, b.dimensions):
        need(x == y and not (x != y), "equal dimensions differ: %r", x)
    j = case["j"] % len(specs)
    t = changed(specs[j], case["how"])
    other = [dict(s) for s in specs]
    other[j] = t
    c = G.make_space(other)
    need(not (a.dimensions[j] == c.dimensions[j]),
         "dimension %r equals %r", specs[j], t)
    need(not (a == c) and not (c == a), "spaces equal although dimension %d "
         "is %r and %r", j, specs[j], t)
    longer = G.make_space(list(specs) + [specs[0]])
    need(not (a == longer) and not (longer == a),
         "a space equals one with an extra dimension")
    ctx.label("how:" + specs[j]["k"] + ":" + t["k"])
    ctx.nontrivial()


KW = dict(real_kw=dict(), int_kw=dict(),
          cat_kw=dict(kinds=("str", "int", "float", "bool", "mixed",
                            "tuple", "object")))


def strat_member():
    from hypothesis import strategies as st
    return G.space_spec(1, 5, big=True, **KW).flatmap(
        lambda d: st.fixed_dictionaries({
            "dims": st.just(d), "us": G.fracs(len(d)),
            "how": st.integers(0, 27)}))


def strat_distance():
    from hypothesis import strategies as st
    kw = dict(KW, real_kw=dict(dtypes=("float",) + tuple(G.REAL_DTYPES)),
              int_kw=dict(dtypes=("int64",) + tuple(G.INT_DTYPES)))
    return st.one_of(G.space_spec(1, 4, big=True, **KW),
                     G.space_spec(1, 4, **kw)).flatmap(
        lambda d: st.fixed_dictionaries({
            "dims": st.just(d), "typed": st.booleans(),
            "pts": st.lists(G.fracs(len(d)), min_size=3, max_size=3),
            "how": st.integers(0, 27)}))


def strat_equal():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dims": G.space_spec(1, 4, big=True, **KW), "j": st.integers(0, 5),
        "how": st.integers(0, 23)})


PROP = Prop("C05", [
    Sub("membership", strat_member, t_member, 1500, 30000, 3,
        "a space, a point of it and points with one component outside; "
        "non-trivial: two dimensions"),
    Sub("distance", strat_distance, t_distance, 1500, 30000, 3,
        "three points of a space and values outside; non-trivial: two "
        "dimensions and distinct points"),
    Sub("equality", strat_equal, t_equal, 1000, 20000, 2,
        "a space and the same with one dimension changed or added; all "
        "non-trivial"),
])
