"""C26 benchmark functions: their formulas and documented minima."""
import math

import numpy as np

from ..core import Prop, Sub, need

BRANIN_MIN = [(-math.pi, 12.275), (math.pi, 2.275), (9.42478, 2.475)]
H_MIN = [0.20169, 0.150011, 0.476874, 0.275332, 0.311652, 0.6573]
HA = [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14],
      [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]]
HP = [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991],
      [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]]
HC = [1.0, 1.2, 3.0, 3.2]


def own(name, x):
    if name in ("bench1", "bench1_with_time"):
        return x[0] * x[0]
    if name == "bench2":
        return x[0] * x[0] if x[0] < 0 else (x[0] - 5.0) * (x[0] - 5.0) - 5
    if name == "bench3":
        return math.sin(5 * x[0]) * (1 - math.tanh(x[0] * x[0]))
    if name == "bench4":
        return float(x[0]) ** 2
    if name == "bench5":
        return float(x[0]) ** 2 + x[1] * x[1]
    if name == "branin":
        b, c = 5.1 / (4 * math.pi ** 2), 5 / math.pi
        return (x[1] - b * x[0] * x[0] + c * x[0] - 6) ** 2 + \
            10 * (1 - 1 / (8 * math.pi)) * math.cos(x[0]) + 10
    t = 0.0
    for c, A, P in zip(HC, HA, HP):
        t -= c * math.exp(-sum(a * (u - p * 1e-4) ** 2
                               for a, u, p in zip(A, x, P)))
    return t


LEAST = {"bench1": (0.0, [[0.0]]), "bench2": (-5.0, [[5.0]]),
         "bench3": (-0.9, [[-0.3]]), "bench4": (0.0, [["0"]]),
         "bench5": (0.0, [["0", 0.0]]), "bench1_with_time": (0.0, [[0.0]]),
         "branin": (0.397887, [list(p) for p in BRANIN_MIN]),
         "hart6": (-3.32237, [H_MIN])}
SLACK = {"bench3": 0.02, "branin": 1e-5, "hart6": 1e-4}


def t_value(case, ctx):
    from skopt import benchmarks
    name = case["f"]
    f = getattr(benchmarks, name)
    x = list(case["x"])
    arg = {"list": list, "tuple": tuple}.get(case["as"], np.array)(x) \
        if name not in ("bench4", "bench5") else list(x)
    keep = list(x)
    got = f(arg)
    if name == "bench1_with_time":
        need(len(got) == 2 and got[1] == 2.22, "value and time %r", got)
        got = got[0]
    got = float(got)
    want = own(name, x)
    need(abs(got - want) <= 1e-9 * max(1.0, abs(want)), "%s(%r)=%r, by its "
         "formula %r", name, x, got, want)
    need(list(arg) == keep, "the point was changed")
    least, at = LEAST[name]
    e = SLACK.get(name, 1e-12)
    need(got >= least - e, "%s(%r)=%r is below its minimum %r", name, x, got,
         least)
    for m in at:
        v = f(m)
        v = float(v[0] if isinstance(v, tuple) else v)
        need(abs(v - least) <= e, "%s(%r)=%r, its documented minimum is %r",
             name, m, v, least)
    need(float(f(list(x))[0] if name == "bench1_with_time" else
               f(list(x))) == got, "two values of one point")
    ctx.label(name)
    ctx.nontrivial(want != 0)


def strat():
    from hypothesis import strategies as st
    r = st.floats(-10, 10, allow_nan=False).map(
        lambda v: 0.0 if abs(v) < 1e-100 else v)
    u = st.floats(0, 1, allow_nan=False)

    def xs(name):
        if name in ("bench4", "bench5"):
            s = st.integers(-9, 9).map(str)
            return st.tuples(s).map(list) if name == "bench4" else \
                st.tuples(s, r).map(list)
        if name == "branin":
            return st.tuples(st.floats(-5, 10), st.floats(0, 15)).map(list)
        if name == "hart6":
            return st.one_of(st.lists(u, min_size=6, max_size=6), st.tuples(
                *[st.floats(m - 0.1, m + 0.1) for m in H_MIN]).map(list))
        return st.tuples(r).map(list)
    return st.sampled_from(sorted(LEAST)).flatmap(
        lambda n: st.fixed_dictionaries({
            "f": st.just(n), "x": xs(n),
            "as": st.sampled_from(["list", "tuple", "array"])}))


PROP = Prop("C26", [
    Sub("value", strat, t_value, 4000, shards=4,
        rule="a benchmark at a point of its domain, with a value other than "
        "zero"),
])
