"""C07 the structure each initial design promises."""
import itertools
import math

import numpy as np

from .. import gens as G
from .. import sobol_ref
from ..core import Prop, Sub, need
from .c06 import make_gen

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61,
          67, 71]


def coords(case, n):
    """The design in unit coordinates (numerical dimensions)."""
    specs = case["dims"]
    dims = G.make_dims(specs)
    X = make_gen(case["gen"]).generate(dims, n, random_state=case["seed"])
    need(len(X) == n, "asked %d points, got %d", n, len(X))
    U = np.array([[G.unit(s, v) for s, v in zip(specs, p)] for p in X],
                 dtype=float).reshape(n, len(specs))
    return U


def tol_of(specs):
    """Resolution of the unit coordinate of each dimension."""
    out = []
    for s in specs:
        if s["prior"] == "log-uniform":
            r = math.log(s["high"]) - math.log(s["low"])
            out.append(1e-9 + 1e-13 / r)
        else:
            out.append(1e-9 + 1e-15 * max(abs(s["low"]), abs(s["high"])) /
                       (s["high"] - s["low"]))
    return np.array(out)


def t_lhs(case, ctx):
    n, g = case["n"], case["gen"]
    specs = case["dims"]
    U = coords(case, n)
    tol = tol_of(specs) * 4
    for j in range(len(specs)):
        u = np.sort(U[:, j])
        k = np.arange(n)
        need(np.all(u >= k / n - tol[j]) and np.all(u <= (k + 1) / n + tol[j]),
             "dimension %d: not one point per stratum: %r", j, u.tolist())
        if g["type"] == "centered":
            need(np.all(abs(u - (k + 0.5) / n) <= tol[j]),
                 "dimension %d: not centred: %r", j, u.tolist())
    ctx.label("crit:%s" % g["crit"], "type:%s" % g["type"])
    ctx.nontrivial(n > 2 and len(specs) > 1)
    if g["crit"] is None or not g["it"] or n < 2:
        return
    # a criterion picks the best of the designs drawn
    rng = np.random.RandomState(case["seed"])
    free = dict(g, crit=None)
    best = None
    for i in range(g["it"] + 1):
        C = coords(dict(case, gen=free, seed=rng), n)
        if i:
            b = merit(g["crit"], C)
            best = b if best is None else max(best, b)
    got = merit(g["crit"], U)
    slack = 1e-6 * max(1, abs(best))
    if g["crit"] == "ratio":
        slack += best ** 2 * 100 * max(tol)
    need(got >= best - slack, "%s: the design has %r, one "
         "of the %d designs drawn has %r", g["crit"], got, g["it"], best)


def merit(crit, U):
    """What the criterion asks for; the more the better."""
    if crit == "correlation":
        if U.shape[1] < 2:
            return 0.
        r = np.corrcoef(U.T) - np.eye(U.shape[1])
        return -float(np.max(np.abs(r)))
    d = np.sqrt(((U[:, None] - U[None]) ** 2).sum(axis=2))[
        np.triu_indices(len(U), 1)]
    if crit == "maximin":
        return float(d.min())
    return -float(d.max() / d.min())


def radical_inverse(i, b):
    x, f = 0.0, 1.0 / b
    while i > 0:
        x += (i % b) * f
        i //= b
        f /= b
    return x


def match(U, R, tol):
    d = np.abs(U - R)
    d = np.minimum(d, 1e9)
    return np.all(d <= tol)


def t_halton(case, ctx):
    n, g, specs = case["n"], case["gen"], case["dims"]
    d = len(specs)
    U = coords(case, n)
    tol = tol_of(specs) * 4
    primes = list(g["primes"]) if g.get("primes") \
        and len(g["primes"]) >= (
            d - 1 if g["k"] == "hammersly" and d > 1 else d) else PRIMES
    lo, hi = g["lo"], g["hi"]
    skips = [lo] if lo == hi else range(lo, hi)
    if hi < 0 or lo < 0:         # not specified which: any start will do
        skips = range(0, 120)

    def ref(skip):
        R = np.zeros((n, d))
        for j in range(d):
            for i in range(n):
                if g["k"] == "hammersly" and d > 1 and j == d - 1:
                    R[i, j] = i / n
                else:
                    R[i, j] = radical_inverse(i + skip, primes[j])
        return R
    need(any(match(U, ref(k), tol) for k in skips),
         "%s: no skip in [%d, %d] gives %r; first expected %r", g["k"], lo, hi,
         U[:4].tolist(), ref(lo)[:4].tolist())
    ctx.label(g["k"], "skip" if lo != hi else "fixed", "dims:%d" % d)
    ctx.nontrivial(n > 2)


def t_sobol(case, ctx):
    n, g, specs = case["n"], case["gen"], case["dims"]
    d = len(specs)
    if g["skip"]:
        n = min(n, g["skip"])
    U = coords(dict(case, gen=g), n)
    R = np.array([sobol_ref.point(g["skip"] + i, d) for i in range(n)])
    tol = tol_of(specs) * 4
    if not g["rand"]:
        need(match(U, R, tol), "not the Sobol sequence: %r, expected %r",
             U[:5].tolist(), R[:5].tolist())
    else:
        # one random shift per dimension, modulo 1
        s = (U - R) % 1.0
        for j in range(d):
            a = np.exp(2j * np.pi * s[:, j])
            need(np.all(abs(a - a[0]) <= 20 * tol[j]),
                 "dimension %d: not a shift of the Sobol sequence: %r", j,
                 s[:6, j].tolist())
        if d > 1:
            need(len(set(np.round(s[0], 9))) > 1, "one shift for all")
    # balance: 2^m points put one in each of the 2^m intervals
    m = int(math.log2(n)) if n else 0
    if not g["rand"] and n and (1 << m) == n:
        for j in range(d):
            k = np.floor(U[:, j] * n + 1e-6).astype(int)
            need(sorted(k) == list(range(n)), "dimension %d unbalanced", j)
        ctx.label("balanced")
    ctx.label("rand:%s" % g["rand"], "skip:%d" % g["skip"])
    ctx.nontrivial(n > 2)


def levels(u, tol):
    v = [u[0]]
    for x in np.sort(u):
        if x - v[-1] > tol:
            v.append(x)
    return v


def t_grid(case, ctx):
    g, specs = case["gen"], case["dims"]
    d = len(specs)
    tol = float(max(tol_of(specs))) * 8
    order = case["order"]
    if g["border"] == "only":
        n = order * 2 ** (d - 1)
    else:
        n = order ** d
    if n > 150:
        n = order = 0
        order = 3 if d < 4 else 2
        n = order * 2 ** (d - 1) if g["border"] == "only" else order ** d
    U = coords(case, n)

    def grid(axes):
        return np.array(list(itertools.product(*axes)))
    inner = [(i + 1) / (order + 1.) for i in range(order)]
    full = [i / (order - 1.) for i in range(order)] if order > 1 else None
    if g["border"] == "exclude":
        R = grid([inner] * d)
    elif g["border"] == "include":
        R = grid([full] * d)
    else:
        R = None
    ctx.label("border:" + g["border"], "d:%d" % d)
    ctx.nontrivial(n > 2)
    if R is not None:
        # exactly the full factorial design, whatever the order of the rows
        A = np.array(sorted(map(tuple, np.round(U, 7))))
        B = np.array(sorted(map(tuple, np.round(R, 7))))
        need(A.shape == B.shape and np.allclose(A, B, atol=max(2e-7, tol)),
             "%d points are not the full factorial design: %r", n,
             A.tolist()[:6])
    elif d > 1:
        on = np.any((U <= tol) | (U >= 1 - tol), axis=1)
        need(np.all(on), "points off the border: %r",
             U[~on][:3].tolist())
        need(len({tuple(r) for r in np.round(U, 7)}) == n, "repeated points")
    # any size: the base grid is complete and the rest is appended
    n2 = case["n"]
    U2 = coords(case, n2)
    if g["full"] and g["border"] != "only" and n2 > 0:
        k = int(round(n2 ** (1.0 / d)))
        while k ** d > n2:
            k -= 1
        k = max(k, 2 if g["border"] == "include" else 1)
        if k ** d <= n2:
            ax = [(i + 1) / (k + 1.) for i in range(k)] \
                if g["border"] == "exclude" else \
                [i / (k - 1.) for i in range(k)]
            have = {tuple(r) for r in np.round(U2, 6)}
            for r in grid([ax] * d):
                need(any(np.allclose(r, h, atol=2e-6 + tol) for h in have),
                     "grid point %r of the full layout is missing",
                     r.tolist())
            rest = [tuple(r) for r in U2]
            for r in grid([ax] * d):
                far = [np.max(abs(r - h)) for h in rest]
                rest.pop(int(np.argmin(far)))
            rest = np.array(rest).reshape(-1, d)
            if len(rest):
                appended(rest, g["append"], tol)
                ctx.label("append:" + g["append"])
    elif g["border"] == "exclude" and n2 > 0:
        need(np.all(U2 > tol) and np.all(U2 < 1 - tol),
             "border points although the border is excluded")
    if not g["full"] and g["border"] != "only" and n2 > 0:
        # distinct points of the next larger full design
        k = 1
        while k ** d < n2:
            k += 1
        if g["border"] == "include":
            k = max(k, 2)
            ax = np.arange(k) / (k - 1.)
        else:
            ax = np.arange(1, k + 1) / (k + 1.)
        off = np.min(abs(U2[:, :, None] - ax[None, None, :]), axis=2)
        need(np.all(off <= tol + 1e-9), "points that are not of the grid of "
             "order %d: %r", k, U2[np.any(off > tol + 1e-9, axis=1)][:3])
        if tol * k < 0.1:
            ix = np.argmin(abs(U2[:, :, None] - ax[None, None, :]), axis=2)
            need(len({tuple(r) for r in ix}) == n2, "repeated points")
        ctx.label("next larger")


def appended(rest, border, tol):
    """What fills up a grid is part of another one."""
    n, d = rest.shape
    if border == "only":
        on = np.any((rest <= tol) | (rest >= 1 - tol), axis=1)
        need(d == 1 or np.all(on), "appended points off the border: %r",
             rest[~on][:3].tolist())
        need(d == 1 or np.all((rest[:, :-1] <= tol) |
                              (rest[:, :-1] >= 1 - tol)) or tol > .01,
             "appended points off the corners: %r", rest[:3].tolist())
        k = max(2, int(np.ceil(n / 2. ** (d - 1))))
    else:
        k = 1
        while k ** d < n:
            k += 1
    if border == "exclude":
        need(np.all(rest > tol) and np.all(rest < 1 - tol), "appended points "
             "on the border: %r", rest[:3].tolist())
        ax = np.arange(1, k + 1) / (k + 1.)
    else:
        k = max(k, 2)
        ax = np.arange(k) / (k - 1.)
    off = np.min(abs(rest[:, :, None] - ax[None, None, :]), axis=2)
    need(np.all(off <= tol + 1e-9), "appended points not of a grid of order "
         "%d: %r", k, rest[:3].tolist())
    if tol * k < 0.1:
        ix = np.argmin(abs(rest[:, :, None] - ax[None, None, :]), axis=2)
        need(len({tuple(r) for r in ix}) == n, "points appended repeatedly")


def _real():
    return G.real_spec(wide=False)


def strat_lhs():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dims": st.lists(_real(), min_size=1, max_size=4),
        "gen": st.fixed_dictionaries({
            "k": st.just("lhs"),
            "type": st.sampled_from(["classic", "centered"]),
            "crit": st.sampled_from([None, "maximin", "ratio",
                                     "correlation"]),
            "it": st.integers(0, 10)}),
        "n": st.integers(1, 30), "seed": G.seeds()})


def strat_halton():
    from hypothesis import strategies as st

    @st.composite
    def build(draw):
        k = draw(st.sampled_from(["halton", "hammersly"]))
        lo = draw(st.integers(0, 30))
        hi = draw(st.one_of(st.just(lo), st.integers(lo + 1, lo + 8)))
        if draw(st.integers(0, 9)) == 9:
            lo, hi = draw(st.sampled_from([(-1, -2), (-1, 3), (2, -1)]))
        return {"dims": draw(st.lists(_real(), min_size=1, max_size=8)),
                "gen": {"k": k, "lo": lo, "hi": hi,
                        "primes": draw(st.one_of(
                            st.none(), st.permutations([2, 3, 5, 7, 11])))},
                "n": draw(st.one_of(st.integers(1, 20),
                                    st.integers(1, 150))),
                "seed": draw(G.seeds())}
    return build()


def strat_sobol():
    from hypothesis import strategies as st

    @st.composite
    def build(draw):
        d = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
        base = draw(st.lists(_real(), min_size=1, max_size=3))
        return {"dims": [base[i % len(base)] for i in range(d)],
                "gen": {"k": "sobol", "rand": draw(st.booleans()),
                        "skip": draw(st.sampled_from([0, 0, 1, 2, 16, 64, 128, 512]))},
                "n": draw(st.one_of(
                    st.integers(1, 40), st.sampled_from([2, 4, 8, 16, 32, 64,
                                                         128]))),
                "seed": draw(G.seeds())}
    return build()


def strat_grid():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "dims": st.lists(_real(), min_size=1, max_size=4),
        "gen": st.fixed_dictionaries({
            "k": st.just("grid"),
            "border": st.sampled_from(["include", "exclude", "only"]),
            "full": st.booleans(),
            "append": st.sampled_from(["include", "exclude", "only"])}),
        "order": st.integers(2, 6), "n": st.integers(1, 40),
        "seed": G.seeds()})


PROP = Prop("C07", [
    Sub("lhs", strat_lhs, t_lhs, 600, 10000, 3,
        "Latin hypercube designs over 1-4 real dimensions; non-trivial: 3 "
        "points in 2 dimensions"),
    Sub("halton", strat_halton, t_halton, 600, 10000, 2,
        "Halton and Hammersley designs against radical inverses; "
        "non-trivial: 3 points"),
    Sub("sobol", strat_sobol, t_sobol, 400, 8000, 3,
        "Sobol designs in 1-40 dimensions against a reference sequence; "
        "non-trivial: 3 points"),
    Sub("grid", strat_grid, t_grid, 500, 10000, 2,
        "grid designs in 1-4 dimensions; non-trivial: 3 points"),
])
