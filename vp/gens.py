"""Generators shared by the properties: search spaces, points, objectives.

A dimension is a JSON dict:
  {"k": "real", "low", "high", "prior", "base", "tr", "dtype", "name"}
  {"k": "int",  "low", "high", "prior", "base", "tr", "dtype", "name"}
  {"k": "cat",  "cats": [...], "prior": [...] | None, "tr", "name"}
A point is given by *fractions*: one number in [0, 1] per dimension, decoded by
`decode_point` (so points shrink and are members of the space by construction).
"""
import math

import numpy as np

REAL_DTYPES = ["float", "T:float", "float64", "T:float64", "float32",
               "T:float32", "float16", "T:float16"]
INT_DTYPES = ["int", "T:int", "int64", "T:int64", "int32", "T:int32", "int16",
              "T:int16", "uint32", "T:uint32", "uint8", "T:uint8", "int8",
              "T:int8", "uint16", "uint64", "T:uint64"]


def as_dtype(d):
    if d is None or not d.startswith("T:"):
        return d
    n = d[2:]
    return {"float": float, "int": int}.get(n) or getattr(np, n)


def make_dim(s):
    from skopt.space import Categorical, Integer, Real
    kw = {}
    if s.get("tr") is not None:
        kw["transform"] = s["tr"]
    if s.get("name") is not None:
        kw["name"] = s["name"]
    if s["k"] == "cat":
        return Categorical([_cat(c) for c in s["cats"]], prior=s.get("prior"),
                           **kw)
    if s.get("dtype") is not None:
        kw["dtype"] = as_dtype(s["dtype"])
    if s.get("prior") is not None:
        kw["prior"] = s["prior"]
    if s.get("base") is not None:
        kw["base"] = s["base"]
    cls = Real if s["k"] == "real" else Integer
    return cls(s["low"], s["high"], **kw)


class Seq:
    """A category with a length and items, as a pipeline of estimators."""

    def __init__(self, k):
        self.k = k

    def __len__(self):
        return self.k

    def __getitem__(self, i):
        if i >= self.k:
            raise IndexError(i)
        return "step%d" % i

    def __repr__(self):
        return "Seq(%d)" % self.k

    def __reduce__(self):
        return _seq, (self.k,)

    def __deepcopy__(self, memo):
        return self


_SEQS = {}


def _seq(k):
    return _SEQS.setdefault(k, Seq(k))


def _cat(c):
    if isinstance(c, dict) and "t" in c:
        return tuple(_cat(x) for x in c["t"])
    if isinstance(c, dict) and "o" in c:
        return _seq(c["o"])
    return c


def cats_of(s):
    return [_cat(c) for c in s["cats"]]


def make_dims(specs):
    return [make_dim(s) for s in specs]


def make_space(specs):
    from skopt.space import Space
    return Space(make_dims(specs))


def transformed_size(s, tr=None):
    tr = tr or s.get("tr") or ("onehot" if s["k"] == "cat" else "identity")
    if s["k"] == "cat" and tr == "onehot":
        n = len(s["cats"])
        return n if n != 2 else 1
    return 1


def decode(s, u):
    """The member of dimension `s` at fraction `u` (own arithmetic)."""
    u = min(1.0, max(0.0, float(u)))
    if s["k"] == "cat":
        cs = cats_of(s)
        return cs[min(len(cs) - 1, int(u * len(cs)))]
    lo, hi = s["low"], s["high"]
    if s["k"] == "int":
        if s.get("prior") == "log-uniform":
            v = int(round(math.exp(
                math.log(lo) + u * (math.log(hi) - math.log(lo)))))
        else:
            v = lo + int(u * (hi - lo + 1))
        return max(lo, min(hi, v))
    if u == 0.0:
        return lo
    if u == 1.0:
        return hi
    if s.get("prior") == "log-uniform":
        v = math.exp(math.log(lo) + u * (math.log(hi) - math.log(lo)))
    else:
        v = lo + u * (hi - lo)
    return max(float(lo), min(float(hi), v))


def decode_point(specs, us):
    return [decode(s, u) for s, u in zip(specs, us)]


def member(s, v, strict_type=True):
    """Own membership test: is v a value of dimension s, of the right kind?"""
    if s["k"] == "cat":
        for c in cats_of(s):
            if type(v) is type(c) and v == c:
                return True
            if isinstance(v, np.generic) and not isinstance(c, tuple) \
                    and v.item() == c and type(v.item()) is type(c):
                return True
        return False
    if isinstance(v, (bool, np.bool_)):
        return False
    if s["k"] == "int":
        if strict_type and not isinstance(v, (int, np.integer)):
            return False
        return s["low"] <= v <= s["high"] and v == int(v)
    if not isinstance(v, (int, float, np.floating, np.integer)):
        return False
    if strict_type and not isinstance(v, (float, np.floating)):
        return False
    return bool(s["low"] <= v <= s["high"])


def same_value(a, b):
    """Equal as parameter values (numpy scalars equal to Python ones)."""
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, float) and isinstance(b, float) \
            and math.isnan(a) and math.isnan(b):
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def same_point(p, q):
    return len(p) == len(q) and all(same_value(a, b) for a, b in zip(p, q))


def same_points(P, Q):
    return len(P) == len(Q) and all(same_point(p, q) for p, q in zip(P, Q))


# Two runs of the same arithmetic can differ in the last bits (SIMD loops of
# numpy treat data by its alignment), so runs are compared up to rounding.

def close_value(a, b):
    if same_value(a, b):
        return True
    num = (int, float, np.integer, np.floating)
    if isinstance(a, num) and isinstance(b, num) and not (
            isinstance(a, (int, np.integer)) and
            isinstance(b, (int, np.integer))):
        return bool(abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-12)
    return False


def close_point(p, q):
    return len(p) == len(q) and all(close_value(a, b) for a, b in zip(p, q))


def close_points(P, Q):
    return len(P) == len(Q) and all(close_point(p, q) for p, q in zip(P, Q))


def close_arr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fiu" and b.dtype.kind in "fiu":
        return bool(np.allclose(a, b, rtol=1e-7, atol=1e-12, equal_nan=True))
    return bool(np.array_equal(a, b))


def plain(v):
    """JSON-able copy of a value or nested list of values."""
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


# --------------------------------------------------------------- objectives

def unit(s, v):
    """Position of v in dimension s as a number in [0, 1] (own arithmetic)."""
    if s["k"] == "cat":
        cs = cats_of(s)
        for i, c in enumerate(cs):
            if same_value(c, v):
                return i / max(1, len(cs) - 1)
        return 0.5
    lo, hi = float(s["low"]), float(s["high"])
    v = float(v)
    if s.get("prior") == "log-uniform":
        return (math.log(v) - math.log(lo)) / (math.log(hi) - math.log(lo))
    return (v - lo) / (hi - lo)


def objective(specs, spec):
    """Deterministic objective from a JSON spec
    {"kind": ..., "c": [centre fractions], "s": scale, "o": offset}."""
    kind = spec.get("kind", "quad")
    cs = spec.get("c") or [0.3]
    sc = spec.get("s", 1.0)
    of = spec.get("o", 0.0)

    def f(x):
        us = [unit(s, v) for s, v in zip(specs, x)]
        if kind == "quad":
            t = sum((u - cs[i % len(cs)]) ** 2 for i, u in enumerate(us))
        elif kind == "wave":
            t = sum(math.sin(7 * u + 3 * cs[i % len(cs)]) + 0.3 * u
                    for i, u in enumerate(us))
        elif kind == "step":
            t = sum(math.floor(4 * abs(u - cs[i % len(cs)]))
                    for i, u in enumerate(us))
        elif kind == "const":
            t = 0.0
        else:                              # "lin"
            t = sum(u * (1 + i) for i, u in enumerate(us))
        return float(of + sc * t)
    return f


# --------------------------------------------------------------- strategies

def _st():
    from hypothesis import strategies as st
    return st


def fracs(n=None, edge=True):
    st = _st()
    f = st.floats(0, 1, allow_nan=False, width=32)
    if edge:
        f = st.one_of(f, st.sampled_from([0.0, 1.0, 0.5]))
    return f if n is None else st.lists(f, min_size=n, max_size=n)


def real_spec(transforms=(None, "identity", "normalize"), dtypes=("float",),
              wide=True, named=False, bases=(10, 2, 3, 7)):
    st = _st()

    @st.composite
    def build(draw):
        prior = draw(st.sampled_from(["uniform", "log-uniform"]))
        dt = draw(st.sampled_from(list(dtypes))) if len(dtypes) > 1 \
            else dtypes[0]
        half = dt is not None and "16" in dt
        single = dt is not None and "32" in dt
        if prior == "log-uniform":
            m = 4 if half else (12 if wide else 3)
            a = draw(st.one_of(st.integers(-m, m),
                               st.floats(-m, m, allow_nan=False, width=32)))
            w = draw(st.floats(0.25, 4 if half else (10 if wide else 4),
                               width=32))
            lo = float(10.0 ** a)
            hi = float(lo * 10.0 ** w)
            if half:
                lo, hi = max(lo, 1e-4), min(hi, 6e4)
                if not hi > lo * 1.1:
                    hi = lo * 10
                    lo, hi = min(lo, 6e3), min(hi, 6e4)
        else:
            m = 3 if half else (9 if wide else 2)
            lo = draw(st.one_of(
                st.integers(-5, 5).map(float),
                st.floats(-1, 1, width=32).map(
                    lambda v, m=m: float(v) * 10 ** m),
                st.floats(-3, 3, width=32).map(float)))
            w = draw(st.one_of(
                st.integers(1, 10).map(float),
                st.floats(-3, m, width=32).map(lambda e: float(10.0 ** e))))
            hi = lo + w
            if half or single:
                eps = 1e-2 if half else 1e-5
                # keep the bounds distinct at the precision of the type
                w = max(w, eps * max(abs(lo), 1e-3) * 8)
                hi = lo + w
                if half:
                    hi = min(hi, 6e4)
            if not hi > lo + 1e-9 * abs(lo):
                hi = lo + max(1.0, abs(lo))
        s = {"k": "real", "low": lo, "high": hi, "prior": prior,
             "base": draw(st.sampled_from(list(bases)))
             if prior == "log-uniform" else 10,
             "tr": draw(st.sampled_from(list(transforms))), "dtype": dt,
             "name": None}
        return s
    return build()


def int_spec(transforms=(None, "identity", "normalize"),
             dtypes=("T:int64",), wide=True, bases=(10, 2, 3, 7)):
    st = _st()

    @st.composite
    def build(draw):
        prior = draw(st.sampled_from(["uniform", "log-uniform"]))
        dt = draw(st.sampled_from(list(dtypes))) if len(dtypes) > 1 \
            else dtypes[0]
        lim_lo, lim_hi = -10 ** 6, 10 ** 6
        if wide and draw(st.integers(0, 5)) == 5:
            lim_lo, lim_hi = -10 ** 11, 10 ** 11
        if not wide:
            lim_lo, lim_hi = -50, 50
        if dt is not None:
            n = dt.replace("T:", "")
            if n != "int":
                info = np.iinfo(n)
                lim_lo = max(lim_lo, int(info.min))
                lim_hi = min(lim_hi, int(info.max))
        if prior == "log-uniform":
            lim_lo = 1
        lo = draw(st.one_of(st.integers(max(lim_lo, -5), min(5, lim_hi - 1)),
                            st.integers(lim_lo, lim_hi - 1)))
        hi = draw(st.one_of(
            st.integers(lo + 1, min(lim_hi, lo + 12)),
            st.integers(lo + 1, lim_hi)))
        return {"k": "int", "low": lo, "high": hi, "prior": prior,
                "base": draw(st.sampled_from(list(bases)))
                if prior == "log-uniform" else 10,
                "tr": draw(st.sampled_from(list(transforms))), "dtype": dt,
                "name": None}
    return build()


CAT_POOLS = {
    "str": ["a", "b", "c", "dd", "Cat", "x y", "", "1", "é", "zz", "k0",
            "k1", "k2"],
    "int": [0, 1, 2, 3, 5, -1, 10, 100, 7, 8, 9, 11],
    "float": [0.5, 1.5, -2.25, 1e-3, 1e6, 3.0, 0.1, 0.2, 0.3],
    "bool": [False, True],
    "mixed": ["a", 1, 2.5, None, "b", False, 7, "1", -3],
    "none": [None, "a", "b", "c"],
    "tuple": [{"t": [10]}, {"t": [10, 10]}, {"t": [5, 5]}, {"t": [5]},
              {"t": []}, {"t": ["a", 1]}, {"t": [1, {"t": [2, 3]}]},
              {"t": [100, 50, 20]}],
    "object": [{"o": k} for k in range(5)] + [None, "a"],
}


def cat_spec(transforms=(None, "onehot", "label", "string", "identity",
                         "normalize"),
             kinds=("str", "int", "float", "bool"), max_cats=8, min_cats=1,
             priors=True):
    st = _st()

    @st.composite
    def build(draw):
        kind = draw(st.sampled_from(list(kinds)))
        pool = CAT_POOLS[kind]
        if max_cats >= 8 and kind in ("str", "int", "float") and \
                draw(st.integers(0, 9)) == 9:
            # many categories, in no particular order
            n = draw(st.integers(9, 30))
            step = draw(st.sampled_from([1, 7, 11]))
            ks = [(k * step) % 37 - 4 for k in range(n)]
            cats = [{"str": "v%d" % k, "int": k, "float": k / 4.0}[kind]
                    for k in ks]
        else:
            cats = draw(st.lists(
                st.sampled_from(pool), min_size=min(min_cats, len(pool)),
                max_size=min(max_cats, len(pool)), unique_by=repr))
        prior = None
        if priors and len(cats) > 1 and draw(st.booleans()):
            w = draw(st.lists(st.integers(1, 9), min_size=len(cats),
                              max_size=len(cats)))
            tot = float(sum(w))
            prior = [x / tot for x in w]
        return {"k": "cat", "cats": cats, "prior": prior,
                "tr": draw(st.sampled_from(list(transforms))), "name": None}
    return build()


def dim_spec(real=True, integer=True, cat=True, **kw):
    st = _st()
    opts = []
    if real:
        opts.append(real_spec(**kw.get("real_kw", {})))
    if integer:
        opts.append(int_spec(**kw.get("int_kw", {})))
    if cat:
        opts.append(cat_spec(**kw.get("cat_kw", {})))
    return st.one_of(*opts)


def space_spec(min_dims=1, max_dims=4, unique_names=False, big=False, **kw):
    st = _st()
    few = st.lists(dim_spec(**kw), min_size=min_dims, max_size=max_dims)
    if not big:
        return few
    # now and then a space of many dimensions
    many = st.lists(dim_spec(**kw), min_size=7, max_size=14)
    return st.integers(0, 11).flatmap(lambda k: many if k == 11 else few)


def small_space(min_dims=1, max_dims=3, cat=True, integer=True, real=True,
                min_size=1):
    """Well-scaled spaces for optimiser runs (default transforms)."""
    return space_spec(
        min_dims, max_dims, real=real, integer=integer, cat=cat,
        real_kw=dict(transforms=(None,), wide=False),
        int_kw=dict(transforms=(None,), wide=False),
        cat_kw=dict(transforms=(None,), max_cats=4, min_cats=2,
                    kinds=("str", "int", "bool") * 2 + ("tuple",))
    ).map(plain_first)


def plain_first(dims):
    """A point whose first value is a tuple would look like a list of
    points."""
    if not dims or not is_seq(dims[0]):
        return dims
    for j, s in enumerate(dims):
        if not is_seq(s):
            return [s] + dims[:j] + dims[j + 1:]
    cats = dims[0]["cats"]
    return [dict(dims[0], cats=["a", "b", "c", "d", "e", "f", "g", "h"][
        :len(cats)])] + dims[1:]


def is_seq(s):
    return s["k"] == "cat" and any(isinstance(c, dict) for c in s["cats"])


def objective_spec():
    st = _st()
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["quad", "wave", "lin", "step", "const"]),
        "c": st.lists(st.floats(0, 1, width=16), min_size=1, max_size=3),
        "s": st.sampled_from([1.0, 0.01, 100.0, -1.0]),
        "o": st.sampled_from([0.0, 1.0, -3.0, 1000.0])})


def seeds():
    return _st().integers(0, 2 ** 20)
