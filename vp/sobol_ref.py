"""Reference Sobol' sequence (Bratley and Fox, ACM TOMS Algorithm 659), in
Antonov-Saleev (Gray code) order, computed directly from its definition:
point k is the XOR of the direction numbers selected by the Gray code of k."""

POLY = [1, 3, 7, 11, 13, 19, 25, 37, 59, 47, 61, 55, 41, 67, 97, 91, 109, 103,
        115, 131, 193, 137, 145, 143, 241, 157, 185, 167, 229, 171, 213, 191,
        253, 203, 211, 239, 247, 285, 369, 299]

_COLS = [
    (0, [1] * 40),
    (2, [1, 3, 1, 3, 1, 3, 3, 1, 3, 1, 3, 1, 3, 1, 1, 3, 1, 3, 1, 3, 1, 3, 3,
         1, 3, 1, 3, 1, 3, 1, 1, 3, 1, 3, 1, 3, 1, 3]),
    (3, [7, 5, 1, 3, 3, 7, 5, 5, 7, 7, 1, 3, 3, 7, 5, 1, 1, 5, 3, 3, 1, 7, 5,
         1, 3, 3, 7, 5, 1, 1, 5, 7, 7, 5, 1, 3, 3]),
    (5, [1, 7, 9, 13, 11, 1, 3, 7, 9, 5, 13, 13, 11, 3, 15, 5, 3, 15, 7, 9,
         13, 9, 1, 11, 7, 5, 15, 1, 15, 11, 5, 3, 1, 7, 9]),
    (7, [9, 3, 27, 15, 29, 21, 23, 19, 11, 25, 7, 13, 17, 1, 25, 29, 3, 31,
         11, 5, 23, 27, 19, 21, 5, 1, 17, 13, 7, 15, 9, 31, 9]),
    (13, [37, 33, 7, 5, 11, 39, 63, 27, 17, 15, 23, 29, 3, 21, 13, 31, 25, 9,
          49, 33, 19, 29, 11, 19, 27, 15, 25]),
    (19, [13, 33, 115, 41, 79, 17, 29, 119, 75, 73, 105, 7, 59, 65, 21, 3,
          113, 61, 89, 45, 107]),
    (37, [7, 23, 39]),
]
BITS = 30


def directions(dim):
    """Direction numbers v[1..BITS] of one dimension, as BITS-bit integers."""
    if dim == 0:
        m = [1] * BITS
    else:
        poly = POLY[dim]
        s = poly.bit_length() - 1
        m = []
        for j, (start, col) in enumerate(_COLS):
            if j < s and dim >= start:
                m.append(col[dim - start])
        m = m[:s]
        assert len(m) == s, (dim, s, m)
        a = [(poly >> (s - k)) & 1 for k in range(1, s + 1)]  # a1..as
        for j in range(s, BITS):
            new = m[j - s]
            for k in range(1, s + 1):
                if a[k - 1]:
                    new ^= (1 << k) * m[j - k]
            m.append(new)
    return [mj << (BITS - 1 - j) for j, mj in enumerate(m)]


_CACHE = {}


def point(k, n_dim):
    gray = k ^ (k >> 1)
    out = []
    for d in range(n_dim):
        if d not in _CACHE:
            _CACHE[d] = directions(d)
        v = _CACHE[d]
        x = 0
        j = 0
        g = gray
        while g:
            if g & 1:
                x ^= v[j]
            g >>= 1
            j += 1
        out.append(x / float(1 << BITS))
    return out
