"""Reference definitions of (co-)moment and energy statistics, written with plain loops."""
import math
import numpy as np


def loc(v, trim=0.0, center="mean"):
    s = sorted(float(x) for x in np.asarray(v, float).ravel())
    n = len(s)
    if center == "median":
        return s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])
    k = int(trim * n)
    s = s[k:n - k]
    return math.fsum(s) / len(s)


def trim_ok(n, t):
    return abs(t * n - round(t * n)) > 1e-9 or int(t * n) == round(t * n)


def raw(x, y, a, b, trim=0.0):
    """(trimmed) mean of (x-loc)^a (y-loc)^b"""
    mx, my = loc(x, trim), loc(y, trim)
    return loc([(u - mx) ** a * (v - my) ** b for u, v in zip(x, y)], trim)


def bc_n(n, trim):
    return round(n * (1 - trim))


def second(x, y, trim, bc):
    N = bc_n(len(x), trim)
    return raw(x, y, 1, 1, trim) * (N / (N - 1.0) if bc else 1.0)


def comoment(x, y, order, option, trim, bc):
    N = bc_n(len(x), trim)
    if order == 1:
        return loc(x, trim)
    if order == 2:
        return second(x, y, trim, bc)
    m = raw(x, y, order - option, option, trim)
    if bc:
        den = {3: (N - 1.0) * (N - 2.0), 4: (N - 2.0) * (N - 3.0)}[order]
        m *= N * N / den
    return m


def stat(mode, x, y=None, center="mean", trim=0.0, bc=False, order=2, option=1, alpha=1.0, standardized=None, Fisher=True):
    x = [float(v) for v in np.asarray(x).ravel()]
    y = None if y is None else [float(v) for v in np.asarray(y).ravel()]
    N = bc_n(len(x), trim)
    if mode in ("std", "skew", "kurt", "cos", "cok", "M3"):
        center = "mean"
    if center == "median":
        return _median_stat(mode, x, y, order)
    if mode in ("mom", "com"):
        return comoment(x, x if mode == "mom" else y, order, option, trim, bc)
    if mode == "var":
        return second(x, x, trim, bc)
    if mode == "cov":
        return second(x, y, trim, bc)
    if mode == "std":
        return math.sqrt(second(x, x, trim, bc))
    if mode == "skew":
        g = raw(x, x, 3, 0, trim) / raw(x, x, 2, 0, trim) ** 1.5
        return g * math.sqrt(N * (N - 1.0)) / (N - 2.0) if bc else g
    if mode == "kurt":
        g = raw(x, x, 4, 0, trim) / raw(x, x, 2, 0, trim) ** 2
        if not bc:
            return g
        d = (N - 2.0) * (N - 3.0)
        return ((N * N - 1.0) * g - 3 * (N - 1.0) ** 2) / d + (0 if Fisher else 3)
    if mode in ("cos", "M3", "cok"):
        o = 4 if mode == "cok" else 3
        if standardized is None:
            standardized = mode != "M3"
        m = comoment(x, y, o, option, trim, bc)
        if standardized and mode != "M3":
            sb = bc and mode == "cos"
            m /= math.sqrt(second(x, x, trim, sb)) ** (o - option) * math.sqrt(second(y, y, trim, sb)) ** option
            if mode == "cok":
                if bc:
                    m = m * (1 - 1.0 / (N * N)) - 3 * (N - 1.0) ** 2 / ((N - 2.0) * (N - 3.0))
                if not Fisher:
                    m += 3
        return m
    if mode == "corr":
        return second(x, y, trim, bc) / math.sqrt(second(x, x, trim, bc) * second(y, y, trim, bc))
    if mode == "continuum":
        return second(x, y, trim, bc) ** 2 * math.sqrt(second(x, x, trim, bc)) ** (alpha - 1)
    raise ValueError(mode)


def _median_stat(mode, x, y, order):
    def mad(v):
        m = loc(v, 0, "median")
        return 1.4826 * loc([abs(u - m) for u in v], 0, "median")

    def cm(u, v):
        mu, mv = loc(u, 0, "median"), loc(v, 0, "median")
        return loc([(a - mu) * (b - mv) for a, b in zip(u, v)], 0, "median")
    if mode in ("mom", "var"):
        if order == 1 and mode == "mom":
            return loc(x, 0, "median")
        return mad(x) if (mode == "var" or order == 2) else mad(x) / 1.4826
    same = x == y
    if mode in ("com", "cov"):
        return mad(x) if same else cm(x, y)
    if mode == "corr":
        return (mad(x) if same else cm(x, y)) / (mad(x) * mad(y))
    raise ValueError(mode)


# ------------------------------------------------------------------ energy statistics
METRICS = {"euclidean": lambda u, v: math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(u, v))),
           "sqeuclidean": lambda u, v: math.fsum((a - b) ** 2 for a, b in zip(u, v)),
           "cityblock": lambda u, v: math.fsum(abs(a - b) for a, b in zip(u, v)),
           "chebyshev": lambda u, v: max(abs(a - b) for a, b in zip(u, v))}


def dist(x, metric="euclidean"):
    x = np.asarray(x, float)
    x = x.reshape(len(x), -1).tolist()
    n = len(x)
    f = METRICS[metric]
    return [[f(x[i], x[j]) for j in range(n)] for i in range(n)]


def dcenter(D):
    n = len(D)
    r = [math.fsum(row) / n for row in D]
    g = math.fsum(r) / n
    return [[D[i][j] - r[i] - r[j] + g for j in range(n)] for i in range(n)]


def ucenter(D):
    n = len(D)
    r = [math.fsum(row) / (n - 2.0) for row in D]
    g = math.fsum(math.fsum(row) for row in D) / ((n - 1.0) * (n - 2.0))
    return [[0.0 if i == j else D[i][j] - r[i] - r[j] + g for j in range(n)] for i in range(n)]


def inner(A, B, bc):
    n = len(A)
    s = math.fsum(A[i][j] * B[i][j] for i in range(n) for j in range(n))
    return s / (n * (n - 3.0)) if bc else s / (n * n)


def centred(x, bc, squared=False, metric="euclidean"):
    D = dist(x, metric)
    if squared:
        D = [[0.5 * v * v for v in r] for r in D]
    return ucenter(D) if bc else dcenter(D)


def dcov_sqr(x, y, bc, metric="euclidean"):
    return inner(centred(x, bc, metric=metric), centred(y, bc, metric=metric), bc)


def mdd_sqr(x, y, bc):
    """martingale difference divergence of y given x"""
    return inner(centred(x, bc), centred(y, bc, True), bc)


def mddm(X, Y):
    X = np.asarray(X, float)
    Y = np.asarray(Y, float)
    n, q = Y.shape
    D = dist(X)
    m = [math.fsum(Y[:, k]) / n for k in range(q)]
    M = np.zeros((q, q))
    for a in range(q):
        for b in range(q):
            M[a, b] = -math.fsum((Y[i, a] - m[a]) * (Y[j, b] - m[b]) * D[i][j] for i in range(n) for j in range(n)) / n ** 2
    return M
