"""Reference models: plain, loop level transcriptions of the documented definitions.
They share no code with the package."""
import math
import numpy as np

C_MAD = 0.6744897501960817  # Phi^-1(3/4)


# ------------------------------------------------------------------ univariate estimators
def _clean(v):
    return [float(x) for x in v if not math.isnan(x)]


def med1(v):
    v = sorted(_clean(v))
    k = len(v)
    if k == 0:
        return math.nan
    return v[k // 2] if k % 2 else (v[k // 2 - 1] + v[k // 2]) / 2


def mean1(v, trim=0):
    if trim == 0:
        v = _clean(v)
        return math.fsum(v) / len(v) if v else math.nan
    v = [float(x) for x in v]
    if any(math.isnan(x) for x in v):
        return math.nan
    v.sort()
    k = int(trim * len(v))
    w = v[k:len(v) - k]
    return math.fsum(w) / len(w)


def std1(v, trim=0):
    m = mean1(v, trim)
    w = _clean(v)
    if w and min(w) == max(w):
        return 0.0
    if trim == 0:
        v = w
        return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v)) if v else math.nan
    q = [(x - m) ** 2 for x in v]
    return math.sqrt(mean1(q, trim))


def mad1(v):
    m = med1(v)
    return med1([abs(x - m) for x in v]) / C_MAD


def _cols(X):
    X = np.asarray(X, dtype=float)
    return [X[:, j] for j in range(X.shape[1])]


def col(fn, X, *a):
    return np.array([fn(c, *a) for c in _cols(X)])


def phi(x):
    return math.exp(-x * x / 2) / math.sqrt(2 * math.pi)


def Phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def tau1(v, c1=4.5, c2=3.0, consistency=True):
    """univariate tau scale (Maronna and Zamar), robustbase conventions; observed cells only"""
    w = _clean(v)
    n = len(w)
    m = med1(w)
    s0 = med1([abs(x - m) for x in w])
    if c1 > 0:
        num = den = 0.0
        for x in w:
            u = (x - m) / (s0 * c1)
            wt = (1 - u * u) ** 2 if abs(u) <= 1 else 0.0
            num += wt * x
            den += wt
        mu = num / den
    else:
        mu = m
    rho = math.fsum(min(((x - mu) / s0) ** 2, c2 ** 2) for x in w)
    if consistency:
        b = c2 * C_MAD
        es2 = 2 * ((1 - b * b) * Phi(b) - b * phi(b) + b * b) - 1
        ne = (n - 2) * es2 if consistency == "finiteSample" else n * es2
    else:
        ne = n
    return s0 * math.sqrt(rho / ne)


def tau_pooled(X, c1=4.5, c2=3.0):
    """what the package documents through its pinned test for several columns: the weighted mean
    and the summed rho are pooled over columns (recorded as known finding); used only as
    sub-model of regressions"""
    X = np.asarray(X, float)
    n, p = X.shape
    if p == 1:
        return np.array([tau1(X[:, 0], c1, c2)])
    m = col(med1, X)
    s0 = np.array([med1(np.abs(X[:, j] - m[j])) for j in range(p)])
    U = np.abs(X - m) / (s0 * c1)
    W = np.where(U <= 1, (1 - U ** 2) ** 2, 0.0)
    mu = np.nansum(X * W) / np.nansum(W)
    R = ((X - mu) / s0) ** 2
    # a row containing one large value is capped as a whole
    big = (R > c2 ** 2).any(axis=1)
    R[big, :] = c2 ** 2
    b = c2 * C_MAD
    es2 = 2 * ((1 - b * b) * Phi(b) - b * phi(b) + b * b) - 1
    return s0 * math.sqrt(np.nansum(R) / (n * es2))


# ------------------------------------------------------------------ spatial median / LTS
def l1obj(a, X):
    D = np.asarray(X, float) - np.asarray(a, float)
    return float(np.sum(np.sqrt(np.nansum(D * D, axis=1))))


def l1med(X, iters=20000):
    """spatial median of a complete table (p >= 2): modified Weiszfeld (Vardi and Zhang)"""
    X = np.asarray(X, float)
    if X.shape[1] < 2:
        return col(med1, X)
    U, cnt = np.unique(X, axis=0, return_counts=True)
    # optimal data point?
    for k in range(len(U)):
        D = U - U[k]
        d = np.sqrt((D * D).sum(1))
        nz = d > 0
        g = (cnt[nz, None] * D[nz] / d[nz, None]).sum(0)
        if math.sqrt((g * g).sum()) <= cnt[k] + 1e-12:
            return U[k].copy()
    a = X.mean(0)
    # distinct points only beyond here: optimum is not a data point
    for _ in range(iters):
        D = U - a
        d = np.sqrt((D * D).sum(1))
        if (d < 1e-14).any():
            a = a + 1e-7 * (1 + np.arange(X.shape[1]))
            continue
        w = cnt / d
        b = (w[:, None] * U).sum(0) / w.sum()
        if np.max(np.abs(b - a)) < 1e-13 * (1 + np.max(np.abs(b))):
            a = b
            break
        a = b
    # Newton polish
    for _ in range(20):
        D = U - a
        d = np.sqrt((D * D).sum(1))
        if (d < 1e-9).any():
            break
        g = -(cnt[:, None] * D / d[:, None]).sum(0)
        H = np.zeros((X.shape[1],) * 2)
        for k in range(len(U)):
            H += cnt[k] * (np.eye(X.shape[1]) / d[k] - np.outer(D[k], D[k]) / d[k] ** 3)
        try:
            st = np.linalg.solve(H, -g)
        except np.linalg.LinAlgError:
            break
        if l1obj(a + st, X) <= l1obj(a, X):
            a = a + st
        else:
            break
    return a


class Ambiguous(Exception):
    """the reference cannot decide (near tie in a discrete decision)"""


def klts(X, maxit=5, tol=1e-10, start=None, margin=1e-4):
    X = np.asarray(X, float)
    n, p = X.shape
    if start is None and p > 1 and np.linalg.matrix_rank(X - X[0]) <= 1:
        raise Ambiguous("spatial median of collinear points need not be unique")
    m = l1med(X) if start is None else np.asarray(start, float)
    it = 0
    while it < maxit:
        d = np.nansum((X - m) ** 2, axis=1)
        o = np.sort(d)
        h = (n + 1) // 2
        cut = o[h - 1]
        sc = max(o[-1], 1e-300)
        nxt = o[o > cut + margin * max(cut, 1e-8 * sc)]
        near = o[(np.abs(o - cut) <= margin * max(cut, 1e-8 * sc))]
        if len(near) > 1 and not exact_dup(X, d, cut, margin * max(cut, 1e-8 * sc)):
            raise Ambiguous("klts tie")
        sub = d <= cut + margin * max(cut, 1e-8 * sc) * (len(near) > 1)
        m2 = np.array([mean1(X[sub, j]) for j in range(p)])
        it += 1
        done = np.max(np.abs(m - m2)) <= tol
        m = m2
        if done:
            break
    return m


def exact_dup(X, d, cut, w):
    rows = X[np.abs(d - cut) <= w]
    return bool((rows == rows[0]).all())


# ------------------------------------------------------------------ scaling
LOC = {"mean": lambda X, t=0: col(mean1, X, t), "median": lambda X, t=0: col(med1, X),
       "l1median": lambda X, t=0: l1med(X), "kstepLTS": lambda X, t=0: klts(X),
       "None": lambda X, t=0: np.zeros(X.shape[1])}
SCA = {"std": lambda X, t=0: col(std1, X, t), "mad": lambda X, t=0: col(mad1, X),
       "scaleTau2": lambda X, t=0: tau_pooled(X), "None": lambda X, t=0: np.ones(X.shape[1])}


def nz(s):
    s = np.array(s, dtype=float)
    s[s == 0] = 1.0
    return s


def scale(X, m, s):
    return (np.asarray(X, float) - m) / nz(s)


# ------------------------------------------------------------------ generalised spatial sign
def _tie(vals, cut, rows, margin):
    """more than one case on the cut-off, and these are not copies of one another"""
    near = np.abs(vals - cut) <= margin * max(abs(cut), 1e-12)
    if near.sum() > 1 and not (rows[near] == rows[near][0]).all():
        raise Ambiguous("tie at a cut-off")
    return near


def radial(name, d, p, rows, margin=1e-7):
    """radial function values for distances d of the given rows; raises Ambiguous when a hard
    decision hangs on a near tie"""
    d = np.asarray(d, float).reshape(-1)
    n = len(d)
    if name == "ss":
        return np.array([1 / max(x, 1e-10) for x in d])
    h = int((n + p + 1) // 2)
    hm = sorted(d)[h - 1]
    if name == "quad":
        return np.array([1.0 if x <= hm else (hm / x) ** 2 for x in d])
    if name == "winsor":
        return np.array([1.0 if x <= hm else hm / x for x in d])
    if name == "ball":
        near = _tie(d, hm, rows, margin)
        return np.array([1.0 if (x < hm or k) else 0.0 for x, k in zip(d, near)])
    w = d ** (2 / 3)
    wm = sorted(w)[h - 1]
    dev = abs(w - wm)
    wd = sorted(dev)[h - 1]
    if name == "shell":
        if wd <= margin * max(wm, 1e-12):
            near = dev <= 10 * margin * max(wm, 1e-12)
            if not (rows[near] == rows[near][0]).all():
                raise Ambiguous("shell")
            return np.array([1.0 if k else 0.0 for k in near])
        near = _tie(dev, wd, rows, margin)
        return np.array([1.0 if (x < wd or k) else 0.0 for x, k in zip(dev, near)])
    if name == "linear_redescending":
        cut = (wm + 1.4826 * wd) ** 1.5
        if cut - hm <= 100 * margin * max(cut, 1e-12):
            near = np.abs(d - hm) <= 1000 * margin * max(hm, 1e-12)
            if near.any() and not (rows[near] == rows[near][0]).all():
                raise Ambiguous("lr")
            return np.array([1.0 if (k or x < hm) else 0.0 for x, k in zip(d, near)])
        return np.array([1.0 if x <= hm else (0.0 if x > cut else 1 - (x - hm) / (cut - hm)) for x in d])
    raise KeyError(name)


def norms(X):
    return np.array([math.sqrt(math.fsum(v * v for v in r)) for r in np.asarray(X, float)])


# ------------------------------------------------------------------ wrapping
def wrap1(v, m, s):
    b, c, q1, q2 = 1.5, 4.0, 1.540793, 0.8622731
    if s == 0:
        s = 1.0
    out = []
    for x in v:
        if math.isnan(x):
            out.append(math.nan)
            continue
        u = (x - m) / s
        a = abs(u)
        if a < b:
            w = u
        elif a < c:
            w = math.copysign(q1 * math.tanh(q2 * (c - a)), u)
        else:
            w = 0.0
        out.append(w * s + m)
    return np.array(out)


# ------------------------------------------------------------------ M weights
def fair(x, c, *a):
    return np.array([1 / (1 + abs(v / (2 * c))) ** 2 for v in np.asarray(x, float).ravel()])


def huber(x, c, *a):
    return np.array([1.0 if not v > c else c / v for v in np.asarray(x, float).ravel()])


def hampel(x, a, b, r):
    out = []
    for v in np.asarray(x, float).ravel():
        if v > r:
            out.append(0.0)
        elif v > b:
            out.append(a * (r - v) / ((r - b) * v))
        elif v > a:
            out.append(a / v)
        else:
            out.append(1.0)
    return np.array(out)


WFUN = {"Fair": fair, "Huber": huber, "Hampel": hampel}
