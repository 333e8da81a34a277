"""Reference models of the regressions (SNIPLS, M regression, sparse partial robust M regression).

Plain transcriptions of the published algorithms; the spatial-median based centring is taken from
the package's public scaler (decided by C01/C02), everything else is computed here."""
import math
import numpy as np
from scipy.stats import norm, chi2
from lib import ref
from lib.ref import Ambiguous


def loc(X, centre):
    X = np.asarray(X, float)
    if centre in ("mean", "median", "None"):
        return ref.LOC[centre](X)
    if X.shape[1] == 1:
        if centre == "l1median":
            return ref.col(ref.med1, X)
    import direpack
    return np.asarray(direpack.VersatileScaler(center=centre, scale="None").fit(X).center_, float).reshape(-1)


def sca(X, scale):
    return np.asarray(ref.SCA[scale](np.asarray(X, float)), float).reshape(-1)


def std_(X, centre, scale):
    """scaled data, location, scale (zero scales do not divide)"""
    m, s = loc(X, centre), sca(X, scale)
    return ref.scale(X, m, s), m, s


# ------------------------------------------------------------------ SNIPLS
def snipls(X, y, eta, h, centre="mean", scale="None", margin=1e-7):
    X = np.asarray(X, float)
    y = np.asarray(y, float).reshape(-1)
    n, p = X.shape
    E, mX, sX = std_(X, centre, scale)
    f, my, sy = std_(y.reshape(-1, 1), centre, scale)
    f = f[:, 0]
    E0, f0 = E.copy(), f.copy()
    keep = set()
    W = np.zeros((p, h)); P = np.zeros((p, h)); Pf = np.zeros((p, h)); T = np.zeros((n, h)); C = np.zeros(h)
    xev = np.zeros(h); yev = np.zeros(h)
    sets = []
    ref0 = None
    for a in range(h):
        w = E.T @ f
        nw = math.sqrt(w @ w)
        if ref0 is None:
            ref0 = max(nw, 1e-4 * math.sqrt(float((E * E).sum()) * float(f @ f)), 1e-300)     # relative to the data: covariance that is rounding noise is none
        if nw <= 1e-9 * ref0 or not np.isfinite(nw):
            raise Ambiguous("no covariance left")
        w = w / nw
        mx = np.max(np.abs(w))
        g = np.abs(w) - eta * mx
        if np.any(np.abs(g) < margin):
            if eta > 0:
                raise Ambiguous("variable on the sparsity threshold")
            # eta = 0: a variable with exactly zero covariance
            if np.any((np.abs(w) < margin) & (np.abs(w) > 0)):
                raise Ambiguous("variable on the sparsity threshold")
        keep |= {j for j in range(p) if g[j] > 0}
        if eta > 0 and any(abs(w[j]) < margin for j in keep):
            raise Ambiguous("retained variable without covariance left (its sign is rounding noise)")
        w = np.array([math.copysign(1, w[j]) * g[j] if j in keep and w[j] != 0 else 0.0 for j in range(p)])
        t = E @ w
        tt = t @ t
        if tt <= 1e-18 * (1e-300 + (E0 * E0).sum()):
            raise Ambiguous("zero score")
        c = (f @ t) / tt
        ld = E.T @ t / tt
        E = E - np.outer(t, ld)
        f = f - t * c
        Pf[:, a] = ld
        ld = np.array([ld[j] if j in keep else 0.0 for j in range(p)])
        W[:, a] = w; P[:, a] = ld; T[:, a] = t; C[a] = c
        xev[a] = tt * (ld @ ld) / (E0 * E0).sum() * 100
        yev[a] = tt * c * c / (f0 @ f0) * 100
        sets.append(sorted(keep))
    PW = P.T @ W      # loadings restricted to the variables retained so far (pinned by test_sprm)
    WSW = W.T @ (E0.T @ E0) @ W
    if np.linalg.cond(PW) > 1e10 or np.linalg.cond(WSW) > 1e12:
        raise Ambiguous("singular")
    R = W @ np.linalg.inv(PW)
    b = W @ np.linalg.solve(WSW, W.T @ (E0.T @ f0))
    B = b * (ref.nz(sy)[0] / ref.nz(sX))
    e = y - X @ B
    b0 = ref.mean1(e) if centre == "mean" else (0.0 if centre == "None" else ref.med1(e))
    fit = X @ B + b0
    return dict(W=W, P=P, T=T, C=C, R=R, b=b, B=B, b0=b0, fit=fit, res=y - fit, keep=sets[-1], sets=sets,
                xev=xev, yev=yev, mX=mX, sX=sX, my=my, sy=sy, E0=E0, f0=f0)


# ------------------------------------------------------------------ M estimation pieces
def cutoffs(fun, p1, p2, p3, mode, df):
    cy = (norm.ppf(p1), norm.ppf(p2), norm.ppf(p3))
    cx = tuple(chi2.ppf(q, df) for q in (p1, p2, p3)) if mode == "specific" else cy
    return cx, cy


def W_(fun, x, c):
    return ref.WFUN[fun](x, *c)


def robres(r):
    a = np.abs(r)
    if len(r) / 2 > np.sum(r == 0):
        d = ref.med1(a)
    else:
        d = ref.med1(a[r != 0])
    return a / (1.4826 * d)


def floorw(w):
    z = w < 1e-6
    return np.where(z, 1e-6, w), z


def rm(X, y, fun="Hampel", p1=.95, p2=.975, p3=.999, centre="median", scale="mad", mode="specific",
       maxit=100, tol=.01):
    X = np.asarray(X, float); y = np.asarray(y, float).reshape(-1)
    n, p = X.shape
    Xs, mX, sX = std_(X, centre, scale)
    ys, my, sy = std_(y.reshape(-1, 1), centre, scale)
    ys = ys[:, 0]
    cx, cy = cutoffs(fun, p1, p2, p3, mode, p)
    d = ref.norms(Xs)
    wx = W_(fun, d / ref.med1(d), cx)
    m = ref.med1(y)
    if (centre, scale) == ("median", "mad"):
        dy = np.abs(ys)
    else:
        dy = np.abs(y - m) / (1.4826 * ref.med1(np.abs(y - m)))
    wy = W_(fun, dy, cy)
    we, z = floorw(wx * wy)
    old, diff, loops = 1e-5, 1.0, 1
    b = None
    near = False
    while diff > tol and loops < maxit:
        q = np.sqrt(we)
        b = np.linalg.lstsq(Xs * q[:, None], ys * q, rcond=None)[0]
        r = robres(ys - Xs @ b)
        wy = W_(fun, r, cy)
        s = float(b @ b)
        diff = abs(s - old) / old
        near = near or abs(diff - tol) < 1e-6 * max(tol, 1e-30)
        old = s
        we, z = floorw(wy * wx)
        if z.sum() >= n / 2:
            break
        loops += 1
    if near:
        raise Ambiguous("convergence criterion on its tolerance")
    if b is None:
        raise Ambiguous("no iteration")
    B = b * (ref.nz(sy)[0] / ref.nz(sX))
    e = y - X @ B
    mid = ref.mean1 if centre == "mean" else ref.med1
    b0 = mid(e)
    bs0 = mid(ys - Xs @ b) if scale != "None" else b0
    cw = np.where(z, 0.0, we)
    return dict(B=B, b=b, b0=b0, bs0=bs0, w=cw, wx=np.where(z, 0.0, wx), wy=np.where(z, 0.0, wy),
                fit=X @ B + b0, loops=loops, mX=mX, sX=sX, my=my, sy=sy, Xs=Xs, ys=ys)


def brokenstick(k):
    return np.array([sum(1.0 / j for j in range(i, k + 1)) / k for i in range(1, k + 1)])


def sprm(X, y, h=1, eta=.5, fun="Hampel", p1=.95, p2=.975, p3=.999, centre="median", scale="mad",
         mode="specific", init="pcapp", maxit=100, tol=.01, full=None):
    X = np.asarray(X, float); y = np.asarray(y, float).reshape(-1)
    n, p = X.shape
    if scale == "scaleTau2" and (ref.col(ref.mad1, X) == 0).any():
        scale = "mad"
    Xs, mX, sX = std_(X, centre, scale)
    ys, my, sy = std_(y.reshape(-1, 1), centre, scale)
    ys = ys[:, 0]
    top = np.abs(X).max(axis=0)
    if ((sX > 1e-16 * top) & (sX < 1e-12 * top)).any():
        raise Ambiguous("scale of the size of rounding errors")
    keep = np.where(sX > 1e-14 * top)[0]
    Xk, Xs, sk = X[:, keep], Xs[:, keep], sX[keep]
    p = len(keep)
    if h > p:
        raise Ambiguous("too many components")
    df = p
    U = Xs
    if init == "pcapp":
        u, s, _ = np.linalg.svd(Xs)
        l = s ** 2 / np.sum(s ** 2)
        bs = brokenstick(min(n, p))
        gap = l - bs
        if np.any(np.abs(gap) < 1e-9) and min(n, p) > 1:
            raise Ambiguous("broken stick")
        first = np.where(gap <= 0)[0]
        k = max(int(first[0]) if len(first) else 1, 1)
        if k < len(s) and abs(s[k - 1] - s[k]) < 1e-6 * s[0]:
            raise Ambiguous("multiple singular value")
        U = std_(u[:, :k], centre, scale)[0]
        df = k
    cx, cy = cutoffs(fun, p1, p2, p3, mode, df)
    d = ref.norms(U)
    wx = W_(fun, d / ref.med1(d), cx)
    m = ref.med1(y)
    if (centre, scale) == ("median", "mad"):
        dy = np.abs(ys)
    else:
        dy = (y - m) / (1.4826 * ref.med1(np.abs(y - m)))   # signed: see known findings (C24)
    wy = W_(fun, dy, cy)
    we, z = floorw(wx * wy)
    old, diff, loops = 1e-5, 1.0, 1
    fitp = None
    near = False
    wt = wx
    while diff > tol and loops < maxit:
        q = np.sqrt(we)
        fitp = snipls(Xs * q[:, None], ys * q, eta, h)
        T = fitp["T"] / q[:, None]
        r = robres(ys - fitp["fit"])
        ts = std_(T, centre, "mad" if scale == "None" else scale)[0]
        d = ref.norms(ts)
        wt = d / ref.med1(d)
        if fun == "Hampel":
            cx = tuple(chi2.ppf(v, h) for v in (p1, p2, p3))
        wt = W_(fun, wt, cx)
        wy = W_(fun, r, cy)
        b = fitp["B"]
        s = float(b @ b)
        diff = abs(s - old) / old
        near = near or abs(diff - tol) < 1e-6 * max(tol, 1e-30)
        old = s
        we, z = floorw(wy * wt)
        if z.sum() >= n / 2:
            break
        loops += 1
    if near:
        raise Ambiguous("convergence criterion on its tolerance")
    if fitp is None:
        raise Ambiguous("no iteration")
    b = fitp["B"]
    B = b * (ref.nz(sy)[0] / sk)
    e = y - Xk @ B
    if centre == "None":
        b0 = 0.0
    else:
        b0 = (ref.mean1 if centre == "mean" else ref.med1)(e)
    if scale != "None":
        bs0 = (ref.mean1 if centre == "mean" else ref.med1)(ys - Xs @ b)
    elif centre == "None":
        bs0 = 0.0
    else:
        bs0 = (ref.mean1 if centre == "mean" else ref.med1)(y - Xk @ b)
    zero = lambda v: np.where(z, 0.0, v)
    return dict(B=B, b=b, b0=b0, bs0=bs0, w=zero(we), wt=zero(wt), wy=zero(wy), keep=keep,
                colret=[int(keep[j]) for j in fitp["keep"]], R=fitp["R"], W=fitp["W"], P=fitp["P"], C=fitp["C"],
                T=Xs @ fitp["R"], fit=Xk @ B + b0, mX=mX, sX=sX, my=my, sy=sy, xev=fitp["xev"], yev=fitp["yev"],
                loops=loops, cx=cx, scale=scale)


def agree(a, b, tol=1e-5):
    """conditioning guard: two reference answers agree"""
    for k in a:
        u, v = a[k], b[k]
        if k in ("mX", "my", "b0", "bs0", "res", "E0", "f0", "ys", "Xs"):
            continue    # may be zero up to rounding; implied by the other entries
        if isinstance(u, (list, str)) or k in ("loops", "keep"):
            if list(np.atleast_1d(u)) != list(np.atleast_1d(v)) if not isinstance(u, (list, str)) else u != v:
                return False
            continue
        u, v = np.asarray(u, float), np.asarray(v, float)
        if u.shape != v.shape or not np.allclose(u, v, rtol=0, atol=tol * (1e-12 + np.nanmax(np.abs(u)) if u.size else 1)):
            return False
    return True
