"""C15 slicing and moment based sufficient dimension reduction."""
import itertools
import numpy as np
from lib import data, sdr
import importlib
from direpack import sudire
su = importlib.import_module("direpack.sudire._sudire_utils")

PID = "C15"
RULE = """All five methods x tables (base tables with every single outlying case, duplicated case, offset) x responses
(linear, curved, with ties, discrete classes) x slices x dimensions x centring/scaling settings, through the estimator
and through the functions; leading eigenspaces of an independently computed kernel, nested spaces compared through
projections.  Affine orbit: every table refitted after each affine map of a set.  Slicing function: every response
vector over an alphabet up to the length bound x every number of slices."""
ASSUMPTIONS = ["predictors have full rank; eigenspaces whose eigenvalue gap is below 1e-7 of the spectrum are not compared",
               "whitening and compression are outside (see DESIGN.md)"]
METH = ("sir", "save", "dr", "phd", "iht")
SETTINGS = [dict(), dict(center="median"), dict(scale_data=False), dict(center="median", scale_data=False), dict(center_data=False),
            dict(center_data=False, scale_data=False), dict(trimming=0.1), dict(copy=False)]
AFF = {2: [[[2., 1.], [0., -1.]], [[0., 1.], [3., 0.]]],
       3: [[[2., 1., 0.], [0., -1., 4.], [0., 0., .5]], [[0., 0., 1.], [1., 0., 0.], [0., 5., 0.]]],
       4: [np.diag([1., -8., .25, 3.]).tolist(), [[1., 2., 0., 0.], [0., 1., 3., 0.], [0., 0., 1., -1.], [1., 0., 0., 2.]]]}


def BOUNDS(tier):
    return {"tables": "(16..24) x (2..4), one deviating case at every position", "slices": "2..6", "components": "1..p",
            "slicing vectors": "length<=6 over 4 values", "tier": tier}


def cases(tier):
    q = tier == "quick"
    for n in range(2, 6 if q else 8):
        for y in itertools.product((0.0, 1.0, 2.5, -1.0)[:3 if n > 4 and q else 4], repeat=n):
            yield ("slice", y)
    for (n, p) in ((90, 3), (61, 5)):
        for dev in ("none", "curve", "classes", "tenths", "ties", "out4"):
            for me in METH:
                for ns in (4, 10):
                    for d in (1, p - 1):
                        yield ("fit", n, p, 1, dev, me, ns, d, SETTINGS[0])
    for (n, p) in ((16, 2), (18, 3), (24, 4)):
        devs = ["none", "offset", "dup", "curve", "classes", "ties", "zerone", "tenths"] + ["out%d" % i for i in range(0, n, 4 if q else 1)]
        for dev in devs:
            for seed in (1, 2) if q else (1, 2, 3, 4):
                for me in METH:
                    for ns in (2, 3, 5) if q else (2, 3, 4, 5, 6):
                        if me in ("phd", "iht") and ns != 3:
                            continue
                        for d in range(1, p + 1):
                            for st in SETTINGS if (dev in ("none", "offset", "out4") and ns == 3) or not q else SETTINGS[:1]:
                                yield ("fit", n, p, seed, dev, me, ns, d, st)
                            if ns == 3 and (dev == "none" or not q):
                                for a in range(len(AFF[p])):
                                    yield ("affine", n, p, seed, dev, me, ns, d, a)


def load(n, p, seed, dev):
    X, y = data.regression(n, p, seed, noise=4.0)
    if dev == "offset":
        X, y = X + 64.0, y - 32.0
    elif dev == "dup":
        X[1], y[1] = X[0], y[0]
    elif dev == "curve":
        y = np.round((X[:, 0] ** 2 + y) * 64) / 64
    elif dev == "classes":
        y = np.digitize(y, np.sort(y)[[n // 3, 2 * n // 3]]).astype(float) * 2 - 1
    elif dev == "tenths":  # labels whose mean rounds
        y = np.array([.1, .3, .7])[np.digitize(y, np.sort(y)[[n // 3, 2 * n // 3]])]
    elif dev == "zerone":
        y = (y > np.sort(y)[n // 3]).astype(float)
    elif dev == "ties":
        y = np.round(y / 4) * 4
    elif dev.startswith("out"):
        i = int(dev[3:])
        X[i, 0] += 9.0
        y[i] -= 30.0
    return X, y


def expected(me, X, y, ns, rt, st, hessian=True):
    """kernel space mapped to the original predictors: (basis, determined dims)"""
    scale, cen = st.get("scale_data", True), st.get("center_data", True)
    Z = X - X.sum(axis=0) / len(X) if cen else X
    N = sdr.root(sdr.cov(X), -0.5) if scale else np.eye(X.shape[1])
    Z = Z @ N
    if me in ("phd", "iht"):
        lab = None
    else:
        lab = sdr.slices(y, ns) if rt == "continuous" else np.asarray(y)
    w, V, ok = sdr.leading(sdr.kernel(me, Z, y, lab, hessian))
    return N @ V, ok, lab


def spaces(P, B, ok, d):
    return [k for k in range(1, d + 1) if ok[k] and np.abs(sdr.proj(P[:, :k]) - sdr.proj(B[:, :k])).max() > 1e-5]


def compare(ctx, P, me, X, y, ns, rt, st, d, what):
    B, ok, lab = expected(me, X, y, ns, rt, st)
    if not any(ok[1:d + 1]):
        ctx.skip("no determined eigenspace")
    bad = spaces(P, B, ok, d)
    if me == "iht" and bad:
        B, ok, lab = expected(me, X, y, ns, rt, st, hessian=False)
        bad2 = spaces(P, B, ok, d)
        if not bad2:
            ctx.fail("iht-covariance-instead-of-hessian", "leading %s-space" % bad)
            return
        bad = bad2
    ctx.true(not bad, "%s:%s" % (what, me), "leading %s-dimensional space differs" % bad)


def run(case, ctx):
    if case[0] == "slice":
        y = np.array(case[1])
        n = len(y)
        for h in range(2, n + 1):
            ctx.state(case[1], h)
            y0 = y.copy()
            got = np.asarray(ctx.op("discretize %d" % h, su.discretize, y, h))
            ctx.same(got.tolist(), sdr.slices(y, h).tolist(), "slices")
            ctx.same(y, y0, "slices-input")
            ctx.outcome(got.tolist())
        return
    if case[0] == "fit":
        _, n, p, seed, dev, me, ns, d, st = case
    else:
        _, n, p, seed, dev, me, ns, d, a = case
        st = {}
    X, y = load(n, p, seed, dev)
    rt = "discrete" if dev in ("classes", "zerone", "tenths") else "continuous"
    if st.get("center") == "median" and st.get("center_data", True) is False:
        return
    ctx.state(case)
    m = sudire(me, n_components=d, n_slices=ns, response_type=rt, verbose=False, **st)
    if case[0] == "affine":
        A, b = np.array(AFF[p][a]), np.arange(1., p + 1)
        ctx.op("fit", m.fit, X, y)
        m2 = sudire(me, n_components=d, n_slices=ns, response_type=rt, verbose=False)
        ctx.op("fit mapped", m2.fit, X @ A.T + b, y)
        B, ok, lab = expected(me, X, y, ns, rt, st)
        if me == "iht":
            B2, ok2, _ = expected(me, X, y, ns, rt, st, hessian=False)
            ok = [u and v for u, v in zip(ok, ok2)]
        P, P2 = np.asarray(m.x_loadings_, float), A.T @ np.asarray(m2.x_loadings_, float)
        bad = spaces(P, P2, ok, d)
        ctx.true(not bad, "affine:%s" % me, bad)
        if ok[d]:
            ctx.eq(np.ravel(m2.predict(X[:5] @ A.T + b)), np.ravel(m.predict(X[:5])), "affine-predict:%s" % me, rtol=1e-5, atol=1e-5 * (1 + np.abs(y).max()))
        ctx.outcome(np.round(np.abs(P), 4))
        return
    ctx.op("fit", m.fit, X, y)
    P = np.asarray(m.x_loadings_, float)
    ctx.true(P.shape == (p, d) and np.isfinite(P).all(), "shape", P.shape)
    compare(ctx, P, me, X, y, ns, rt, st, d, "space")
    # basis normalisation: unit variance scores when scaled, orthonormal directions otherwise
    S = sdr.cov(X) if st.get("scale_data", True) else np.eye(p)
    ctx.eq(P.T @ S @ P, np.eye(d), "normalised:%s" % me, rtol=1e-6, atol=1e-6)
    ctx.eq(m.proj_mat_, sdr.proj(P), "projection-matrix", atol=1e-6, rtol=1e-6)
    T = np.array([[sum(X[i, j] * P[j, k] for j in range(p)) for k in range(d)] for i in range(n)])
    ctx.eq(m.x_scores_, T, "scores", rtol=1e-8)
    ctx.eq(ctx.op("transform", m.transform, X[:4]), T[:4], "transform", rtol=1e-8)
    D = np.column_stack([np.ones(n), T])
    s = 1e-6 * (1 + np.abs(y).max())
    beta = np.linalg.lstsq(D, y, rcond=None)[0]
    Xn = X[::-1][:5] + 0.5
    ctx.eq(np.ravel(ctx.op("predict", m.predict, X)), D @ beta, "predict", rtol=1e-6, atol=s)
    ctx.eq(np.ravel(ctx.op("predict new", m.predict, Xn)), np.column_stack([np.ones(5), Xn @ P]) @ beta, "predict-new", rtol=1e-6, atol=s)
    # functional form on the same data
    fn = getattr(su, me.upper(), None)
    if fn is not None and not st.get("center") and "trimming" not in st and "copy" not in st:
        kw = dict(center_data=st.get("center_data", True), scale_data=st.get("scale_data", True))
        if me in ("phd", "iht"):
            F = ctx.op("function", fn, X, y, d, **kw)
        else:
            F = ctx.op("function", fn, X, y, ns, d, rt, **kw)
        F = np.asarray(F, float)
        ctx.eq(F.T @ S @ F, np.eye(d), "function-normalised:%s" % me, rtol=1e-6, atol=1e-6)
        compare(ctx, F, me, X, y, ns, rt, st, d, "function")
        if not st:
            a = (d,) if me in ("phd", "iht") else (ns, d) + (() if rt == "continuous" else (rt,))
            G = np.asarray(ctx.op("function with defaults", fn, X, y, *a), float)
            ctx.eq(G.T @ S @ G, np.eye(d), "default-arguments-normalised:%s" % me, rtol=1e-6, atol=1e-6)
            compare(ctx, G, me, X, y, ns, rt, st, d, "default-arguments")
    # the location and scale the object reports
    if st.get("center_data", True):
        ctx.eq(np.ravel(m.y_loc_), [y.sum() / n], "response-location", rtol=1e-9, atol=1e-9)
        ctx.eq(np.ravel(m.y_sca_), [np.sqrt(((y - y.sum() / n) ** 2).sum() / n)], "response-scale", rtol=1e-9)
    else:
        ctx.same([float(np.squeeze(m.y_loc_)), float(np.squeeze(m.y_sca_))], [0.0, 1.0], "response-uncentred")
    loc, sca = np.ravel(np.asarray(m.x_loc_, float)), np.ravel(np.asarray(m.x_sca_, float))
    if st.get("center_data", True) is False:
        ctx.same(loc.tolist(), [0.0] * p, "location-uncentred")
        ctx.same(sca.tolist(), [1.0] * p, "scale-uncentred")
    elif st.get("center", "mean") == "mean":
        k = int(st.get("trimming", 0) * n)
        Xo = np.sort(X, axis=0)[k:n - k]
        ctx.eq(loc, [sum(c) / len(c) for c in Xo.T], "location", rtol=1e-9, atol=1e-9)
        ctx.eq(sca, np.sqrt(np.diag(sdr.cov(X))), "scale", rtol=1e-9)
    else:
        med = np.median(X, axis=0)
        ctx.eq(loc, med, "location-median", rtol=1e-12)
        if st.get("scale_data", True):
            ctx.eq(sca, 1.4826 * np.median(np.abs(X - med), axis=0), "scale-mad", rtol=1e-4)
        else:
            ctx.same(sca.tolist(), [1.0] * p, "scale-none")
    ctx.outcome(np.round(np.abs(P), 4))
