"""C25 missing cells are skipped, never spread."""
import itertools
import math
import numpy as np
import pandas as pd
from lib import data, ref
import direpack
from direpack.preprocessing import _preproc_utilities as pu
from direpack.preprocessing.robcent import VersatileScaler
from direpack.utils import utils as ut

PID = "C25"
RULE = """Every pattern of one and of two missing cells (predictor cells and response cells) in every base table, every pattern
of missing cells in the small lattice tables, x number of components x sparsity x centring x scaling.  Column statistics, the standardised
table, the inner products and the fitted sparse PLS model are compared with loop-level definitions that sum over observed cells
only; results that do not depend on a missing cell must be present.  Each pattern is also given as data frame, and the pattern without
missing cells must reproduce the complete-data results."""
ASSUMPTIONS = ["sparse PLS with missing cells: inner products over observed cells (as for the complete data otherwise); a fitted value of a case with missing predictors uses its observed ones",
               "executions whose reference moves under a 1e-9 perturbation are excluded and counted",
               "columns with fewer than two observed cells are outside the claim"]
CS = [("mean", "None"), ("mean", "std"), ("median", "mad"), ("None", "None"), ("median", "None"), ("mean", "mad"), ("median", "std")]


def BOUNDS(tier):
    return {"tables": "5x2, 7x3, 5x6", "missing": "all single cells, all pairs (quick: pairs of every table for one sparsity level)", "components": "1..2", "tier": tier}


def cells(n, p):
    return [("x", i, j) for i in range(n) for j in range(p)] + [("y", i) for i in range(n)]


def cases(tier):
    q = tier == "quick"
    for n, p in ((60, 4), (12, 15)):
        for miss in ((), (("x", 3, 1),), (("x", 3, 1), ("x", 5, 1), ("y", 7), ("x", 0, 2), ("x", 11, 3))):
            yield ("fit", n, p, 1, miss)
    for seed in (1, 2) if q else range(1, 7):
        for n, p in ((5, 2), (7, 3), (5, 6)) if q else ((5, 2), (7, 3), (5, 6), (9, 4), (6, 1)):
            C = cells(n, p)
            yield ("fit", n, p, seed, ())
            for c in C:
                yield ("fit", n, p, seed, (c,))
            if q and (seed > 1 or (n, p) == (5, 6)):
                continue
            for a, b in itertools.combinations(C, 2):
                yield ("fit", n, p, seed, (a, b))
            if not q and n * p <= 21:
                for t in itertools.combinations(C, 3):
                    yield ("fit", n, p, seed, t)
    for n, p in ((3, 1), (4, 1), (3, 2)) if q else ((3, 1), (4, 1), (5, 1), (3, 2), (4, 2)):
        for v in itertools.product((0, 3, None) if n * p > 4 else (-1, 0, 3, None), repeat=n * p):
            yield ("col", n, p, v)
    for a in itertools.product((1, -2, None), repeat=4 if q else 6):
        for b in itertools.product((3, 1, None), repeat=4):
            yield ("dot", a, b)


# ------------------------------------------------------------------ definitions over observed cells
def dot(a, b):
    return math.fsum(x * z for x, z in zip(a, b) if not (math.isnan(x) or math.isnan(z)))


def mv(A, v):
    return np.array([dot(r, v) for r in A])


def standard(X, c, s):
    p = X.shape[1]
    m = {"mean": ref.col(ref.mean1, X), "median": ref.col(ref.med1, X), "None": np.zeros(p)}[c]
    d = {"std": ref.col(ref.std1, X), "mad": ref.col(ref.mad1, X), "None": np.ones(p)}[s]
    return (X - m) / np.where(d == 0, 1.0, d), m, d


def snipls(X, y, eta, h, c, s):
    n, p = X.shape
    E, mX, sX = standard(X, c, s)
    f, my, sy = standard(y.reshape(-1, 1), c, s)
    f = f[:, 0]
    E0, f0 = E.copy(), f.copy()
    keep = set()
    W = np.zeros((p, h)); P = np.zeros((p, h)); T = np.zeros((n, h)); C = np.zeros(h); xev = np.zeros(h); yev = np.zeros(h)
    first = None
    for a in range(h):
        w = mv(E.T, f)
        nw = math.sqrt(w @ w)
        first = first or max(nw, 1e-4 * math.sqrt(float(np.nansum(E0 ** 2)) * float(np.nansum(f0 ** 2))), 1e-300)
        if nw <= 1e-7 * first:
            raise ref.Ambiguous("no covariance left")
        w /= nw
        g = np.abs(w) - eta * np.abs(w).max()
        if (np.abs(g) < 1e-7).any():
            raise ref.Ambiguous("variable on the sparsity threshold")
        keep |= {j for j in range(p) if g[j] > 0}
        if any(abs(w[j]) < 1e-7 for j in keep):
            raise ref.Ambiguous("retained variable without covariance")
        w = np.array([math.copysign(g[j], w[j]) if g[j] > 0 else math.copysign(1, w[j]) * g[j] if j in keep else 0.0 for j in range(p)])
        t = mv(E, w)
        tt = t @ t
        if tt <= 1e-12 * np.nansum(E0 ** 2):
            raise ref.Ambiguous("zero score")
        cc = dot(f, t) / tt
        ld = mv(E.T, t) / tt
        E = E - np.outer(t, ld)
        f = f - t * cc
        ld = np.array([ld[j] if j in keep else 0.0 for j in range(p)])
        W[:, a], P[:, a], T[:, a], C[a] = w, ld, t, cc
        xev[a] = 100 * tt * (ld @ ld) / np.nansum(E0 ** 2)
        yev[a] = 100 * tt * cc * cc / np.nansum(f0 ** 2)
    S = np.array([[dot(E0[:, i], E0[:, j]) for j in range(p)] for i in range(p)])
    M = W.T @ S @ W
    if np.linalg.cond(M) > 1e8 or np.linalg.cond(P.T @ W) > 1e8:
        raise ref.Ambiguous("singular")
    b = W @ np.linalg.solve(M, W.T @ mv(E0.T, f0))
    sy1 = sy[0] if sy[0] != 0 else 1.0
    B = b * sy1 / np.where(sX == 0, 1.0, sX)
    e = y - mv(X, B)
    b0 = {"mean": ref.mean1, "median": ref.med1, "None": lambda v: 0.0}[c](e)
    fit = mv(X, B) + b0
    return dict(W=W, P=P, T=T, C=C, b=b, B=B, b0=b0, fit=fit, res=y - fit, keep=sorted(keep), xev=xev, yev=yev, mX=mX, sX=sX, my=my, sy=sy)


def build(case):
    _, n, p, seed, miss = case
    X, y = data.regression(n, p, seed)
    X, y = X.copy(), y.copy()
    for d in miss:
        if d[0] == "x":
            X[d[1], d[2]] = np.nan
        else:
            y[d[1]] = np.nan
    return X, y


def run(case, ctx):
    return globals()["run_" + case[0]](case, ctx)


def run_dot(case, ctx):
    ctx.state(case)
    f = lambda v: np.array([np.nan if x is None else float(x) for x in v])
    A = f(case[1]).reshape(2, -1)
    k = A.shape[1]
    b = f(case[2][:k]) if k <= 4 else None
    for v in (b, b.reshape(-1, 1)):
        got = ctx.op("nandot", ut.nandot, A, v)
        ctx.eq(got, mv(A, b).reshape(-1, 1), "nandot")
        ctx.eq(ctx.op("nanmatdot", ut.nanmatdot, A, v), mv(A, b).reshape(-1, 1), "nanmatdot-vector")
    if k == 2:
        for r in (2, 1):
            B = f(case[2]).reshape(2, 2)[:, :r]
            want = np.array([[dot(A[i], B[:, j]) for j in range(r)] for i in range(2)])
            ctx.eq(ctx.op("nanmatdot", ut.nanmatdot, A, B), want, "nanmatdot")
        v3 = np.hstack([f(case[2]).reshape(2, 2), f(case[1]).reshape(2, 2)[:, :1]])
        want = np.array([[dot(A[i], v3[:, j]) for j in range(3)] for i in range(2)])
        ctx.eq(ctx.op("nanmatdot 2x3", ut.nanmatdot, A, v3), want, "nanmatdot-shape")


def run_col(case, ctx):
    _, n, p, v = case
    X = np.array([np.nan if x is None else float(x) for x in v]).reshape(n, p)
    ctx.state(case)
    if (np.isfinite(X).sum(axis=0) < 1).any():
        ctx.skip("column without observed cell")
        return
    statistics(ctx, X)


def statistics(ctx, X):
    X0 = X.copy()
    t = 1e-9 * (1 + np.nanmax(np.abs(X)))
    for nm, fn, rf in (("mean", pu.mean, ref.mean1), ("median", pu.median, ref.med1), ("std", pu.std, ref.std1), ("mad", pu.mad, ref.mad1)):
        got = ctx.op(nm, fn, X)
        ctx.eq(got, ref.col(rf, X), nm, rtol=1e-9, atol=t, shape=False)
        one = np.concatenate([np.ravel(ctx.op(nm, fn, X[:, [j]])) for j in range(X.shape[1])])
        ctx.eq(one, ref.col(rf, X), nm + "-column", rtol=1e-9, atol=t, shape=False)
    for c, s in CS:
        E, m, d = standard(X, c, s)
        for Z in (X, pd.DataFrame(X)):
            sc = VersatileScaler(center=c, scale=s)
            got = np.asarray(ctx.op(("scaler", c, s), sc.fit_transform, Z), float)
            ctx.eq(got, E, "standardised:%s:%s" % (c, s), rtol=1e-8, atol=1e-8)
            ctx.eq(sc.col_loc_, m, "location:" + c, rtol=1e-9, atol=t, shape=False)
            if s != "None":
                ctx.eq(sc.col_sca_, d, "scale:" + s, rtol=1e-9, atol=t, shape=False)
            new = np.asarray(ctx.op("transform", sc.transform, Z), float)
            ctx.eq(new, E, "standardised-new:%s:%s" % (c, s), rtol=1e-8, atol=1e-8)
    for j in range(X.shape[1]):
        if ref.mad1(X[:, j]) > 0:
            ctx.eq(ctx.op("tau", pu.scaleTau2, X[:, [j]]), [ref.tau1(X[:, j])], "tau-column", rtol=1e-7, atol=t, shape=False)
        ctx.eq(ctx.op("l1median column", pu.l1median, X[:, [j]]), [ref.med1(X[:, j])], "l1median-column", rtol=1e-9, atol=t, shape=False)
    if (np.isfinite(X).sum(axis=1) > 0).all():
        n = len(X)
        for c in ("l1median", "kstepLTS"):
            if c == "kstepLTS" and (np.isnan(X).sum(axis=0) >= (n + 1) // 2).any():
                continue                # a half sample may hold no observed cell of the column
            got = np.asarray(ctx.op(("scaler", c), VersatileScaler(center=c, scale="mad").fit_transform, X), float)
            ctx.same(np.isnan(got).tolist(), np.isnan(X).tolist(), "missing-pattern:" + c)
    ctx.same(X, X0, "input-unchanged")


def agree(a, b):
    for k in ("B", "b0", "T", "fit"):
        x, z = np.asarray(a[k], float), np.asarray(b[k], float)
        if np.nanmax(np.abs(x - z)) > 1e-5 * (1e-12 + np.nanmax(np.abs(x))):
            return False
    return a["keep"] == b["keep"]


def run_fit(case, ctx):
    _, n, p, seed, miss = case
    X, y = build(case)
    if (np.isfinite(X).sum(axis=0) < 2).any():
        ctx.skip("column with fewer than two observed cells")
        return
    statistics(ctx, X)
    X1, y1 = data.bend(X), data.bend(y)
    q = ctx.tier == "quick"
    etas = (0.0, 0.5) if q else (0.0, 0.25, 0.5, 0.8)
    if q and len(miss) == 2:
        etas = (0.4,)
    Xn = data.table(4, p, seed + 70)
    Xm = Xn.copy()
    Xm[1, p - 1] = np.nan
    for eta, h, (c, s) in itertools.product(etas, range(1, min(2, p) + 1), CS if len(miss) < 2 or not q else CS[:4]):
        try:
            w = snipls(X, y, eta, h, c, s)
            w1 = snipls(X1, y1, eta, h, c, s)
        except ref.Ambiguous as e:
            ctx.skip(str(e))
            continue
        if not agree(w, w1):
            ctx.skip("reference ill conditioned")
            continue
        ctx.state(case, eta, h, c, s)
        m = direpack.snipls(eta=eta, n_components=h, verbose=False, centre=c, scale=s)
        Xc, yc = X.copy(), y.copy()
        ctx.op(("fit", eta, h, c, s), m.fit, Xc, yc)
        tol = 1e-6 * (np.nanmax(np.abs(y)) + np.nanmax(np.abs(X)) * np.abs(w["B"]).sum()) + 1e-12
        e = lambda got, want, sig, **k: ctx.eq(got, want, sig, rtol=1e-5, shape=False, **k)
        e(m.x_weights_, w["W"], "weights")
        e(m.x_loadings_, w["P"], "loadings")
        e(m.x_scores_, w["T"], "scores", atol=1e-7 * np.abs(w["T"]).max())
        e(m.C_, w["C"], "inner-relation")
        e(m.coef_scaled_, w["b"], "coef-scaled")
        e(m.coef_, w["B"], "coef")
        e(m.intercept_, w["b0"], "intercept", atol=tol)
        e(m.fitted_, w["fit"], "fitted", atol=tol)
        e(m.residuals_, w["res"], "residuals", atol=tol)
        e(m.x_ev_, w["xev"], "x-explained", atol=1e-4)
        e(m.y_ev_, w["yev"], "y-explained", atol=1e-4)
        e(m.x_loc_, w["mX"], "x-location", atol=tol)
        e(m.y_loc_, w["my"], "y-location", atol=tol)
        ctx.same([int(j) for j in m.colret_], w["keep"], "retained")
        ctx.same((Xc, yc), (X, y), "input-unchanged")
        # prediction: complete cases are complete, a missing cell stays within its case
        pr = np.asarray(ctx.op("predict", m.predict, Xn), float).reshape(-1)
        want = Xn @ w["B"] + w["b0"]
        e(pr, want, "predict", atol=tol * 10)
        pm = np.asarray(ctx.op("predict missing", m.predict, Xm), float).reshape(-1)
        ctx.eq(np.delete(pm, 1), np.delete(want, 1), "predict-other-cases", rtol=1e-5, atol=tol * 10)
        tr = np.asarray(ctx.op("transform", m.transform, Xn), float)
        tm = np.asarray(ctx.op("transform missing", m.transform, Xm), float)
        ctx.true(np.isfinite(tr).all(), "transform-complete")
        ctx.eq(np.delete(tm, 1, 0), np.delete(tr, 1, 0), "transform-other-cases", rtol=1e-9, atol=1e-9)
        if eta == etas[0]:
            md = direpack.snipls(eta=eta, n_components=h, verbose=False, centre=c, scale=s)
            ctx.op("fit frame", md.fit, pd.DataFrame(X), pd.Series(y))
            e(md.coef_, w["B"], "coef-frame")
        ctx.outcome(tuple(w["keep"]), np.round(w["B"], 5).tobytes())
