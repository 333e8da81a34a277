"""C09 coherence of a fitted model with its own predict/transform."""
import itertools
import numpy as np
from lib import data, ref, models

PID = "C09"
RULE = """Every estimator of the package in every listed configuration x every base table (narrow, wide where supported,
with outlying case, constant column, constant offset) ; one execution fits, then drives predict/transform over
every batching of the training rows (whole, each row alone, every consecutive split in two, reversed, repeated)
and over new rows.  Decided: fitted = predict(training data), residual = response - fitted, scores =
transform(training data), scores = standardised data times rotations, and every row's answer is independent of
the batch it arrives in."""
ASSUMPTIONS = ["complete data"]


def BOUNDS(tier):
    return {"estimators": sorted({m[0] for m in models.catalogue(tier)}), "configurations": len(models.catalogue(tier)),
            "datasets": "4 shapes x deviations", "batchings": "all rows singly, all 2-splits, reversal, repetition"}


def cases(tier):
    q = tier == "quick"
    for mi, mdl in enumerate(models.catalogue(tier)):
        for ds in list(models.datasets(q, mdl)) + [(40, 5, 1, "none")]:
            yield ("model", mdl, ds)


    for h, f in ((1, 2), (2, 1)):          # number of components given to fit
        for pia, two in ((dict(mode="cov"), True), (dict(mode="var"), False)):
            for opt, oo in (("SLSQP", {"maxiter": 300}), ("grid", {"ndir": 24, "maxiter": 6})):
                mdl = ("ppdire", dict(pi="dicomo", pi_arguments=pia, n_components=h, optimizer=opt, optimizer_options=oo, square_pi=two), dict(h=f))
                for ds in models.datasets(q, mdl):
                    yield ("model", mdl, ds)


LATER = {"snipls": dict(n_components=3, eta=.9), "sprm": dict(n_components=3, eta=.9, fun="Fair"), "rm": dict(fun="Huber", probp1=.6),
         "ppdire": dict(n_components=3, trimming=.2), "sudire": dict(n_components=3, n_slices=2)}


def run(case, ctx):
    _, mdl, ds = case
    X, y = models.load(ds)
    n, p = X.shape
    m = models.make(mdl)
    ctx.op(("fit", mdl, ds), models.fit, m, mdl, X, y)
    kind = mdl[0]
    Xn = np.vstack([X[1] * 1.5, X[2] - 2.0, np.zeros(p) + 0.5, X[0]])
    state0 = models.snapshot(m)
    if models.has_predict(mdl):
        pr = np.asarray(ctx.op("predict", m.predict, X), float)
        sc = np.abs(y).max() + np.abs(pr).max()
        ctx.true(pr.reshape(-1).shape == (n,), "predict-shape", str(pr.shape))
        fit = models.fitted(m, mdl)
        if fit is not None:
            ctx.eq(fit, pr, "fitted-is-predict", shape=False, rtol=1e-8, atol=1e-8 * sc)
            ctx.eq(m.residuals_, y - np.ravel(fit), "residual-is-y-minus-fitted", shape=False, rtol=1e-8, atol=1e-8 * sc)
        if kind in ("snipls", "sprm", "rm", "ppdire"):
            keep = getattr(m, "non_zero_scale_vars_", None)
            Xk = X if keep is None else X[:, keep]
            cf = np.asarray(m.coef_, float)[:, -1]
            ctx.eq(pr, Xk @ cf + float(np.ravel(m.intercept_)[0]), "predict-is-linear", shape=False, rtol=1e-8, atol=1e-8 * sc)
        batches(ctx, m.predict, X, pr.reshape(n, -1), "predict", sc)
        rows = np.vstack([np.asarray(ctx.op("predict new row", m.predict, Xn[[i]]), float).reshape(1, -1) for i in range(len(Xn))])
        ctx.eq(ctx.op("predict new", m.predict, Xn), rows, "predict-new-rowwise", shape=False, rtol=1e-8, atol=1e-8 * sc)
        if p > 1 and kind in ("snipls", "rm", "sprm"):
            one = np.asarray(ctx.op("predict 1-d row", m.predict, Xn[0]), float)
            ctx.eq(one, rows[0], "predict-1d-row", shape=False, rtol=1e-8, atol=1e-8 * sc)
    if models.has_transform(mdl):
        T = np.asarray(ctx.op("transform", m.transform, X), float)
        h = mdl[2].get("h", mdl[1].get("n_components", 1))
        ctx.true(T.shape == (n, h), "transform-shape", "%s %s" % (T.shape, h))
        sc = np.abs(T).max()
        S = models.scores(m, mdl)
        if S is not None:
            S = np.asarray(S, float)
            late = kind == "snipls" and h > 1 and late_entry(m)
            nrm = np.sqrt((S ** 2).sum(0))
            if nrm.min() < 1e-8 * nrm.max():
                ctx.skip("component without any variation left")
            else:
                ctx.eq(S, T, "snipls-variable-entering-after-first-component" if late else "scores-are-transform",
                       rtol=1e-6, atol=1e-6 * sc)
        R = models.rotation(m, mdl)
        if R is not None:
            keep = getattr(m, "non_zero_scale_vars_", None)
            mu, s = np.asarray(m.x_loc_, float).ravel(), np.asarray(m.x_sca_, float).ravel()
            Z = ref.scale(X, mu, s)
            if keep is not None:
                Z = Z[:, keep]
            ctx.eq(T, Z @ np.asarray(R, float), "transform-is-rotation", rtol=1e-8, atol=1e-8 * sc)
        batches(ctx, m.transform, X, T, "transform", sc)
        rows = np.vstack([np.asarray(ctx.op("transform new row", m.transform, Xn[[i]]), float).reshape(1, -1) for i in range(len(Xn))])
        ctx.eq(ctx.op("transform new", m.transform, Xn), rows, "transform-new-rowwise", shape=False, rtol=1e-8, atol=1e-8 * (sc + np.abs(rows).max()))
    ctx.true(models.snapshot(m) == state0, "model-changed-by-use",
             "attributes changed: %s" % sorted(k for k in set(state0) | set(models.snapshot(m)) if state0.get(k) != models.snapshot(m).get(k)))
    # settings changed afterwards are for the next fit
    m.set_params(**LATER[kind])
    if models.has_predict(mdl):
        ctx.eq(ctx.op("predict after set_params", m.predict, X), pr, "predict-after-new-settings", shape=False, rtol=1e-12)
    if models.has_transform(mdl):
        ctx.eq(ctx.op("transform after set_params", m.transform, X), T, "transform-after-new-settings", rtol=1e-12)
    ctx.state(case)
    ctx.outcome(models.summary(m, mdl))


def late_entry(m):
    """a variable gets its first non-zero weight after the first component"""
    W = np.asarray(m.x_weights_) != 0
    return bool((W[:, 1:].any(axis=1) & ~W[:, 0]).any())


def batches(ctx, f, X, whole, what, sc):
    n = len(X)
    at = 1e-8 * sc
    for i in range(n):
        ctx.eq(ctx.op((what, "row", i), f, X[[i]]), whole[i], what + "-single-row", shape=False, rtol=1e-8, atol=at)
    for k in range(1, n):
        a = np.asarray(ctx.op((what, "split", k), f, X[:k]), float).reshape(k, -1)
        b = np.asarray(ctx.op((what, "rest", k), f, X[k:]), float).reshape(n - k, -1)
        ctx.eq(np.vstack([a, b]), whole, what + "-split", rtol=1e-8, atol=at)
    ctx.eq(np.asarray(ctx.op((what, "reversed"), f, X[::-1]), float).reshape(n, -1), whole[::-1], what + "-reversed", rtol=1e-8, atol=at)
    ctx.eq(np.asarray(ctx.op((what, "twice"), f, np.vstack([X, X])), float).reshape(2 * n, -1), np.vstack([whole, whole]), what + "-repeated", rtol=1e-8, atol=at)
