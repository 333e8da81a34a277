"""C06 sparse NIPALS partial least squares."""
import itertools
import numpy as np
import pandas as pd
from lib import data, ref, reg
import direpack

PID = "C06"
RULE = """Every base regression table (all shapes, narrow and wide) with every single deviation (outlying cell,
constant column, duplicated column, negated response, tiny/huge units) and every small lattice table x every
number of components x every sparsity level x centring x scaling x way of naming columns.  One execution fits the
real model and compares weights, loadings, scores, inner relation, rotations, coefficients, intercepts, explained
variances, fitted values, residuals and retained variables with an independent NIPALS reference; additionally the
retained set is nested in the number of components and every coefficient outside it is exactly zero.
Executions whose reference moves under a 1e-9 perturbation (variable on the threshold, exhausted covariance)
are excluded and counted."""
ASSUMPTIONS = ["complete data (missing cells: C25)"]
ETAS_Q = (0.0, 0.3, 0.6, 0.9)
ETAS_T = (0.0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.99)
CS_Q = [("mean", "None"), ("mean", "std"), ("median", "mad"), ("None", "None"), ("l1median", "None"), ("mean", "mad"),
        ("median", "None")]
CS_T = [(c, s) for c in ("mean", "median", "None", "l1median", "kstepLTS") for s in ("None", "std", "mad", "scaleTau2")]


def BOUNDS(tier):
    q = tier == "quick"
    return {"eta": ETAS_Q if q else ETAS_T, "centre/scale": CS_Q if q else CS_T,
            "shapes": [(6, 2), (7, 3), (8, 5), (5, 7), (4, 1)], "components": "1..min(n-1,p)"}


def devs(n, p, q):
    yield ()
    for i in range(0, n, 2 if q else 1):
        yield (("x", i, i % p, 40.0),)
        yield (("y", i, -60.0),)
    for j in range(p):
        yield (("const", j),)
    if p > 1:
        yield (("dup", 0, p - 1),)
        yield (("big", 0, 1024.0),)
    yield (("neg",),)
    yield (("unit", 2.0 ** -20),)
    yield (("unit", 2.0 ** 20),)


def cases(tier):
    q = tier == "quick"
    for seed in range(1, 3 if q else 6):
        for (n, p) in ((4, 1), (6, 2), (7, 3), (8, 5), (5, 7)):
            for d in devs(n, p, q):
                for h in range(1, min(n - 1, p) + 1):
                    yield ("fit", n, p, seed, d, h)
    for (n, p) in ((60, 10), (12, 30)):
        for d in ((), (("y", 3, -60.0),), (("const", 2),)):
            for h in (1, 3, 6):
                yield ("fit", n, p, 1, d, h)
    for c in itertools.product((0, 1, 3), repeat=4):
        for y in itertools.product((0, 2), repeat=4):
            if q and sum(y) % 4 == 0 and y[0] == 0:
                continue
            yield ("lat", 4, 1, c, y, 1)
    for c in itertools.product((0, 2), repeat=8):
        yield ("lat", 4, 2, c, (0, 1, 3, 7), 1)
        yield ("lat", 4, 2, c, (0, 1, 3, 7), 2)


def build(case):
    if case[0] == "lat":
        return np.array(case[3], float).reshape(case[1], case[2]), np.array(case[4], float)
    _, n, p, seed, dev, h = case
    X, y = data.regression(n, p, seed)
    for d in dev:
        if d[0] == "x":
            X[d[1], d[2]] += d[3]
        elif d[0] == "y":
            y[d[1]] += d[2]
        elif d[0] == "const":
            X[:, d[1]] = 0.1
        elif d[0] == "dup":
            X[:, d[2]] = X[:, d[1]]
        elif d[0] == "big":
            X[:, d[1]] *= d[2]
        elif d[0] == "neg":
            y = -y
        elif d[0] == "unit":
            X = X * d[1]
            y = y / d[1]
    return X, y


def run(case, ctx):
    X, y = build(case)
    n, p = X.shape
    h = case[5]
    q = case[0] == "lat"
    names = ["v%d" % j for j in range(p)]
    X1, y1 = data.bend(X), data.bend(y)
    etas = ETAS_Q if (q or ctx.tier == "quick") else ETAS_T
    cs = CS_Q[:4] if q else (CS_Q if ctx.tier == "quick" else CS_T)
    for eta, (c, s) in itertools.product(etas, cs):
        if s == "scaleTau2" and ((ref.col(ref.mad1, X) == 0).any() or ref.mad1(y) == 0):
            continue
        try:
            w = reg.snipls(X, y, eta, h, c, s)
            w1 = reg.snipls(X1, y1, eta, h, c, s)
        except ref.Ambiguous as e:
            ctx.skip(str(e))
            continue
        if not reg.agree(w, w1, 1e-6):
            ctx.skip("reference ill conditioned")
            continue
        m = direpack.snipls(eta=eta, n_components=h, verbose=False, centre=c, scale=s)
        r = ctx.op(("fit", eta, h, c, s), m.fit, X, y)
        ctx.true(r is m, "fit-returns-self")
        observe(ctx, m, w, X, y, h)
        # naming of the retained variables
        mn = ctx.op(("fit names", eta, h), direpack.snipls(eta=eta, n_components=h, verbose=False, centre=c, scale=s, columns=names).fit, X, y)
        ctx.same([str(v) for v in mn.colret_], [names[j] for j in w["keep"]], "retained-names")
        ctx.eq(mn.coef_, w["B"].reshape(-1, 1), "coef-with-names", rtol=1e-6)
        if eta == etas[0] or ctx.tier != "quick":
            md = ctx.op(("fit frame", eta, h), direpack.snipls(eta=eta, n_components=h, verbose=False, centre=c, scale=s, columns=True).fit,
                        pd.DataFrame(X, columns=names), y)
            ctx.same([str(v) for v in md.colret_], [names[j] for j in w["keep"]], "retained-frame-names")
        ctx.state(case, eta, c, s)
        ctx.outcome(w["B"], w["keep"])


def observe(ctx, m, w, X, y, h):
    n, p = X.shape
    e = lambda got, want, sig, **k: ctx.eq(got, want, sig, rtol=k.pop("rtol", 1e-6), shape=False, **k)
    e(m.x_weights_, w["W"], "weights")
    e(m.x_loadings_, w["P"], "loadings")
    e(m.x_scores_, w["T"], "scores")
    e(m.C_, w["C"], "inner-relation")
    e(m.x_Rweights_, w["R"], "rotations")
    e(m.coef_scaled_, w["b"], "coef-scaled")
    ctx.eq(m.coef_, w["B"].reshape(-1, 1), "coef", rtol=1e-6)
    tol = 1e-6 * (np.abs(y).max() + np.abs(X).max() * np.abs(w["B"]).sum()) + 1e-12
    e(m.intercept_, w["b0"], "intercept", atol=tol)
    e(m.fitted_, w["fit"], "fitted", atol=tol)
    e(m.residuals_, w["res"], "residuals", atol=tol)
    e(m.x_ev_, w["xev"], "x-explained", atol=1e-6 * 100)
    e(m.y_ev_, w["yev"], "y-explained", atol=1e-6 * 100)
    e(m.x_loc_, w["mX"], "x-location")
    e(m.x_sca_, w["sX"], "x-scale")
    e(m.y_loc_, w["my"], "y-location")
    e(m.y_sca_, w["sy"], "y-scale")
    ctx.same([int(v) for v in m.colret_], w["keep"], "retained-set")
    out = [j for j in range(p) if j not in w["keep"]]
    ctx.true(all(float(np.ravel(m.coef_)[j]) == 0.0 for j in out), "coefficient-outside-retained-set", str(np.ravel(m.coef_)))
    ctx.true(all(np.all(np.asarray(m.x_weights_)[j] == 0) for j in out), "weight-outside-retained-set")
    # one component less retains a subset
    for a in range(len(w["sets"]) - 1):
        ctx.true(set(w["sets"][a]) <= set(w["sets"][-1]), "nested")
