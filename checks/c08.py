"""C08 robust M regression."""
import itertools
import numpy as np
from lib import data, ref, reg
import direpack

PID = "C08"
RULE = """Every base regression table with every single outlying case (vertical up/down, leverage, both), every pair of
outlying cases, and constant columns x weight function x cut-off probabilities x centring x scaling x starting
cut-off mode x iteration limits.  One execution fits the real M regression and compares coefficients, intercepts
(scaled and original units), case weights (x, y, combined), locations and scales with an independent
iteratively reweighted least squares reference; weights must lie in [0,1].  Executions whose reference moves under
a 1e-9 perturbation of the data are excluded and counted."""
ASSUMPTIONS = ["probp1 > 1/2 so that the cut-offs are positive", "at least two iterations allowed",
               "predictors of full column rank after scaling unless a constant column is present"]
FUNS = ("Hampel", "Huber", "Fair")
PROBS = ((.95, .975, .999), (.8, .9, .95), (.6, .7, .8))
CS = [("median", "mad"), ("mean", "std"), ("median", "None"), ("l1median", "mad"), ("kstepLTS", "scaleTau2"),
      ("mean", "None"), ("median", "std"), ("None", "mad")]


def BOUNDS(tier):
    return {"functions": FUNS, "cut-offs": PROBS, "centre/scale": CS, "modes": ["specific", "identical"],
            "maxit": [2, 3, 100], "tol": [.01, 1e-6], "deviations": "all single, all pairs of outlying cases"}


def devs(n, p, q):
    yield ()
    for i in range(n):
        for k in ("up", "down", "lev", "good"):
            yield ((k, i),)
    for j in range(p if p > 1 else 0):
        yield (("const", j),)
    for a, b in itertools.combinations(range(n), 2):
        if q and (a + b) % 3:
            continue
        yield (("up", a), ("down", b))
        yield (("up", a), ("up", b))
    yield (("exactzero", 0),)


def cases(tier):
    q = tier == "quick"
    for (n, p) in ((80, 4), (40, 7)):
        for d in ((), (("up", 3),), (("down", 5), ("lev", 1)), (("const", 1),)):
            for fun in FUNS:
                yield ("fit", n, p, 1, d, fun)
    for seed in range(1, 2 if q else 4):
        for (n, p) in ((9, 1), (10, 2), (11, 3)):
            for d in devs(n, p, q):
                for fun in FUNS:
                    yield ("fit", n, p, seed, d, fun)


def deviate(X, y, dev):
    X, y = X.copy(), y.copy()
    p = X.shape[1]
    for d in dev:
        i = d[1]
        if d[0] == "up":
            y[i] += 30.0
        elif d[0] == "down":
            y[i] -= 30.0
        elif d[0] == "lev":
            X[i] = X[i] + 25.0 * (-1.0) ** np.arange(p)
        elif d[0] == "good":
            X[i] = X[i] * 16
            y[i] = y[i] * 16
        elif d[0] == "const":
            X[:, i] = 0.1
        elif d[0] == "exactzero":
            y[i] = 0.0
    return X, y


def run(case, ctx):
    _, n, p, seed, dev, fun = case
    X, y = data.regression(n, p, seed, noise=2.0)
    X, y = deviate(X, y, dev)
    X1, y1 = data.bend(X), data.bend(y)
    q = ctx.tier == "quick"
    probs = PROBS if fun == "Hampel" or not q else PROBS[:2]
    for pr, (c, s), mode in itertools.product(probs, CS, ("specific", "identical")):
        for mi, tol in ((100, .01),) if (q and (c, s) != ("median", "mad")) else ((100, .01), (2, .01), (3, 1e-6), (100, 1e-6)):
            if s == "scaleTau2" and ((ref.col(ref.mad1, X) == 0).any()):
                continue
            kw = dict(fun=fun, centre=c, scale=s, maxit=mi, tol=tol)
            try:
                w = reg.rm(X, y, p1=pr[0], p2=pr[1], p3=pr[2], mode=mode, **kw)
                w1 = reg.rm(X1, y1, p1=pr[0], p2=pr[1], p3=pr[2], mode=mode, **kw)
            except ref.Ambiguous as e:
                ctx.skip(str(e))
                continue
            if not reg.agree(w, w1, 1e-6) or not np.isfinite(w["B"]).all():
                ctx.skip("reference ill conditioned")
                continue
            m = direpack.rm(probp1=pr[0], probp2=pr[1], probp3=pr[2], start_cutoff_mode=mode, verbose=False, **kw)
            ctx.op(("fit", pr, c, s, mode, mi, tol), m.fit, X, y)
            e = lambda got, want, sig, **k: ctx.eq(got, want, sig, rtol=1e-5, shape=False, **k)
            ctx.eq(m.coef_, w["B"].reshape(-1, 1), "coef", rtol=1e-5)
            e(m.coef_scaled_, w["b"], "coef-scaled")
            at = 1e-5 * (np.abs(y).max() + np.abs(X * w["B"]).sum(1).max())
            e(m.intercept_, w["b0"], "intercept", atol=at)
            e(m.intercept_scaled_, w["bs0"], "intercept-scaled", atol=1e-5 * (1 + np.abs(w["ys"]).max() + np.abs(w["Xs"] * w["b"]).sum(1).max()) + at * (s == "None"))
            e(m.caseweights_, w["w"], "case-weights", atol=1e-5)
            e(m.x_caseweights_, w["wx"], "x-case-weights", atol=1e-5)
            e(m.y_caseweights_, w["wy"], "y-case-weights", atol=1e-5)
            e(m.fitted_, w["fit"], "fitted", atol=at)
            e(m.residuals_, y - w["fit"], "residuals", atol=at)
            e(m.x_loc_, w["mX"], "x-location")
            e(m.x_sca_, w["sX"], "x-scale")
            e(m.y_loc_, w["my"], "y-location")
            e(m.y_sca_, w["sy"], "y-scale")
            for k in ("caseweights_", "x_caseweights_", "y_caseweights_"):
                v = np.ravel(getattr(m, k))
                ctx.true(v.shape == (n,) and np.all((v >= 0) & (v <= 1)), "weights-in-unit-interval", "%s %s" % (k, v))
            ctx.state(case, pr, c, s, mode, mi, tol)
            ctx.outcome(w["B"], w["w"])
