"""C07 sparse partial robust M regression."""
import itertools
import numpy as np
import pandas as pd
from lib import data, ref, reg
import direpack
from checks.c08 import deviate

PID = "C07"
RULE = """Every base regression table (narrow and wide) with every single outlying case (vertical up/down, leverage), pairs
of outlying cases, constant and majority-constant columns x number of components x sparsity x weight function x
cut-offs x centring/scaling x starting value modes x iteration limits.  One execution fits the real model and
compares coefficients, intercepts, case weights, scores, rotations, weights, loadings, explained variances, the
retained variables, the removed zero-scale variables and the weights of new cases with an independent
iteratively reweighted reference; case weights must lie in [0,1].  Executions whose reference moves under a 1e-9
perturbation are excluded and counted."""
ASSUMPTIONS = ["probp1 > 1/2", "at least two iterations allowed",
               "starting y weights outside median/mad are one-sided as pinned by the repository's own test (see known findings)"]
FUNS = ("Hampel", "Huber", "Fair")
PROBS = ((.95, .975, .999), (.7, .85, .95))
CS = [("median", "mad"), ("mean", "std"), ("l1median", "mad"), ("kstepLTS", "scaleTau2"), ("median", "None"),
      ("mean", "None"), ("None", "mad")]
NAMES = ["n%d" % j for j in range(60)]


def BOUNDS(tier):
    return {"functions": FUNS, "cut-offs": PROBS, "centre/scale": CS, "modes": ["specific", "identical"],
            "starting values": ["pcapp", "direct"], "shapes": [(12, 3), (10, 5), (8, 11)], "components": [1, 2, 3],
            "eta": [0., .3, .7]}


def devs(n, p, q):
    yield ()
    for i in range(0, n, 5 if q else 1):
        for k in ("up", "down", "lev"):
            yield ((k, i),)
    for j in range(1, 2 if q else min(p, 3)):
        yield (("const", j),)
    yield (("const", 0), ("const", p - 1))
    yield (("zeromad", 1),)
    yield (("const", 0), ("down", 2))
    for a, b in itertools.combinations(range(n), 2):
        if not q:
            yield (("up", a), ("down", b))


def cases(tier):
    q = tier == "quick"
    for (n, p) in ((40, 5), (15, 24)):
        for d in ((), (("down", 2), ("const", 0))):
            for fun in FUNS:
                yield ("fit", n, p, 1, d, fun, 2)
    for seed in range(1, 2 if q else 3):
        for (n, p) in ((12, 3), (10, 5), (8, 11)):
            for d in devs(n, p, q):
                for fun in FUNS:
                    for h in (1, 2) if q else (1, 2, 3):
                        yield ("fit", n, p, seed, d, fun, h)


def build(case):
    _, n, p, seed, dev, fun, h = case
    X, y = data.regression(n, p, seed, noise=2.0)
    X, y = deviate(X, y, [d for d in dev if d[0] != "zeromad"])
    for d in dev:
        if d[0] == "zeromad":
            X[:, d[1]] = 1.5
            X[0, d[1]] = 4.0
            X[1, d[1]] = -2.0
    return X, y


def run(case, ctx):
    _, n, p, seed, dev, fun, h = case
    X, y = build(case)
    X1, y1 = data.bend(X), data.bend(y)
    q = ctx.tier == "quick"
    for eta, pr, (c, s), mode, init in itertools.product((0., .3, .7), PROBS, CS, ("specific", "identical"), ("pcapp", "direct")):
        if q and (mode, init) != ("specific", "pcapp") and (pr != PROBS[0] or (c, s) not in (("median", "mad"), ("mean", "std"))):
            continue
        if q and (c, s) in (("l1median", "mad"), ("kstepLTS", "scaleTau2")) and (pr != PROBS[0] or eta != .3):
            continue
        for mi, tol in ((100 if not q else 10, .01),) if (c, s) != ("median", "mad") or (q and init != "pcapp") else (
                (100 if not q or eta == .3 else 15, .01), (2, .01), (100 if not q else 8, 1e-5)):
            kw = dict(eta=eta, fun=fun, centre=c, scale=s, maxit=mi, tol=tol)
            if s == "scaleTau2" and ref.mad1(y) == 0:
                continue
            rk = dict(p1=pr[0], p2=pr[1], p3=pr[2], mode=mode, init=init, h=h)
            try:
                w = reg.sprm(X, y, **rk, **kw)
                w1 = reg.sprm(X1, y1, **rk, **kw)
            except ref.Ambiguous as e:
                ctx.skip(str(e))
                continue
            if not reg.agree(w, w1, 1e-6) or not np.isfinite(w["B"]).all():
                ctx.skip("reference ill conditioned")
                continue
            args = dict(n_components=h, probp1=pr[0], probp2=pr[1], probp3=pr[2], start_cutoff_mode=mode, start_X_init=init, verbose=False, **kw)
            m = direpack.sprm(**args)
            ctx.op(("fit", eta, pr, c, s, mode, init, mi, tol), m.fit, X, y)
            observe(ctx, m, w, X, y, n)
            if eta == .3 and mode == "specific" and init == "pcapp" and (not q or pr == PROBS[0]):
                mn = ctx.op("fit named", direpack.sprm(columns=NAMES[:p], **args).fit, X, y)
                ctx.same([str(v) for v in mn.colret_], [NAMES[j] for j in w["colret"]], "retained-names")
                ctx.eq(mn.coef_, w["B"].reshape(-1, 1), "coef-with-names", rtol=1e-5)
                md = ctx.op("fit frame", direpack.sprm(columns=True, **args).fit, pd.DataFrame(X, columns=NAMES[:p]), y)
                ctx.same([str(v) for v in md.colret_], [NAMES[j] for j in w["colret"]], "retained-frame-names")
                newx(ctx, m, w, X, h, fun, c, s)
            ctx.state(case, eta, pr, c, s, mode, init, mi, tol)
            ctx.outcome(w["B"], w["w"])


def newx(ctx, m, w, X, h, fun, c, s):
    """weights of new cases: weight function of their standardised scores"""
    for Xn in (X, X[::-1][: X.shape[0] - 2] * 1.25 + 0.5):
        Tn = ref.scale(Xn[:, w["keep"]], w["mX"][w["keep"]], w["sX"][w["keep"]]) @ w["R"]
        sc = "mad" if w["scale"] == "None" else w["scale"]
        try:
            z = reg.std_(Tn, c, sc)[0]
            z1 = reg.std_(data.bend(Tn), c, sc)[0]
        except ref.Ambiguous:
            ctx.skip("new case weights")
            return
        if not np.allclose(z, z1, atol=1e-6 * (1 + np.abs(z).max())):
            ctx.skip("new case weights")
            return
        d = ref.norms(z)
        want = ref.WFUN[fun](d / ref.med1(d), *w["cx"])
        ctx.eq(ctx.op("weightnewx", m.weightnewx, Xn), want, "new-case-weights", rtol=1e-5, atol=1e-5, shape=False)


def observe(ctx, m, w, X, y, n):
    e = lambda got, want, sig, **k: ctx.eq(got, want, sig, rtol=1e-5, shape=False, **k)
    ctx.eq(m.coef_, w["B"].reshape(-1, 1), "coef", rtol=1e-5)
    e(m.coef_scaled_, w["b"], "coef-scaled")
    Xk = X[:, w["keep"]]
    at = 1e-5 * (np.abs(y).max() + np.abs(Xk * w["B"]).sum(1).max())
    e(m.intercept_, w["b0"], "intercept", atol=at)
    e(m.intercept_scaled_, w["bs0"], "intercept-scaled", atol=at + 1e-5)
    e(m.caseweights_, w["w"], "case-weights", atol=1e-5)
    e(m.x_caseweights_, w["wt"], "x-case-weights", atol=1e-5)
    e(m.y_caseweights_, w["wy"], "y-case-weights", atol=1e-5)
    e(m.fitted_, w["fit"], "fitted", atol=at)
    e(m.residuals_, y - w["fit"], "residuals", atol=at)
    e(m.x_scores_, w["T"], "scores")
    e(m.x_Rweights_, w["R"], "rotations")
    e(m.x_weights_, w["W"], "weights")
    e(m.x_loadings_, w["P"], "loadings")
    e(m.C_, w["C"], "inner-relation")
    e(m.x_ev_, w["xev"], "x-explained", atol=1e-3)
    e(m.y_ev_, w["yev"], "y-explained", atol=1e-3)
    e(m.x_loc_, w["mX"], "x-location")
    e(m.x_sca_, w["sX"], "x-scale")
    e(m.y_loc_, w["my"], "y-location")
    e(m.y_sca_, w["sy"], "y-scale")
    ctx.same([int(v) for v in m.non_zero_scale_vars_], [int(v) for v in w["keep"]], "variables-with-scale")
    ctx.same([int(v) for v in m.colret_], w["colret"], "retained-set")
    for k in ("caseweights_", "x_caseweights_", "y_caseweights_"):
        v = np.ravel(getattr(m, k))
        ctx.true(v.shape == (n,) and np.all((v >= 0) & (v <= 1)), "weights-in-unit-interval", "%s %s" % (k, v))
