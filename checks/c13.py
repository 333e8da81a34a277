"""C13 projection pursuit algebra: unit weights, orthogonal scores, LS loadings, coefficients per component."""
import itertools
import math
import numpy as np
from lib import data, ref, reg, como, stand
from lib.ref import Ambiguous
import direpack
from direpack import ppdire, dicomo, capi

PID = "C13"
RULE = """Every table (base tables with every outlier position, offset or duplicated case) x projection index x optimiser x
number of components x centring/scaling/trimming/regression option.  For the general-purpose optimisers the solver is
additionally replaced by an enumerated answerer (every answer direction from a set), so the algebra is decided for
whatever direction is found.  All identities are recomputed from the input data and the returned weights only."""
ASSUMPTIONS = ["the number of components does not exceed the rank of the centred data",
               "executions in which a component's score is rounding noise are excluded and counted",
               "whitening and compression are outside this property (whitening of more than one variable is not usable, see DESIGN.md)"]


def BOUNDS(tier):
    return {"tables": "(8..12) x (2..6) and wide 6x8, <=1 deviation", "components": "1..3", "answers": "6 directions per component", "tier": tier}


SL = ("SLSQP", {"maxiter": 300})
GR = ("grid", {"ndir": 24, "maxiter": 6})
PREP = [dict(), dict(scale_data=False), dict(center="median"), dict(center="median", scale_data=False), dict(center_data=False, scale_data=False)]


def cases(tier):
    q = tier == "quick"
    shapes = [(10, 2), (9, 3), (12, 4)] + ([] if q else [(14, 6), (6, 8)])
    for (n, p) in ((60, 4), (40, 8)):
        for mode in ("var", "cov"):
            for opt in (GR, SL):
                for h in (1, 3):
                    yield ("fit", n, p, "none", mode, opt, h, dict(regopt="robust") if mode == "cov" and h == 3 else dict())
    for (n, p) in shapes:
        devs = ["none", "offset", "dup", "zero"] + ["out%d" % i for i in range(0, n, 3 if q else 1)]
        for dev in devs:
            for mode in ("var", "cov", "corr"):
                for opt in (GR, SL):
                    if mode == "corr" and opt is SL:
                        continue
                    for h in (1, 2, 3):
                        if h > min(p, n - 1) or (mode == "corr" and h >= p):
                            continue
                        for pr in PREP if dev in ("none", "out3", "offset") or not q else PREP[:1]:
                            yield ("fit", n, p, dev, mode, opt, h, pr)
                            if mode == "cov" and opt is SL:
                                yield ("fit", n, p, dev, mode, opt, h, dict(pr, regopt="robust"))
                                yield ("fit", n, p, dev, mode, opt, h, dict(pr, regopt="quantile"))
            yield ("fit", n, p, dev, "cov", GR, min(2, p), dict(trimming=0.11, square_pi=True))
            yield ("fit", n, p, dev, "cov", GR, min(2, p), dict(center="median", square_pi=True))
            for fk in [dict(fun=f, probp1=a) for f in ("Hampel", "Huber", "Fair") for a in (.95, .8)] + [dict(probp2=.96), dict(probp3=.9995), dict(probp1=.7, probp2=.8, probp3=.9)]:
                for pr in PREP[:1] + PREP[2:3]:
                    yield ("fit", n, p, dev, "cov", GR, min(2, p), dict(pr, regopt="robust", square_pi=True, fit=fk))
            for h in (1, 2):
                yield ("fit", n, p, dev, "cov", GR, h, dict(square_pi=True, fit=dict(h=h, mixing=True), declared=3 - h))
                yield ("fit", n, p, dev, "var", GR, h, dict(fit=dict(h=h, mixing=True), declared=3 - h))
                yield ("fit", n, p, dev, "cov", SL, h, dict(center="median", fit=dict(h=h, mixing=True), declared=3))
            for qu in (.1, .25, .5, .75, .9):
                for pr in PREP[:1] + PREP[2:3]:
                    yield ("fit", n, p, dev, "cov", GR, min(2, p), dict(pr, regopt="quantile", square_pi=True, fit=dict(quantile=qu)))
            yield ("fit", n, p, dev, "distance", GR, 1, dict())
            yield ("fit", n, p, dev, "capi", GR, 1, dict())
            yield ("fit", n, p, dev, "cos", GR, 1, dict(square_pi=True))
        # enumerated solver answers
        for h in (1, 2):
            for opt in ("SLSQP", "IPOPT", "differential_evolution"):
                for ans in itertools.product(range(6), repeat=h):
                    for pr in PREP[:1] if q else PREP[:3]:
                        yield ("answer", n, p, "none", "cov", (opt, {"maxiter": 100}), h, pr, ans)


def load(n, p, dev):
    X, y = data.regression(n, p, 3, noise=2.0)
    if dev == "offset":
        X, y = X + 64.0, y - 32.0
    elif dev == "dup":
        X[1], y[1] = X[0], y[0]
    elif dev == "zero":
        X[2] = 0.0
    elif dev.startswith("out"):
        i = int(dev[3:])
        X[i, 0] += 25.0
        y[i] -= 30.0
    return X, y


def index(mode):
    if mode == "capi":
        return capi, dict(max_degree=3, projection_index=dicomo, pi_arguments={"est": "arithmetic"}, scaling=False)
    if mode == "distance":
        return dicomo, dict(est="distance", mode="cov")
    return dicomo, dict(mode=mode)


def value(mode, t, ys, kw):
    """the projection index at a score vector, from the definition"""
    t, trim = np.asarray(t).ravel(), kw.get("trimming", 0)
    f = None if ys is None else ys.ravel()
    if mode == "distance":
        return math.sqrt(abs(como.dcov_sqr(t, f, False)))
    if mode == "capi":
        return como.second(t, f, trim, False) + sum(como.comoment(t, f, 3, k, trim, False) for k in (1, 2))
    if mode == "cos":
        return como.stat("cos", t, f, trim=trim)
    return como.stat(mode, t, f, trim=trim)


class Answerer:
    """stands in for a solver: returns the next scripted direction"""

    def __init__(self, answers, p):
        self.answers = [DIR[a][:p] for a in answers]
        self.calls = 0

    def __call__(self, fun, *a, **k):
        x = self.answers[self.calls]
        self.calls += 1

        class R:
            pass
        r = R()
        r.x = np.array(x, float)
        r.fun = 0.0
        r.success = True
        return r


DIR = [np.array(v, float) for v in ((1, .5, -.25, 2, .5, 1, 1, 1), (-1, 2, .5, .25, 1, -1, .5, 2), (0, 1, 0, 0, 0, 0, 0, 0),
                                   (3, 0, 0, 0, 0, 0, 0, 0), (.5, .5, .5, .5, .5, .5, .5, .5), (-2, 1e-3, 4, 1, -1, 2, 0, 1))]


def run(case, ctx):
    fam, n, p, dev, mode, (opt, oo), h, pr = case[:8]
    X, y = load(n, p, dev)
    X0, y0 = X.copy(), y.copy()
    ctx.state(case)
    two = mode != "var"
    ix, pia = index(mode)
    par = dict(projection_index=ix, pi_arguments=pia, n_components=h, optimizer=opt, optimizer_options=dict(oo), verbose=False)
    par.update(pr)
    if mode == "cov" and "square_pi" not in par:
        par["square_pi"] = opt == "grid"
    fkw = par.pop("fit", {})
    par["n_components"] = par.pop("declared", h)
    m = ppdire(**par)
    ykw = y.reshape(-1, 1) if two else None
    if fam == "answer":
        st = Answerer(case[8], p)
        D = np.array([DIR[a][:p] for a in case[8]])
        if np.linalg.matrix_rank(D, tol=1e-6) < len(D):
            try:                       # the same direction again: nothing is left to project on, whatever is answered
                with stand.replaced(("minimize", "minimize_ipopt", "differential_evolution"), st):
                    m.fit(X, ykw)
            except (ValueError, np.linalg.LinAlgError, ImportError):
                pass
            ctx.skip("direction given twice")
            return
        try:
            with stand.replaced(("minimize", "minimize_ipopt", "differential_evolution"), st):
                ctx.op(("fit with scripted solver", case[8]), m.fit, X, ykw)
        except ImportError:
            if st.calls == 0:
                ctx.skip("solver stand-in not reachable")
                return
            raise
        if st.calls == 0:
            ctx.skip("solver stand-in not reachable")
            return
        if not ctx.true(st.calls == h, "one-solve-per-component", st.calls):
            return
    elif two:
        ctx.op("fit", m.fit, X, ykw, **fkw)
    else:
        ctx.op("fit", m.fit, X, **fkw)
    # ---- reference preprocessing
    center, cd, sd, trim = par.get("center", "mean"), par.get("center_data", True), par.get("scale_data", True), par.get("trimming", 0)
    mX, sX, my, sy = np.zeros(p), np.ones(p), 0.0, 1.0
    if cd:
        if center == "mean":
            mX, my = np.array([como.loc(X[:, j], trim) for j in range(p)]), como.loc(y, trim)
        else:
            mX, my = ref.col(ref.med1, X), ref.med1(y)
        if sd:
            f = (lambda v: ref.std1(v, trim)) if center == "mean" else ref.mad1
            sX, sy = np.array([f(X[:, j]) for j in range(p)]), f(y)
    ctx.eq(m.x_loc_, mX, "x_loc", rtol=1e-9, shape=False)
    ctx.eq(m.x_sca_, sX, "x_sca", rtol=1e-9, shape=False)
    Xs = (X - mX) / sX
    ys = ((y - my) / sy) if two else None
    W = np.asarray(m.x_weights_, float)
    if not ctx.true(W.shape == (p, h) and np.isfinite(W).all(), "weights", W):
        return
    ctx.eq(np.sqrt((W ** 2).sum(0)), np.ones(h), "unit-norm", rtol=1e-7)
    ctx.true(hasattr(m, "mixing_") == bool(fkw.get("mixing")), "mixing-reported", fkw)
    if fkw.get("mixing") and np.linalg.cond(W) < 1e6:
        M = np.asarray(m.mixing_, float)
        ctx.true(M.shape == (h, p), "mixing", M.shape)
        ctx.eq(M @ W, np.eye(h), "mixing", rtol=1e-7)
        ctx.eq(W @ M, (W @ M).T, "mixing", rtol=1e-7)
    if fam == "answer":
        for a in range(h):
            d = DIR[case[8][a]][:p]
            ctx.eq(W[:, a], d / np.linalg.norm(d), "solver-answer", rtol=1e-9)
    E = Xs.copy()
    T, P, xev = np.zeros((n, h)), np.zeros((p, h)), np.zeros(h)
    tot = (Xs ** 2).sum()
    val = []
    for a in range(h):
        t = E @ W[:, a]
        tt = t @ t
        if tt < 1e-12 * tot:
            ctx.skip("component without variation")
            return
        ld = E.T @ t / tt
        T[:, a], P[:, a], xev[a] = t, ld, tt * (ld @ ld) / tot * 100
        val.append(value(mode, t, ys, par))
        E = E - np.outer(t, ld)
    ctx.outcome(np.round(W, 6))
    ctx.eq(m.x_scores_, T, "scores", rtol=1e-6)
    ctx.eq(m.x_loadings_, P, "loadings", rtol=1e-6)
    ctx.eq(np.asarray(m.x_ev_).ravel(), xev, "explained-variance", rtol=1e-6)
    ctx.true(np.sum(m.x_ev_) <= 100 + 1e-6, "explained-variance-total", m.x_ev_)
    G = np.asarray(m.x_scores_).T @ np.asarray(m.x_scores_)
    nn = np.sqrt(np.outer(np.diag(G), np.diag(G)))
    ctx.true(np.abs(G / nn - np.eye(h)).max() < 1e-6, "orthogonal-scores", G)
    PW = P.T @ W
    if np.linalg.cond(PW) > 1e8:
        ctx.skip("nearly dependent weights")
        return
    R = np.asarray(m.x_rotations_, float)
    ctx.eq(Xs @ R, T, "scores-from-rotations", rtol=1e-5)
    sq = par.get("square_pi", False)
    v = np.array(val)
    vs = v ** 2 if sq else v
    at = 1e-7 * (1 + np.abs(v).max())
    if opt == "grid":
        ctx.eq(np.asarray(m.Maxobjf_).ravel(), vs, "optimum", rtol=1e-6, atol=at)
    else:
        ctx.eq(np.asarray(m.Maxobjf_).ravel(), v, "optimum", rtol=1e-6, atol=at)
    if not two:
        ctx.same(X, X0, "input-unchanged")
        return
    ctx.eq(np.asarray(m.crit_values_).ravel(), vs, "criterion", rtol=1e-6, atol=at)
    # ---- inner relations
    C = np.asarray(m.y_loadings_, float).ravel()
    ro = par.get("regopt", "OLS")
    for a in range(h):
        t = T[:, a]
        if ro == "OLS":
            ctx.eq(C[a], (t @ ys) / (t @ t), "inner-ols", rtol=1e-6, atol=1e-9 * (1 + abs(C[a])))
        elif ro == "robust":
            try:
                sc = "None" if not sd else ("std" if center == "mean" else "mad")
                kw = dict(fun=fkw.get("fun", "Hampel"), p1=fkw.get("probp1", .95), p2=fkw.get("probp2", .975), p3=fkw.get("probp3", .99), centre=center, scale=sc)
                r0 = reg.rm(t.reshape(-1, 1), ys, **kw)
                r1 = reg.rm(data.bend(t.reshape(-1, 1), 1e-8), data.bend(ys, 1e-8), **kw)
                if not reg.agree(r0, r1, 1e-4):
                    raise Ambiguous("ill-conditioned")
            except (Ambiguous, np.linalg.LinAlgError):
                ctx.skip("robust inner regression ill-conditioned")
                continue
            ctx.eq(C[a], r0["B"][0], "inner-robust", rtol=1e-5, atol=1e-6 * (1 + abs(C[a])))
        else:
            qq = fkw.get("quantile", 0.5)
            obj = lambda c: 2 * sum((qq if u > 0 else qq - 1) * u for u in ys - c * t)
            cand = [yy / tt for yy, tt in zip(ys, t) if abs(tt) > 1e-9]
            best = min(obj(c) for c in cand)
            ctx.true(obj(C[a]) <= best * (1 + 2e-3) + 1e-6, "inner-quantile", (obj(C[a]), best))
    # ---- coefficients per component, in original units
    Bs, B = np.asarray(m.coef_scaled_, float), np.asarray(m.coef_, float)
    if not ctx.true(Bs.shape == (p, h) and B.shape == (p, h), "coefficients", (Bs.shape, B.shape)):
        return
    for a in range(h):
        ctx.eq(Xs @ Bs[:, a], T[:, : a + 1] @ C[: a + 1], "coef-scaled", rtol=1e-5)
        ctx.eq(B[:, a], Bs[:, a] * sy / sX, "coef-units", rtol=1e-8)
    b = B[:, h - 1]
    e = y - X @ b
    b0 = como.loc(e, trim) if center == "mean" else ref.med1(e)
    sc = np.abs(y).max() + np.abs(X @ b).max()
    ctx.eq(np.ravel(m.intercept_), [b0], "intercept", rtol=1e-7, atol=1e-8 * sc)
    ctx.eq(m.fitted_, X @ b + b0, "fitted", rtol=1e-7, atol=1e-8 * sc, shape=False)
    ctx.eq(m.residuals_, y - X @ b - b0, "residuals", rtol=1e-7, atol=1e-8 * sc, shape=False)
    es = ys - Xs @ Bs[:, h - 1]
    bs0 = (ref.mean1(es) if center == "mean" else ref.med1(es)) if (sd) else b0
    ctx.eq(np.ravel(m.intercept_scaled_), [bs0], "intercept-scaled", rtol=1e-7, atol=1e-8 * (sc if not sd else 1 + np.abs(ys).max()))
    ctx.eq(np.asarray(m.y_loc_).ravel(), [my], "y_loc", rtol=1e-9)
    ctx.eq(np.asarray(m.y_sca_).ravel(), [sy], "y_sca", rtol=1e-9)
    if ro == "OLS" and center == "mean" and trim == 0 and cd:
        A = np.c_[np.ones(n), T]
        ctx.eq(np.ravel(m.fitted_), A @ np.linalg.lstsq(A, y, rcond=None)[0], "least-squares-on-scores", rtol=1e-5)
    ctx.same(X, X0, "input-unchanged")
    ctx.same(y, y0, "input-unchanged")
