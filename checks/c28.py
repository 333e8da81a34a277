"""C28 full-dimensional models reproduce least squares."""
import itertools
import numpy as np
from lib import data, ref
import direpack
from direpack import dicomo

PID = "C28"
RULE = """Every table (all lattice tables up to the bound, base tables with every single deviating case, constant offsets, differing units) x every
reduction or regression whose settings make it a full-dimensional, unweighted model (as many components as variables, no sparsity, no
rejection, mean centring) x scaling: coefficients where reported, fitted values and predictions of new cases must be those of ordinary least
squares with intercept."""
ASSUMPTIONS = ["tables whose standardised predictors have a condition number above 1e4 are excluded",
               "slicing reductions: judged when the returned basis has full rank (fewer informative slices give fewer directions)",
               "projection pursuit: judged when the scores have full rank, for indices that are not free of scale (those rank directions of the exhausted last plane by rounding noise)"]
TOL = 1e-6


def configs(p):
    out = []
    for s in ("None", "std", "mad", "scaleTau2"):
        out.append(("snipls", s, ()))
    for s in ("None", "std", "mad"):
        for fun in ("Huber", "Fair"):
            out.append(("rm", s, (fun,)))
            out.append(("sprm", s, (fun, "pcapp")))
            out.append(("sprm", s, (fun, "direct")))
    for mode in ("cov", "var", "continuum", "distance"):
        for s in (True, False):
            out.append(("ppdire", s, (mode, "grid")))
    for me in ("sir", "save", "dr", "phd"):
        for s in (True, False):
            for c in ("mean", "median"):
                out.append(("sudire", s, (me, c)))
    return out


def BOUNDS(tier):
    return {"configurations": len(configs(2)), "tables": "lattice {0,1,3}^(k) completed to 6x2; base n<=14, p<=4 with every single deviating case", "tier": tier}


def cases(tier):
    q = tier == "quick"
    for d in ((), ("offset", 0), ("units", 0)):
        yield ("base", 120, 3, 1, d)
    for (n, p) in ((8, 1), (10, 2), (12, 3), (14, 4)):
        for seed in (1,) if q else range(1, 7):
            devs = [()] + [(k, i) for i in range(n) for k in ("up", "lev")] + [("offset", 0), ("units", 0), ("dup", 0)]
            for d in devs:
                if q and d and d[0] in ("up", "lev") and d[1] % 2:
                    continue
                yield ("base", n, p, seed, d)
    for c in itertools.product((0, 1, 3), repeat=4 if q else 6):
        yield ("lattice", c)


def table(case):
    if case[0] == "lattice":
        c = case[1]
        X = np.r_[np.array(c, float).reshape(-1, 2), [[0., 1.], [2., 0.], [1., 5.], [-1., 2.], [3., 3.]]]
        y = np.array([1., -2., 0.5, 4., 2.5, -1., 0., 3.])[:len(X)]
        return X, y
    _, n, p, seed, d = case
    X, y = data.regression(n, p, seed, noise=2.0)
    if d:
        if d[0] == "up":
            y[d[1]] += 20.0
        elif d[0] == "lev":
            X[d[1]] += 8.0 * (-1.0) ** np.arange(p)
        elif d[0] == "offset":
            X, y = X + 32.0 * (1 + np.arange(p)), y - 64.0
        elif d[0] == "units":
            X, y = X * 8.0 ** (np.arange(p) - 1), y * 2.0 ** -10
        elif d[0] == "dup":
            X[1], y[1] = X[0], y[0]
            X[-1] = X[-2]
    return X, y


def run(case, ctx):
    X, y = table(case)
    n, p = X.shape
    Xc = X - X.mean(0)
    sd = Xc.std(0)
    if (sd < 1e-9).any() or np.linalg.cond(Xc / sd) > 1e4:
        ctx.skip("collinear table")
        return
    D = np.column_stack([np.ones(n), X])
    b = np.linalg.lstsq(Xc / sd, y - y.mean(), rcond=None)[0] / sd
    b0 = y.mean() - X.mean(0) @ b
    Xn = np.vstack([X[::-1][:3] * 0.5 + 1.0, X.mean(0) + 2 * sd])
    amp = lambda A: np.abs(y).max() + (np.abs(A) @ np.abs(b)).max()
    for kind, s, o in configs(p):
        Y = y.reshape(-1, 1)
        if kind != "sudire" and s in ("mad", "scaleTau2") and ((ref.col(ref.mad1, X) < 1e-9).any() or ref.mad1(y) < 1e-9):
            continue
        if kind == "snipls":
            m = direpack.snipls(eta=0.0, n_components=p, verbose=False, centre="mean", scale=s)
        elif kind == "rm":
            m = direpack.rm(fun=o[0], probp1=1.0, centre="mean", scale=s, verbose=False)
        elif kind == "sprm":
            m = direpack.sprm(fun=o[0], probp1=1.0, eta=0.0, n_components=p, centre="mean", scale=s, start_X_init=o[1], verbose=False)
        elif kind == "ppdire":
            if p == 1:
                continue
            pa = {"distance": dict(est="distance", mode="cov")}.get(o[0], dict(mode=o[0]))
            m = direpack.ppdire(projection_index=dicomo, pi_arguments=pa, n_components=p, optimizer=o[1], square_pi=o[0] == "cov",
                                alpha=2.0, optimizer_options={"ndir": 12, "maxiter": 4}, scale_data=s, verbose=False)
        else:
            if p == 1:
                continue
            m = direpack.sudire(o[0], n_components=p, n_slices=5, scale_data=s, center=o[1])
        ctx.op((kind, s, o), m.fit, X.copy(), y.copy() if kind in ("sudire", "rm") else Y.copy())
        if kind in ("sudire", "ppdire"):
            T = np.asarray(m.x_scores_, float)
            T = T - T.mean(0)
            nt = np.sqrt((T ** 2).sum(0))
            if not (nt > 1e-7 * nt.max()).all() or np.linalg.cond(T / nt) > 1e5:
                ctx.skip("basis without full rank: %s" % o[0])
                continue
        t = TOL * amp(Xn)
        ctx.eq(np.ravel(m.predict(Xn)), b0 + Xn @ b, "predict:" + kind, rtol=TOL, atol=t)
        ctx.eq(np.ravel(m.predict(X)), b0 + X @ b, "fitted:" + kind, rtol=TOL, atol=TOL * amp(X))
        if kind != "sudire":
            ctx.eq(np.ravel(m.fitted_), b0 + X @ b, "stored-fitted:" + kind, rtol=TOL, atol=TOL * amp(X))
            B = np.asarray(m.coef_, float)
            B = B[:, -1] if kind == "ppdire" and B.ndim == 2 and B.shape[1] == p and p > 1 else B.ravel()
            ctx.eq(B, b, "coefficients:" + kind, rtol=TOL, atol=TOL * (np.abs(b) * sd).max() / sd, shape=False)
            ctx.eq(np.ravel(m.residuals_), y - b0 - X @ b, "residuals:" + kind, rtol=TOL, atol=TOL * amp(X))
        ctx.outcome(kind, s, o, np.round(b, 6))
        ctx.state(case, kind, s, o)
