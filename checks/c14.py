"""C14 projection pursuit finds the best direction of its index."""
import itertools
import math
import numpy as np
import scipy.optimize
from lib import data, ref, como, stand
from direpack import ppdire, dicomo, capi

PID = "C14"
RULE = """Grid search on two variables: all tables (base tables, every single and double outlying case, lattice tables) x
index x squaring x grid size x bias correction x trimming; the whole direction grid is re-evaluated with the index's
definition and the returned direction must be a grid direction attaining the maximum.  General optimisers, problem
posed: every optimiser x table x index x setting with the solver replaced by a scripted answerer; objective at enumerated points (of the deflated
data for the second component), constraints, options and use of the answer.  General optimisers, answer: all base
tables with one deviating case, variance against the leading eigenvectors of the deflated data, covariance against
the deflated covariance direction.  Grid search on more variables: reported optimum equals the index at the returned
direction and is no worse than any single variable or any pair-plane direction of the starting sweep; tables with a variable without spread and
orthogonal designs (where the index of some grid direction is undefined) are searched as well."""
ASSUMPTIONS = ["the general optimiser's answer is compared with the spectral solution when the solver itself reports convergence; the problem it is handed is compared always",
               "tables whose leading eigenvalues are within 10% of each other are excluded from the direction comparison (not from the value comparison)",
               "ties on the grid: any maximising direction is accepted"]
MODES = ("var", "cov", "corr", "kurt", "skew", "cos", "distance", "medvar", "capi", "continuum")


def BOUNDS(tier):
    return {"grid": "ndir in {7,12,25} (up to 60 thorough)", "tables": "n<=14, p=2 grid; p<=5 optimiser", "tier": tier}


def cases(tier):
    q = tier == "quick"
    for n, nd in ((60, 60), (35, 180)):
        for mode in MODES:
            for kw in ({}, {"square_pi": True}):
                yield ("grid2", n, 1, (), mode, nd, kw)
    for n in (7, 10) if q else (6, 7, 9, 10, 14):
        for seed in (1, 2) if q else range(1, 6):
            devs = [()] + [((i, 12.0),) for i in range(n)]
            if not q:
                devs += [((i, 12.0), (k, -9.0)) for i, k in itertools.combinations(range(n), 2)]
            for dev in devs:
                for mode in MODES:
                    for nd in ((12,) if q and dev else (7, 12, 25) if q else (7, 12, 25, 60)):
                        for kw in ({}, {"square_pi": True}, {"biascorr": True}, {"trimming": 0.15}, {"center": "median"}, {"scale_data": False}, {"dmetric": "sqeuclidean"}):
                            if "dmetric" in kw and mode != "distance":
                                continue
                            if kw and (q and dev and dev[0][0] % 3):
                                continue
                            if mode in ("distance", "medvar", "capi") and "trimming" in kw:
                                continue
                            yield ("grid2", n, seed, dev, mode, nd, kw)
    for c in itertools.product((0, 1, 3), repeat=4 if q else 6):
        for mode in ("var", "cov"):
            yield ("lattice", c, mode, 12)
    for n, p in ((10, 2), (12, 3), (15, 4)) + (() if q else ((20, 5), (30, 3))):
        for seed in range(1, 7 if q else 31):
            for dev in [()] + [((i, 6.0),) for i in range(0, n, 2 if q else 1)]:
                for mode in ("var", "cov"):
                    for sd in (True,):
                        yield ("solver", n, p, seed, dev, mode, sd)
    for n, p in ((9, 3), (10, 4)):
        for seed in range(1, 3 if q else 13):
            for mode in ("var", "cov", "corr", "kurt"):
                for nd in (12, 20) if q else (12, 13, 20, 40):
                    yield ("gridp", n, p, seed, mode, nd)


    for col in (0, 1):
        for seed in (1, 2):
            for mode in ("var", "cov", "corr", "kurt", "skew"):
                for nd in (7, 12, 13, 25):
                    for sq in (False, True):
                        yield ("flat2", col, seed, mode, nd, sq)
    for k in range(8):
        for mode in ("var", "cov", "corr", "kurt"):
            for nd in (9, 12, 13, 17):
                yield ("orth", k, mode, nd)
    for opt in ("SLSQP", "trust-constr", "COBYLA", "IPOPT", "differential_evolution"):
        for (n, p) in ((9, 2), (10, 3), (12, 4)):
            for seed in (1,) if q else (1, 2, 3):
                for mode in ("var", "cov", "corr", "kurt", "distance", "capi", "continuum", "cos"):
                    for kw in ({}, {"biascorr": True}, {"scale_data": False}, {"center": "median"}, {"trimming": 0.15}, {"square_pi": True}, {"alpha": 0.5}, {"dmetric": "sqeuclidean"}):
                        if "dmetric" in kw and mode != "distance":
                            continue
                        if mode in ("distance", "capi") and "trimming" in kw or ("alpha" in kw) != (mode == "continuum") and "alpha" in kw:
                            continue
                        for user in (0, 1, 2, 3):     # none, one constraint, a list of one, a list of two
                            if user and kw:
                                continue
                            yield ("problem", opt, n, p, seed, mode, kw, user)


class Scripted:
    """stands in for every general solver: records the problem and returns the next scripted direction"""

    def __init__(self, answers, points):
        self.answers, self.points, self.log = answers, points, []

    def __call__(self, fun, *a, **k):
        args = k.get("args", a[1] if len(a) > 1 else ())
        args = args if isinstance(args, tuple) else (args,)
        cs = k.get("constraints", ())
        cs = list(cs) if isinstance(cs, (list, tuple)) else [cs]
        con = []
        for c in cs:
            if isinstance(c, dict):
                con.append((c["type"], [float(np.squeeze(c["fun"](np.array(u), *c.get("args", ())))) for u in self.points]))
            elif hasattr(c, "lb"):
                t = "eq" if np.all(np.asarray(c.lb) == np.asarray(c.ub)) else "ineq"
                con.append((t, [float(np.squeeze(c.fun(np.array(u)))) - float(np.squeeze(c.lb)) for u in self.points]))
        # evaluated twice in different order: the value depends on the point only
        v1 = [float(np.squeeze(fun(np.array(u), *args))) for u in self.points]
        v2 = [float(np.squeeze(fun(np.array(u), *args))) for u in self.points[::-1]][::-1]
        self.log.append(dict(values=v1, again=v2, cons=con, options=k.get("options"), method=k.get("method")))

        class R:
            pass
        r = R()
        r.x, r.fun, r.success, r.status, r.message = np.array(self.answers[len(self.log) - 1], float), 0.0, True, 0, ""
        return r


def halfspace(x):
    return float(np.asarray(x, float).ravel()[0] - 0.25)


def upper(x):
    return float(2.0 - np.asarray(x, float).ravel()[-1])


def hadamard(k):
    """orthogonal designs of three variables; the response depends on one, two or all of them"""
    H = np.array([[1., 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]])
    H = np.vstack([H, -H, H * 0.5]) if k % 2 else np.vstack([H, H])
    H = H + (0.0 if k < 4 else 2.0)
    y = H @ np.array([[0, 0, 3.], [1, 0, 0], [0, 2, 0], [2, 2, 1.]])[(k // 2) % 4]
    return H, y


def load(n, p, seed, dev, noise=2.0):
    X, y = data.regression(n, p, seed, noise=noise)
    for (i, v) in dev:
        X[i] += v * np.array([1.0, -0.5, 0.25, 0.75, 1.0])[:p]
        y[i] += v
    return X, y


def value(mode, t, f, kw):
    t = np.asarray(t, float).ravel()
    trim, bc = kw.get("trimming", 0), kw.get("biascorr", False)
    if mode == "distance":
        return math.sqrt(abs(como.dcov_sqr(t, f, bc, kw.get("dmetric", "euclidean"))))
    if mode == "medvar":
        return como.stat("var", t, center="median")
    if mode == "capi":
        return como.second(t, f, 0, bc) + sum(como.comoment(t, f, 3, k, 0, bc) for k in (1, 2))
    if mode == "continuum":
        return como.stat("continuum", t, f, trim=trim, bc=bc, alpha=kw.get("alpha", 2.0))
    return como.stat(mode, t, f, trim=trim, bc=bc)


def make(mode, kw, optimizer, oo, h=1, **extra):
    kw = dict(kw, **extra)
    kw.pop("biascorr", None)
    kw.pop("dmetric", None)
    if mode == "distance":
        ix, pia = dicomo, dict(est="distance", mode="cov")
    elif mode == "medvar":
        ix, pia = dicomo, dict(mode="var", center="median")
    elif mode == "capi":
        ix, pia = capi, dict(max_degree=3, projection_index=dicomo, pi_arguments={"est": "arithmetic"}, scaling=False)
    else:
        ix, pia = dicomo, dict(mode=mode)
    if mode == "continuum":
        kw.setdefault("alpha", 2.0)
    return ppdire(projection_index=ix, pi_arguments=pia, n_components=h, optimizer=optimizer, optimizer_options=oo, verbose=False, **kw)


def prep(X, y, kw):
    trim, c, sd = kw.get("trimming", 0), kw.get("center", "mean"), kw.get("scale_data", True)
    L = (lambda v: como.loc(v, trim)) if c == "mean" else ref.med1
    S = ((lambda v: ref.std1(v, trim)) if c == "mean" else ref.mad1) if sd else (lambda v: 1.0)
    g = lambda v: (v - L(v)) / (S(v) or 1.0)
    return np.column_stack([g(X[:, j]) for j in range(X.shape[1])]), g(y)


class Recorder:
    """passes the call on to the real solver; records its verdict and the problem it was handed"""

    def __init__(self, p):
        self.log = []
        self.real = scipy.optimize.minimize
        b = [np.array([1.0, 0, 0, 0, 0]), np.array([0.6, -0.8, 0, 0, 0]), np.array([0.5, 2.0, -1.0, 0.25, 1.0]), np.array([0, 0.75, 0, 0, 0])]
        self.points = [v[:p] for v in b]

    def __call__(self, fun, x0, args=(), **k):
        args = args if isinstance(args, tuple) else (args,)
        vals = [float(np.squeeze(fun(np.array(u), *args))) for u in self.points]
        cs = k.get("constraints", ())
        cs = [cs] if isinstance(cs, dict) else list(cs)
        cons = [[float(np.squeeze(c["fun"](np.array(u), *c.get("args", ())))) for c in cs if isinstance(c, dict)] for u in self.points]
        r = self.real(fun, x0, args=args, **k)
        self.log.append((bool(r.success), vals, cons, np.array(x0, copy=True)))
        return r


def run(case, ctx):
    ctx.state(case)
    if case[0] in ("grid2", "lattice"):
        if case[0] == "grid2":
            _, n, seed, dev, mode, nd, kw = case
            X, y = load(n, 2, seed, dev)
        else:
            _, c, mode, nd = case
            kw = {}
            n = 4 + len(c) // 2
            X = np.r_[np.array(c, float).reshape(-1, 2), [[0., 1.], [2., 0.], [1., 5.], [-1., 2.]]]
            y = np.array([1., -2., 0.5, 4., 2.5, -1., 0.])[:len(X)]
        two = mode not in ("var", "kurt", "skew", "medvar")
        m = make(mode, kw, "grid", {"ndir": nd, "maxiter": 4})
        Xs, ys = prep(X, y, kw)
        f = {k: v for k, v in kw.items() if k in ("biascorr", "dmetric")}       # arguments of fit
        if two:
            ctx.op("fit", m.fit, X, y.reshape(-1, 1), **f)
        else:
            ctx.op("fit", m.fit, X, **f)
        vals = []
        for k in range(nd):
            a = math.pi * k / nd
            v = value(mode, Xs @ np.array([math.cos(a), math.sin(a)]), ys, kw)
            vals.append(v * v if kw.get("square_pi") else v)
        best = max(vals)
        s = 1e-8 * (1 + max(abs(v) for v in vals))
        w = np.asarray(m.x_weights_, float)[:, 0]
        got = value(mode, Xs @ w, ys, kw)
        got = got * got if kw.get("square_pi") else got
        ctx.eq(got, best, "grid-maximum:" + mode, rtol=1e-7, atol=s)
        ctx.eq(np.ravel(m.Maxobjf_)[0], best, "reported-optimum:" + mode, rtol=1e-7, atol=s)
        ang = math.atan2(w[1], w[0]) % math.pi
        k = ang / (math.pi / nd)
        ctx.true(abs(k - round(k)) < 1e-6, "grid-direction", (w, k))
        ctx.outcome(mode, round(k))
    elif case[0] == "problem":
        from scipy.optimize import NonlinearConstraint
        _, opt, n, p, seed, mode, kw, user = case
        X, y = load(n, p, seed, ())
        two = mode not in ("var", "kurt")
        h = 2
        pts = [np.array(v)[:p] for v in ((1.0, 0, 0, 0), (0.6, -0.8, 0, 0), (0.5, 2.0, -1.0, 0.25), (0, 0.75, 0.5, 0), (0.5, 0.5, 0.5, 0.5), (-0.6, 0.8, 0, 0))]
        ans = [np.array((0.8, 0.5, -0.4, 1.0))[:p], np.array((-1.0, 2.0, 0.5, 3.0))[:p]]
        oo = {"maxiter": 77}
        ex = {}
        if user:
            ex["optimizer_constraints"] = [NonlinearConstraint(g, 0, np.inf) if opt == "differential_evolution" else {"type": "ineq", "fun": g}
                                           for g in (halfspace, upper)[:max(1, user - 1)]]
            if user == 1:
                ex["optimizer_constraints"] = ex["optimizer_constraints"][0]
        m = make(mode, kw, opt, dict(oo), h, **ex)
        rec = Scripted(ans, pts)
        f = {k: v for k, v in kw.items() if k in ("biascorr", "dmetric")}       # arguments of fit
        with stand.replaced(("minimize", "minimize_ipopt", "differential_evolution"), rec):
            ctx.op("fit", m.fit, X, *([y.reshape(-1, 1)] if two else []), **f)
        if len(rec.log) != h:
            ctx.skip("solver calls not observable")
            return
        E, ys = prep(X, y, kw)
        for a, L in enumerate(rec.log):
            want = [-value(mode, E @ u, ys, kw) if np.abs(E @ u).max() > 1e-9 else None for u in pts]
            sc = max(abs(v) for v in want if v is not None)
            if kw.get("square_pi") and not all(v is None or abs(g - v) <= 1e-7 * (sc + abs(v)) for g, v in zip(L["values"], want)):
                want = [None if v is None else -v * v for v in want]       # squaring the index is one way to free its sign
                sc = max(abs(v) for v in want if v is not None)
            for u, g, g2, v in zip(pts, L["values"], L["again"], want):
                if v is None:
                    continue
                ctx.eq(g, v, "problem-objective:" + mode, rtol=1e-7, atol=1e-8 * sc)
                ctx.eq(g2, g, "problem-objective-history:" + mode, rtol=1e-12, atol=1e-12 * sc)
            eqs = [c[1] for c in L["cons"] if c[0] == "eq"]
            for k, u in enumerate(pts):
                ctx.true(len(eqs) > 0 and (max(abs(c[k]) for c in eqs) < 1e-9) == (abs(np.linalg.norm(u) - 1) < 1e-12), "problem-constraint:" + opt, (u, eqs))
            other = [c[1] for c in L["cons"] if c[0] != "eq"]
            ctx.same(len(other), max(1, user - 1) if user else 0, "problem-user-constraint:" + opt)
            for o, g in zip(other, (halfspace, upper)):
                ctx.eq(o, [g(u) for u in pts], "problem-user-constraint-value:" + opt, rtol=1e-12, atol=1e-12)
            if opt != "differential_evolution":
                ctx.same(dict(L["options"] or {}), oo, "problem-options:" + opt)
            if opt not in ("differential_evolution", "IPOPT"):
                ctx.same(L["method"], opt, "problem-method")
            w = ans[a] / np.linalg.norm(ans[a])
            ctx.eq(np.asarray(m.x_weights_, float)[:, a], w, "answer-used:" + opt, rtol=1e-9)
            v = value(mode, E @ w, ys, kw)
            ctx.eq(np.ravel(m.Maxobjf_)[a], v, "problem-reported-optimum:" + mode, rtol=1e-7, atol=1e-8 * max(sc, abs(v)))
            t = E @ w
            E = E - np.outer(t, E.T @ t / (t @ t))
        ctx.outcome(opt, mode, [round(v, 6) for v in rec.log[0]["values"]])
    elif case[0] == "flat2":
        _, col, seed, mode, nd, sq = case
        X, y = load(9, 2, seed, ())
        X[:, col] = 2.0
        two = mode in ("cov", "corr")
        m = make(mode, {"square_pi": True} if sq else {}, "grid", {"ndir": nd, "maxiter": 4})
        Xs, ys = prep(X, y, {})
        f = lambda t: value(mode, t, ys, {}) ** (2 if sq else 1)
        vals = []
        for k in range(nd):
            u = np.array([math.cos(math.pi * k / nd), math.sin(math.pi * k / nd)])
            if abs(u[1 - col]) > 1e-9:          # the index is undefined, or decided by rounding, where nothing varies
                vals.append(f(Xs @ u))
        s = 1e-8 * (1 + max(abs(v) for v in vals))
        if mode == "cov" and max(vals) <= s:
            ctx.skip("no direction of positive covariance")
            return
        ctx.op("fit", m.fit, X, *([y.reshape(-1, 1)] if two else []))
        w = np.asarray(m.x_weights_, float)[:, 0]
        ctx.true(abs(np.linalg.norm(w) - 1) < 1e-9, "unit-norm", w)
        if abs(w[1 - col]) > 1e-9:
            ctx.eq(f(Xs @ w), max(vals), "grid-maximum-flat:" + mode, rtol=1e-7, atol=s)
            ctx.eq(np.ravel(m.Maxobjf_)[0], max(vals), "reported-optimum-flat:" + mode, rtol=1e-7, atol=s)
        else:
            ctx.true(mode in ("corr", "kurt", "skew") or max(vals) <= s, "flat-direction-chosen:" + mode, (w, max(vals)))
        ctx.outcome(np.round(w, 6))
    elif case[0] == "orth":
        _, k, mode, nd = case
        X, y = hadamard(k)
        two = mode in ("cov", "corr")
        m = make(mode, {"square_pi": True} if two else {}, "grid", {"ndir": nd, "maxiter": 10})
        ctx.op("fit", m.fit, X, *([y.reshape(-1, 1)] if two else []))
        Xs, ys = prep(X, y, {})
        w = np.asarray(m.x_weights_, float)[:, 0]
        q = lambda t: value(mode, t, ys, {}) ** (2 if two else 1)
        got = q(Xs @ w)
        ctx.true(abs(np.linalg.norm(w) - 1) < 1e-5, "unit-norm", w)
        ctx.eq(np.ravel(m.Maxobjf_)[0], got, "reported-optimum:" + mode, rtol=1e-6, atol=1e-9)
        first = max(q(Xs[:, :2] @ np.array([math.cos(math.pi * j / nd), math.sin(math.pi * j / nd)])) for j in range(nd))
        best = max(q(Xs[:, j]) for j in range(3))
        ctx.true(got >= max(first, best) * (0.9 if two or mode == "var" else 0.5) - 1e-9, "grid-not-worse-orth:" + mode, (got, first, best))
        ctx.outcome(np.round(w, 6))
    elif case[0] == "solver":
        _, n, p, seed, dev, mode, sd = case
        X, y = load(n, p, seed, dev)
        kw = {"scale_data": sd}
        Xs, ys = prep(X, y, kw)
        h = min(2, p)
        m = make(mode, kw, "SLSQP", {"maxiter": 1000}, h)
        rec = Recorder(p)
        with stand.replaced(("minimize",), rec):
            if mode == "var":
                ctx.op("fit", m.fit, X)
            else:
                ctx.op("fit", m.fit, X, y.reshape(-1, 1))
        if len(rec.log) != h:
            ctx.skip("solver calls not observable")
            rec = None
        E = Xs.copy()
        for a in range(h):
            w = np.asarray(m.x_weights_, float)[:, a]
            if rec:
                ok, vals, cons, x0 = rec.log[a]
                sc = 1e-9 * (1 + (E ** 2).sum() / n)
                for u, v in zip(rec.points, vals):
                    ctx.eq(v, -value(mode, E @ u, ys, {}), "problem-objective", rtol=1e-7, atol=sc)
                for u, v in zip(rec.points, cons):
                    ctx.true(len(v) > 0 and (max(abs(z) for z in v) < 1e-9) == (abs(np.linalg.norm(u) - 1) < 1e-12), "problem-constraint", (u, v))
                if not ok:
                    ctx.skip("solver reports failure")
                    t = E @ w
                    E = E - np.outer(t, E.T @ t / (t @ t))
                    continue
            if mode == "var":
                ev, V = np.linalg.eigh(E.T @ E / n)
                best, d, gap = ev[-1], V[:, -1], (ev[-1] - ev[-2]) / ev[-1]
            else:
                d = E.T @ ys / n
                best = math.sqrt(d @ d)
                if best < 1e-3 * math.sqrt((Xs ** 2).sum() * (ys ** 2).sum()) / n:
                    ctx.skip("no covariance left")
                    return
                d, gap = d / best, 1.0
            got = abs(value(mode, E @ w, ys, {}))      # squared index: the sign is free
            if rec and abs(got - best) > 2e-3 * abs(best):
                # false convergence of the solver itself: the reference problem from the same start ends wrong as well
                bad = False
                z = np.asarray(x0, float).ravel()
                starts = [(e, z) for e in (0.0, 1e-9, -1e-9, 1e-7, -1e-7)]
                starts += [(0.0, z * (1 + e * np.cos(k * np.arange(1, len(z) + 1)))) for e in (1e-14, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4) for k in (1, 2, 3, 5)]
                for e, s0 in starts:
                    r = rec.real(lambda u: -value(mode, E @ u, ys, {}) * (1 + e), s0, method="SLSQP", options={"maxiter": 1000},
                                 constraints={"type": "eq", "fun": lambda u: np.linalg.norm(u) - 1})
                    bad = not r.success or abs(abs(r.fun) - best) > 2e-3 * abs(best)
                    if bad:
                        break
                if bad:
                    ctx.skip("solver converges to a wrong point")
                    t = E @ w
                    E = E - np.outer(t, E.T @ t / (t @ t))
                    continue
            ctx.true(abs(got - best) <= 2e-3 * abs(best), "solver-value:%s" % mode, "component %d: index %.8g, best %.8g" % (a + 1, got, best))
            if gap > 0.1:
                ctx.true(abs(w @ d) > 1 - 0.02, "solver-direction:%s" % mode, "component %d: cos %.6f" % (a + 1, w @ d))
            else:
                ctx.skip("no eigenvalue gap")
            t = E @ w
            E = E - np.outer(t, E.T @ t / (t @ t))
            ctx.outcome(np.round(w, 3))
    else:
        _, n, p, seed, mode, nd = case
        X, y = load(n, p, seed, ())
        two = mode in ("cov", "corr")
        kw = {"square_pi": True} if two else {}
        m = make(mode, kw, "grid", {"ndir": nd, "maxiter": 10})
        Xs, ys = prep(X, y, kw)
        ctx.op("fit", m.fit, X, *([y.reshape(-1, 1)] if two else []))
        w = np.asarray(m.x_weights_, float)[:, 0]
        q = lambda t: value(mode, t, ys, kw) ** (2 if two else 1)
        got = q(Xs @ w)
        ctx.eq(np.ravel(m.Maxobjf_)[0], got, "reported-optimum:" + mode, rtol=1e-6)
        single = max(q(Xs[:, j]) for j in range(p))
        first = max(q(Xs[:, :2] @ np.array([math.cos(math.pi * k / nd), math.sin(math.pi * k / nd)])) for k in range(nd))
        ctx.true(got >= max(first, single if nd % 2 == 0 else 0) * (1 - 1e-3) - 1e-9, "grid-not-worse:" + mode, (got, first, single))
        if mode == "var":
            best = np.linalg.eigvalsh(Xs.T @ Xs / n)[-1]
            ctx.true(got <= best * (1 + 1e-9) and got >= best * 0.9, "grid-near-optimal:var", (got, best))
        ctx.outcome(np.round(w, 4))
