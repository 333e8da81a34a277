"""C26 optimisation based reduction hands over the right problem and maps back any answer."""
import itertools
import math
import numpy as np
import pandas as pd
from lib import data, ref, como, sdr, stand
from checks.c11 import flex
import direpack
from direpack import sudire

PID = "C26"
RULE = """The solver is replaced by an environment that records the problem it is handed and returns an enumerated answer.  Problem
executions: every method (distance covariance, martingale difference, user function) x table x number of components x standardisation x
trimming x distance x start; the recorded objective is evaluated at every point of a grid of bases and must be the negative criterion of
the projected standardised data up to one positive factor, the recorded constraints must vanish exactly at the orthonormal bases, and the start must
be the user's or the best slicing solution.  Answer executions: every answer over a small alphabet; loadings, scores, projection, least squares
fit, transform and predict must follow from it."""
ASSUMPTIONS = ["the stand-in is installed wherever the package looks up its solver; when it is not reached the execution is not judged",
               "objective judged up to a positive factor and, for distance covariance, up to squaring",
               "start judged in either of the two coordinate systems (standardised or original predictors), for mean centring, where the leading slicing spaces are determined",
               "ball covariance is not implemented in the package (its objective does not exist)"]


def BOUNDS(tier):
    return {"tables": "14x2, 13x3, 18x3", "components": "1..2", "grid": "12-20 bases", "answers": "all over {-1,0,0.5,2} (p*h<=3), {-1,0,2} (p*h=4), {-1,1} (p*h=6)", "tier": tier}


METH = ("dcov-sdr", "mdd-sdr", "user")


def cases(tier):
    q = tier == "quick"
    for me in METH:
        for st in ((0, "plain"), (1, "plain"), (3, "plain")):
            yield ("problem", me, 45, 4, 2, 1, st, "none")
    for me in METH:
        for (n, p) in ((14, 2), (18, 3)) if q else ((14, 2), (13, 3), (18, 3), (20, 4)):
            for h in range(1, min(2, p) + 1):
                for seed in (1, 2) if q else range(1, 9):
                    for st in SETTINGS:
                        for start in ("none", "user"):
                            if q and seed > 1 and (start == "user"):
                                continue
                            yield ("problem", me, n, p, h, seed, st, start)
    for me in METH:
        for st in (0, 1, 2, 3):
            for p, h, al in ((2, 1, (-1, 0, 0.5, 2)), (2, 2, (-1, 0, 2)), (3, 1, (-1, 0, 0.5, 2)), (3, 2, (-1, 1) if q else (-1, 0, 2))):
                for a in itertools.product(al, repeat=p * h):
                    if np.linalg.matrix_rank(np.array(a, float).reshape(-1, h, order="F")) == h:
                        yield ("answer", me, 14 if p == 2 else 13, p, h, 1, st, a)


SET = [dict(), dict(scale_data=False), dict(center="median"), dict(center_data=False, scale_data=False), dict(trimming=0.1), dict(scale_data=False, center="median")]
SETTINGS = [(i, k) for i in range(len(SET)) for k in ("plain", "frame", "dmetric", "dmetric-set", "biascorr", "arguments", "constraints")
            if k == "plain" or i < 2 or (k == "frame" and i == 2)]


def load(n, p, seed, h):
    X, _ = data.regression(n, p, seed, noise=1.0)
    X = X * (1 + np.arange(p) / 2.0) + 3.0 * np.arange(p)
    y = X[:, 0] + 0.25 * X[:, -1] ** 2 + data.table(n, 1, seed + 9, 0.5)[:, 0]
    return X, y


def standard(X, st):
    n, p = X.shape
    c, cen, sca, t = st.get("center", "mean"), st.get("center_data", True), st.get("scale_data", True), st.get("trimming", 0)
    if sca:
        if c == "median":
            m, s = ref.col(ref.med1, X), ref.col(ref.mad1, X)
            return (X - m) / s, np.diag(1 / s)
        N = sdr.root(sdr.cov(X), -0.5)
        Z = X - np.array([como.loc(X[:, j], t) for j in range(p)]) if cen else X
        return Z @ N, N
    if cen:
        m = ref.col(ref.med1, X) if c == "median" else np.array([como.loc(X[:, j], t) for j in range(p)])
        return X - m, np.eye(p)
    return X, np.eye(p)


def city(x):
    x = np.asarray(x, float).reshape(len(x), -1)
    return [[math.fsum(abs(float(a) - float(b)) for a, b in zip(u, v)) for v in x] for u in x]


def criterion(me, U, y, st, metric, bc):
    """definition: distance covariance (squared) of (U, y), or martingale difference divergence (squared) of y given U"""
    t, c = st.get("trimming", 0), st.get("center", "mean")
    d = city if metric == "cityblock" else como.dist
    if me == "mdd-sdr":
        if bc:
            return como.mdd_sqr(U, y.reshape(-1, 1), True)
        D = np.array(como.dist(y.reshape(-1, 1))) ** 2 / 2
        A, B = flex(como.dist(U), c, t), flex(D, c, t)
    else:
        A, B = flex(d(U), c, t), flex(d(y.reshape(-1, 1)), c, t)
    if A is None:
        return None
    if me == "mdd-sdr":
        return como.loc((A * B).ravel(), t)           # the inner product is a (trimmed) mean for either centring
    return como.loc((A * B).ravel(), t if c == "mean" else 0, c)


def bases(p, h):
    """grid of bases: orthonormal, merely orthogonal, merely normalised, general; (basis, orthonormal?)"""
    I = np.eye(p)
    out = []
    for c in itertools.permutations(range(p), h):
        out.append(I[:, list(c)])
    for a in (0.5, 1.1, 2.0, 2.8):
        G = I.copy()
        G[0, 0] = G[1, 1] = math.cos(a)
        G[0, 1], G[1, 0] = -math.sin(a), math.sin(a)
        out.append(G[:, :h])
        if p > 2:
            H = I.copy()
            H[1, 1] = H[2, 2] = math.cos(a + 0.3)
            H[1, 2], H[2, 1] = -math.sin(a + 0.3), math.sin(a + 0.3)
            out.append((G @ H)[:, :h])
    res = list(out)
    res += [1.5 * out[0], out[-1] * 0.5, -out[1], out[2] + 0.3 * np.ones((p, h))]
    if h == 2:
        u = out[0][:, 0]
        v = (u + out[0][:, 1]) / math.sqrt(2)
        res += [np.column_stack([u, v]), np.column_stack([v, out[0][:, 1]]), out[0] * np.array([1.0, 1.7]), out[0] * np.array([0.4, 1.0])]
    return res


class Solver:
    def __init__(self, answer=None):
        self.calls, self.answer = [], answer

    def __call__(self, fun, x0, args=(), kwargs=None, method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        x0 = np.array(x0, float).ravel()
        args = args if isinstance(args, tuple) else (args,)
        kw = kwargs or {}
        self.calls.append(dict(f=lambda b: float(np.squeeze(fun(np.array(b, float), *args, **kw))), x0=x0.copy(), args=args, options=options,
                               fun=fun, cons=[constraints] if isinstance(constraints, dict) else list(constraints or ())))

        class R:
            pass
        r = R()
        r.x = np.array(self.answer(len(self.calls), x0), float)
        r.success, r.status, r.fun, r.message, r.nit = True, 0, 0.0, "", 1
        return r


def userfun(beta, *args):
    """a user's own criterion: minus the absolute covariance of the first projected variable with y, plus a linear term"""
    X, y, h = np.asarray(args[0], float), np.asarray(args[1], float).ravel(), args[2]
    b = np.reshape(beta, (-1, h), order="F")
    u = X @ b
    return -abs(np.mean((u[:, 0] - u[:, 0].mean()) * (y - y.mean()))) + 0.01 * float(np.sum(u[0]))


def run(case, ctx):
    return globals()["run_" + case[0]](case, ctx)


def mysphere(beta, *a):
    return float(np.sum(np.asarray(beta) ** 2) - a[0])


def run_problem(case, ctx):
    _, me, n, p, h, seed, (i, extra), start = case
    ctx.state(case)
    st = dict(SET[i])
    X, y = load(n, p, seed, h)
    Z, N = standard(X, st)
    fk, metric, bc = {}, "euclidean", False
    par = dict(sudiremeth=userfun if me == "user" else me, n_components=h, verbose=False, **st)
    if extra == "dmetric":
        fk["dmetric"] = metric = "cityblock"
    elif extra == "dmetric-set":
        par["dmetric"] = metric = "cityblock"
    elif extra == "biascorr":
        fk["biascorr"] = bc = True
    elif extra == "arguments":
        par["optimizer_arguments"] = (Z + 0.0, np.asarray(y, float).reshape(-1, 1) * -2.0, h, N, False, 0, "mean", "euclidean", False)
    elif extra == "constraints":
        par["optimizer_constraints"] = ({"type": "eq", "fun": mysphere, "args": (float(h),)},)
    opts = {"max_iter": 7, "tol": 0.25}
    par["optimizer_options"] = dict(opts)
    u0 = np.linspace(-1, 1.5, p * h) ** 2 - 0.3
    if start == "user":
        par["optimizer_start"] = u0.copy()
    s = Solver(lambda k, x0: np.cos(np.arange(p * h) * 1.3 + k))
    with stand.replaced(("minimize_ipopt",), s):
        m = sudire(**par)
        A = (pd.DataFrame(X), pd.Series(y)) if extra == "frame" else (X.copy(), y.copy())
        ctx.op(("fit", me), m.fit, *A, **fk)
    if not s.calls:
        ctx.skip("solver stand-in not reached")
        return
    want_calls = 1 if me == "dcov-sdr" else 2
    ctx.true(len(s.calls) >= 1, "solver-called", len(s.calls))
    last = s.calls[-1]
    if len(s.calls) == want_calls:
        first = s.calls[0]
        if start == "user":
            ctx.eq(first["x0"], u0, "start-user", rtol=1e-12)
        elif i in (0, 1) and extra in ("plain", "frame"):
            starts(ctx, first["x0"].reshape(p, h, order="F"), Z, N, y, h)
        if want_calls == 2:
            a1 = np.cos(np.arange(p * h) * 1.3 + 1).reshape(p, h, order="F")
            g = last["x0"].reshape(p, h, order="F")
            ctx.true(np.allclose(g, N @ a1, rtol=1e-6, atol=1e-9) or np.allclose(g, a1, rtol=1e-6, atol=1e-9), "second-start", (g, a1))
    # the criterion
    ny = y * (-2.0 if extra == "arguments" else 1.0)
    stc = {} if extra == "arguments" else st
    ratios = []
    for c, which in [(last, me)] + ([(s.calls[0], "dcov-sdr")] if len(s.calls) == 2 else []):
        pts = []
        for B in bases(p, h):
            f = ctx.op("objective", c["f"], B.flatten(order="F"))
            if which == "user":
                w = -userfun(B.flatten(order="F"), Z, ny, h)
            else:
                w = criterion(which, Z @ B, ny, stc, metric, bc and which == "mdd-sdr")
                if w is None:
                    ctx.skip("trimming between two order statistics")
                    break
            pts.append((w, f))
        if not pts:
            continue
        w, f = np.array(pts).T
        if which == "user":
            ctx.eq(f, -w, "user-objective", rtol=1e-6, atol=1e-8 * np.abs(w).max())
            continue
        ok = w > 1e-8 * np.abs(w).max()
        if not ok.any():
            continue
        if which == "mdd-sdr":
            good = prop(f[ok], np.sqrt(w[ok]))      # a root of the squared divergence
        elif st.get("center") == "median" and extra != "arguments":
            good = prop(f, w) or prop(f, np.sqrt(np.abs(w)) * np.sign(w))
        else:
            good = prop(f[ok], np.sqrt(w[ok]))
        good = good or prop(f[ok], w[ok])
        ctx.true(good, "objective:" + which, "objective %s criterion %s" % (np.round(f, 6), np.round(w, 6)))
        ctx.outcome(which, np.round(f, 4).tobytes())
    # constraints
    for c in s.calls:
        ctx.same(dict(c["options"] or {}), opts, "options")
        if extra == "constraints":
            ctx.same(len(c["cons"]), 1, "user-constraints")
        M = np.eye(p)
        if not st.get("scale_data", True):
            M = sdr.cov(Z)
        R = sdr.root(M, -0.5)
        feasible = 0
        for B in bases(p, h):
            for T in (B, R @ B):
                b = T.flatten(order="F")
                v = [float(np.squeeze(k["fun"](b, *k.get("args", ())))) for k in c["cons"]]
                if extra == "constraints":
                    ctx.eq(v, [float(np.sum(b ** 2) - h)], "user-constraint-value", rtol=1e-9, atol=1e-9)
                    continue
                G = T.T @ M @ T - np.eye(h)
                fe = np.abs(G).max()
                feasible += fe < 1e-9
                z = max(abs(x) for x in v) if v else 0.0
                ctx.true((z < 1e-7) == (fe < 1e-7), "constraints:%s" % ("z" if st.get("scale_data", True) else "x"), "deviation from orthonormality %.3g, constraints %.3g" % (fe, z))
                ctx.true(all(k.get("type") == "eq" for k in c["cons"]), "constraint-type")
                # each entry is bounded by its own constraint
                ctx.eq(sorted(set(np.round(np.abs(v), 7))), sorted(set(np.round(np.abs(G).ravel(), 7))), "constraint-values", rtol=1e-5, atol=1e-6, shape=False) if len(set(np.round(np.abs(v), 7))) == len(set(np.round(np.abs(G).ravel(), 7))) else ctx.skip("rounded constraint values coincide")
        ctx.true(extra == "constraints" or feasible > 0, "grid-has-feasible-points")
    follow(ctx, m, N, Z, X, y, np.cos(np.arange(p * h) * 1.3 + len(s.calls)).reshape(p, h, order="F"), h)


def prop(f, w):
    """f = -k w with one k > 0"""
    k = -(f @ w) / (w @ w)
    return k > 0 and np.abs(f + k * w).max() <= 1e-6 * np.abs(f).max()


def starts(ctx, S, Z, N, y, h):
    cand = []
    for me, ns in (("save", 3), ("sir", 6), ("dr", 6)):
        w, V, ok = sdr.leading(sdr.kernel(me, Z, y, sdr.slices(y, ns)), 1e-5)
        if not ok[h]:
            ctx.skip("slicing solution not determined")
            return
        cand.append(V[:, :h])
    ok = []
    for M in (N, np.eye(len(N))):
        C = [M @ c for c in cand]
        v = [como.dcov_sqr(Z @ np.linalg.qr(c)[0], y.reshape(-1, 1), False) for c in C]
        best = max(v)
        if sorted(v)[-1] - sorted(v)[-2] < 1e-7 * best:
            ctx.skip("two slicing solutions equally good")
            return
        ok.append(np.abs(sdr.proj(S) - sdr.proj(C[int(np.argmax(v))])).max() < 1e-5)
    ctx.true(any(ok), "start-best-slicing", "start %s values %s" % (S.tolist(), v))


def follow(ctx, m, N, Z, X, y, B, h):
    P = N @ B
    t = 1e-7 * np.abs(P).max()
    ctx.eq(m.x_loadings_, P, "loadings", rtol=1e-7, atol=t)
    T = X @ P
    ctx.eq(m.x_scores_, T, "scores", rtol=1e-7, atol=1e-7 * np.abs(T).max())
    ctx.eq(m.proj_mat_, sdr.proj(P), "projection", rtol=1e-6, atol=1e-6)
    D = np.column_stack([np.ones(len(X)), T])
    if np.linalg.cond(D) > 1e6:
        ctx.skip("collinear scores")
        return
    c = np.linalg.lstsq(D, y, rcond=None)[0]
    Xn = X[::-1][:5] * 0.5 + 1.0
    ctx.eq(np.asarray(m.transform(Xn), float), Xn @ P, "transform", rtol=1e-7, atol=1e-7 * np.abs(T).max())
    ctx.eq(np.ravel(m.predict(Xn)), np.column_stack([np.ones(5), Xn @ P]) @ c, "predict", rtol=1e-6, atol=1e-6 * np.abs(y).max())
    ctx.eq(np.ravel(m.ols_obj_.fittedvalues), D @ c, "fitted", rtol=1e-6, atol=1e-6 * np.abs(y).max())


def run_answer(case, ctx):
    _, me, n, p, h, seed, i, a = case
    ctx.state(case)
    st = SET[i]
    X, y = load(n, p, seed, h)
    Z, N = standard(X, st)
    s = Solver(lambda k, x0: a)
    with stand.replaced(("minimize_ipopt",), s):
        m = sudire(userfun if me == "user" else me, n_components=h, verbose=False, **st)
        ctx.op("fit", m.fit, X.copy(), y.copy())
    if not s.calls:
        ctx.skip("solver stand-in not reached")
        return
    B = np.array(a, float).reshape(p, h, order="F")
    follow(ctx, m, N, Z, X, y, B, h)
    ctx.outcome(a, i)
