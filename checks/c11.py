"""C11 distance statistics: fast, naive and defining computation agree."""
import itertools
import math
import numpy as np
from lib import como, data
from direpack.dicomo.dicomo import dicomo
from direpack.dicomo import _dicomo_utils as du

PID = "C11"
RULE = """All pairs of short vectors over an alphabet and all base samples (1 to 3 columns each) with every single case
moved, x mode x bias correction x computation mode x data shape; every value is compared with the double sums over
centred distance matrices, plus shift, unit and order-of-cases orbits and the range of distance correlation."""
ASSUMPTIONS = ["correlations of samples without spread are excluded (undefined)",
               "martingale difference divergence has a single response column (the code's documented use)",
               "the bias corrected squared divergence may be negative; its square root is then undefined (NaN)"]


def BOUNDS(tier):
    return {"vectors": "all pairs of length 4 over {0,1,4} (quick), length 5 (thorough); base samples n in 5..12, 1..3 columns, every case moved", "tier": tier}


def cases(tier):
    q = tier == "quick"
    L = list(itertools.product((0, 1, 4), repeat=4))
    for i, a in enumerate(L):
        for j, b in enumerate(L):
            if not q or (i * 7 + j) % 4 == 0 or a == b:
                yield ("lattice", a, b)
    if not q:
        L = list(itertools.product((0, 1, 4), repeat=5))
        for i, a in enumerate(L):
            for j, b in enumerate(L):
                if i % 3 == 0 and a >= b:
                    yield ("lattice", a, b)
    for n in (40, 129):
        for (p, r) in ((1, 1), (3, 1), (2, 2)):
            yield ("base", n, p, r, 1, ())
            yield ("base", n, p, r, 1, (("x", 2, 40.0),))
    for n in (5, 8, 11) if q else (5, 6, 7, 8, 9, 11, 14):
        for (p, r) in ((1, 1), (2, 1), (3, 2), (1, 2)):
            for seed in (1, 2) if q else range(1, 7):
                yield ("base", n, p, r, seed, ())
                for i in range(n):
                    for v in (40.0, -3.0):
                        yield ("base", n, p, r, seed, (("x", i, v),))
                        yield ("base", n, p, r, seed, (("y", i, v),))


def build(case):
    if case[0] == "lattice":
        return np.array(case[1], float).reshape(-1, 1), np.array(case[2], float).reshape(-1, 1)
    _, n, p, r, seed, dev = case
    x = data.table(n, p, seed) + np.arange(p)
    y = data.table(n, r, seed + 30, 1.0) + 0.5 * x[:, [0]] ** 2
    for w, i, v in dev:
        (x if w == "x" else y)[i] = v + 0.5 * np.arange((x if w == "x" else y).shape[1])
    return x, y


def run(case, ctx):
    x, y = build(case)
    n = len(x)
    x0, y0 = x.copy(), y.copy()
    ctx.state(case)
    lat = case[0] == "lattice"
    sx, sy = max(1.0, np.abs(x - x.mean(0)).max()), max(1.0, np.abs(y - y.mean(0)).max())
    cx, cy = (x == x[0]).all(), (y == y[0]).all()
    perm = np.r_[n - 1, np.arange(n - 1)]
    for bc in (False, True):
        if bc and n <= 3:
            continue
        A, B = como.centred(x, bc), como.centred(y, bc)
        vxy, vx, vy = como.inner(A, B, bc), como.inner(A, A, bc), como.inner(B, B, bc)
        # squared statistics: judge the squares (their square root amplifies rounding at zero)
        want = {"var": vx, "mom": vx, "std": vx, "cov": vxy, "com": vxy, "corr": None, "continuum": None}
        for cm in ("fast", "naive"):
            for mode in ("mom", "var", "std", "cov", "com", "corr", "continuum"):
                if lat and mode in ("mom", "com"):
                    continue
                if mode == "corr" and (cx or cy or vx <= 1e-12 or vy <= 1e-12):
                    ctx.skip("correlation without spread")
                    continue

                def call(a, b, what, **kw):
                    d = dicomo(est="distance", mode=mode)
                    k2 = dict(biascorr=bc, calcmode=cm, **kw)
                    if mode not in ("mom", "var", "std"):
                        k2["y"] = b
                    r = ctx.op((what, mode, bc, cm), d.fit, a, **k2)
                    ctx.true(np.ndim(r) == 0 and np.isfinite(r), "number:" + mode, r)
                    if what == "fit":       # the intermediate results the object reports
                        for a, v, on in (("x_moment_", vx, mode not in ("cov", "com")), ("y_moment_", vy, mode in ("corr", "continuum")),
                                         ("co_moment_", vxy, mode not in ("mom", "var", "std"))):
                            if on:
                                ctx.true(hasattr(d, a), "reported:%s:%s:%s" % (a, mode, cm), "not set")
                                ctx.eq(float(np.squeeze(getattr(d, a))) ** 2, abs(v), "reported:%s:%s:%s" % (a, mode, cm), rtol=1e-7, atol=1e-11 * (sx + sy) ** 2)
                    return float(r)
                t = "%s:%s:%s" % (mode, "U" if bc else "V", cm)
                got = call(x, y, "fit")
                if mode in ("mom", "var"):
                    ctx.eq(got ** 2, abs(vx), t, rtol=1e-7, atol=1e-12 * sx ** 2)
                elif mode == "std":
                    ctx.eq(got ** 4, abs(vx), t, rtol=1e-7, atol=1e-12 * sx ** 2)
                elif mode in ("cov", "com"):
                    ctx.eq(got ** 2, abs(vxy), t, rtol=1e-7, atol=1e-11 * sx * sy)
                elif mode == "corr":
                    ctx.eq(got ** 2, abs(vxy) / math.sqrt(abs(vx * vy)), t, rtol=1e-6, atol=1e-8)
                    if not bc:
                        ctx.true(-1e-7 <= got <= 1 + 1e-7, "range:" + t, got)
                else:
                    for al in (1, 2.0, 3.0):
                        g = call(x, y, "fit", alpha=al)
                        ctx.eq(g, abs(vxy) * abs(vx) ** (0.25 * (al - 1)), t, rtol=1e-6, atol=1e-10 * sx ** 3 * sy)
                    got = call(x, y, "fit")
                ctx.outcome(mode, bc, round(got, 6))
                if x.shape[1] == 1 and y.shape[1] == 1:
                    ctx.eq(call(x.ravel(), y.ravel(), "flat"), got, "flat:" + t, rtol=1e-7, atol=1e-6 * math.sqrt(sx * sy))
                if not lat or (case[1] < case[2] and not bc):
                    tol = dict(rtol=1e-6, atol=1e-6 * math.sqrt(sx * sy))
                    if mode == "continuum":
                        tol["atol"] = 1e-8 * sx * sy
                    ctx.eq(call(x[perm], y[perm], "re-ordered"), got, "order:" + t, **tol)
                    ctx.eq(call(x + 2.5, y - 1.0, "shifted"), got, "shift:" + t, **tol)
                    f = {"mom": 4.0, "var": 4.0, "std": 2.0, "cov": 2.0 ** 0.5, "com": 2.0 ** 0.5, "corr": 1.0, "continuum": 2.0}[mode]
                    ctx.eq(call(x * 4.0, y * 0.5, "rescaled"), got * f, "unit:" + t, rtol=1e-6, atol=4e-6 * math.sqrt(sx * sy) * f)
        # other distance metrics: the definition with that metric, whichever computation mode
        for metric in ("cityblock", "sqeuclidean", "chebyshev") if not lat or case[1] < case[2] and not bc else ():
            A2, B2 = como.centred(x, bc, metric=metric), como.centred(y, bc, metric=metric)
            wxy, wx, wy = como.inner(A2, B2, bc), como.inner(A2, A2, bc), como.inner(B2, B2, bc)
            for cm in ("fast", "naive"):
                t = ":%s:%s" % (metric, cm)
                k2 = dict(biascorr=bc, calcmode=cm, dmetric=metric)
                r = float(ctx.op(("var", metric, bc, cm), dicomo(est="distance", mode="var").fit, x, **k2))
                ctx.eq(r ** 2, abs(wx), "metric-var" + t, rtol=1e-7, atol=1e-11 * sx ** 4)
                r = float(ctx.op(("cov", metric, bc, cm), dicomo(est="distance", mode="cov").fit, x, y=y, **k2))
                ctx.eq(r ** 2, abs(wxy), "metric-cov" + t, rtol=1e-7, atol=1e-11 * sx ** 2 * sy ** 2)
                if not (cx or cy) and min(wx, wy) > 1e-9:
                    r = float(ctx.op(("corr", metric, bc, cm), dicomo(est="distance", mode="corr").fit, x, y=y, **k2))
                    ctx.eq(r ** 2, abs(wxy) / math.sqrt(abs(wx * wy)), "metric-corr" + t, rtol=1e-6, atol=1e-8)
        # martingale difference divergence of y given x
        yy = y[:, [0]]
        m2 = como.inner(A, como.centred(yy, bc, True), bc)
        sq = ctx.op(("difference_divergence", bc), du.difference_divergence, x, yy, biascorr=bc)
        ctx.eq(sq, m2, "mdd-squared:%s" % bc, rtol=1e-7, atol=1e-11 * sx * sy ** 2, shape=False)
        d = dicomo(est="distance", mode="mdd")
        if m2 > 1e-10 * sx * sy ** 2:
            for b in (yy, yy.ravel()):
                r = ctx.op(("mdd", bc, b.ndim), d.fit, x, y=b, biascorr=bc)
                ctx.eq(float(r) ** 2, m2, "mdd:%s" % bc, rtol=1e-7, atol=1e-11 * sx * sy ** 2)
            r = ctx.op(("mdd re-ordered", bc), d.fit, x[perm], y=yy[perm], biascorr=bc)
            ctx.eq(float(r) ** 2, m2, "mdd-order:%s" % bc, rtol=1e-7, atol=1e-11 * sx * sy ** 2)
            r = ctx.op(("mdd rescaled", bc), d.fit, x * 4.0 - 1, y=yy * 0.5 + 3, biascorr=bc)
            ctx.eq(float(r) ** 2, m2 * 4.0 * 0.25, "mdd-unit:%s" % bc, rtol=1e-6, atol=1e-10 * sx * sy ** 2)
        else:
            ctx.skip("mdd at or below zero")
    # trimmed and median centred versions: the definition with the location estimate replaced
    if not lat:
        for center, t in (("mean", 0.1), ("mean", 0.2), ("median", 0)):
            A, B = flex(como.dist(x), center, t), flex(como.dist(y), center, t)
            if A is None:
                continue
            for mode, (P, Q) in (("var", (A, A)), ("cov", (A, B))):
                w = como.loc((P * Q).ravel(), t, center)
                d = dicomo(est="distance", mode=mode, center=center)
                k2 = {} if mode == "var" else {"y": y}
                r = float(ctx.op((mode, center, t), d.fit, x, trimming=t, **k2))
                ctx.eq(r if center == "median" else r ** 2, w if center == "median" else abs(w), "flex:%s:%s" % (mode, center), rtol=1e-7,
                       atol=1e-11 * max(sx, sy) ** 2)
        # inner products of centred matrices over the products left after trimming
        for bc in (False, True):
            A, B = np.array(como.centred(x, bc)), np.array(como.centred(y[:, [0]], bc, True))
            for t in (0, 0.05, 0.1, 0.2):
                v = np.sort((A * B).ravel())
                cut = int(t * n * n)
                if not como.trim_ok(n * n, t):
                    continue
                v = v[cut:n * n - cut]
                m = math.sqrt(len(v))
                if bc and m <= 3.5:
                    continue
                f = getattr(du, "U_inner" if bc else "D_inner", None)
                if f is None:
                    ctx.skip("inner product not reachable")
                    continue
                ctx.eq(ctx.op(("inner", bc, t), f, A, B, t), math.fsum(v) / (m * (m - 3) if bc else m * m), "inner:%s" % bc, rtol=1e-8, atol=1e-12 * sx * sy ** 2, shape=False)
                if not bc:
                    c = (flex(como.dist(x), "mean", t), flex(0.5 * np.array(como.dist(y[:, [0]])) ** 2, "mean", t))
                    if c[0] is not None:
                        w = np.sort((c[0] * c[1]).ravel())[cut:n * n - cut]
                        ctx.eq(ctx.op(("difference_divergence", t), du.difference_divergence, x, y[:, [0]], trimming=t), math.fsum(w) / len(w), "mdd-trimmed", rtol=1e-7,
                               atol=1e-11 * sx * sy ** 2, shape=False)
    # the matrix version
    M = ctx.op("MDDM", du.MDDM, x, y)
    ctx.eq(M, como.mddm(x, y), "MDDM", rtol=1e-8, atol=1e-11 * sx * sy ** 2)
    ctx.same(x, x0, "input-unchanged")
    ctx.same(y, y0, "input-unchanged")


def flex(D, center, t):
    D = np.array(D)
    n = len(D)
    if not (como.trim_ok(n, t) and como.trim_ok(n * n, t)):
        return None
    r = np.array([como.loc(D[i], t, center) for i in range(n)])
    g = como.loc(D.ravel(), t, center)
    return D - r[:, None] - r[None, :] + g
