"""C01 scaling: value = (x - centre)/scale, zero scale undivided, round trip."""
import itertools
import numpy as np
from lib import data, ref
import direpack

PID = "C01"
RULE = """Every table over a small alphabet (all shapes up to the bound) and every base table with every single-cell
outlier / missing cell / constant column deviation x every (centre, scale, trimming) setting x every call history
[fit+transform, fit_transform, functional form, predict] on old and new rows; compared cell by cell with the
definition computed by the reference estimators; counted as excluded when the reference estimator itself is
ambiguous (near tie) ."""
ASSUMPTIONS = ["tables have at least two rows for fitting", "spatial-median based centres are compared through their own fitted centre (their optimality is C02)"]
CENTRES = ["mean", "median", "None", "l1median", "kstepLTS"]
SCALES = ["std", "mad", "None", "scaleTau2"]


def BOUNDS(tier):
    return {"alphabet": [-1, 0, 2, 5] if tier == "quick" else [-3, -1, 0, 2, 5], "shapes": "2x1..4x1, 2x2, 3x2" ,
            "centres": CENTRES, "scales": SCALES, "trimming": [0, 0.25, 0.34]}


def settings():
    for c, s in itertools.product(CENTRES, SCALES):
        for t in ((0, 0.25, 0.34) if (c == "mean" or s == "std") else (0,)):
            yield c, s, t


def cases(tier):
    al = (-1, 0, 2, 5) if tier == "quick" else (-3, -1, 0, 2, 5)
    for n in (2, 3, 4):
        for c in itertools.product(al, repeat=n):
            yield ("col", n, 1, c)
    for c in itertools.product((0, 1, 4), repeat=4):
        yield ("tab", 2, 2, c)
    for c in itertools.product((0, 1, 4) if tier == "thorough" else (0, 3), repeat=6):
        yield ("tab", 3, 2, c)
    if tier == "thorough":
        for c in itertools.product((0, 3), repeat=9):
            yield ("tab", 3, 3, c)
        for c in itertools.product((-2, 1), repeat=8):
            yield ("tab", 4, 2, c)
    for (n, p) in ((140, 2), (33, 7), (3, 40)):
        for dev in (None, ("out", 1, 0), ("nan", 2, 1), ("const", 1, 0.1), ("shift", 1e6)):
            yield ("base", n, p, 1, dev)
    for seed in range(1, 4 if tier == "quick" else 9):
        for (n, p) in ((7, 1), (8, 3), (5, 6)):
            yield ("base", n, p, seed, None)
            for i in range(n):
                for j in range(p):
                    yield ("base", n, p, seed, ("out", i, j))
            for j in range(p):
                for v in (2.5, 0.1, -1000 / 3, 0.7e-9):
                    yield ("base", n, p, seed, ("const", j, v))
            if p > 1:
                for i in range(n):
                    for j in range(p):
                        yield ("base", n, p, seed, ("nan", i, j))
            yield ("base", n, p, seed, ("shift", 1e6))
            yield ("base", n, p, seed, ("mul", 1e-6))
            yield ("base", n, p, seed, ("mul", 1e6))
            yield ("base", n, p, seed, ("mul", 2.0 ** -36))
            for j in range(p):
                for e in (-28, -40, -60, 40):
                    yield ("base", n, p, seed, ("unit", j, 2.0 ** e))


def build(case):
    if case[0] in ("col", "tab"):
        return np.array(case[3], float).reshape(case[1], case[2])
    _, n, p, seed, dev = case
    X = data.table(n, p, seed) + np.arange(p)
    if dev:
        if dev[0] == "out":
            X[dev[1], dev[2]] = 4096.0
        elif dev[0] == "nan":
            X[dev[1], dev[2]] = np.nan
        elif dev[0] == "const":
            X[:, dev[1]] = dev[2]
        elif dev[0] == "unit":
            X[:, dev[1]] *= dev[2]
        elif dev[0] == "shift":
            X = X + dev[1]
        else:
            X = X * dev[1]
    return X


def cmax(X, trimming=0):
    return np.max(np.asarray(X), axis=0)


def crange(X, trimming=0):
    return np.max(np.asarray(X), axis=0) - np.min(np.asarray(X), axis=0)


def run(case, ctx):
    X = build(case)
    n, p = X.shape
    # user supplied estimators
    miss = bool(np.isnan(X).any())
    if not miss:
        vs = ctx.op("fit-callable", direpack.VersatileScaler(center=cmax, scale=crange).fit, X)
        want = ref.scale(X, X.max(0), X.max(0) - X.min(0))
        ctx.eq(ctx.op("transform-callable", vs.transform, X), want, "transform-callable", rtol=1e-9)
    Xn = np.vstack([X[0] * 2 + 1, X[-1] - 3.0, np.zeros(p), X[0]])
    row = X[[0]] + 0.5
    for c, s, t in settings():
        if miss and (t or c in ("l1median", "kstepLTS") or s == "scaleTau2"):
            continue
        if c in ("l1median", "kstepLTS") and case[0] == "tab" and s != "mad":
            continue
        degenerate = s == "scaleTau2" and (ref.col(ref.mad1, X) == 0).any()
        if degenerate:
            ctx.skip("tau scale of a column with zero MAD")
            continue
        X0 = X.copy()
        vs = direpack.VersatileScaler(center=c, scale=s, trimming=t)
        r = ctx.op(("fit", c, s, t), vs.fit, X)
        ctx.true(r is vs, "fit-returns-self", (c, s, t))
        m, sc = np.asarray(vs.center_, float).reshape(-1), np.asarray(vs.scale_, float).reshape(-1)
        ctx.eq(vs.col_loc_, vs.center_, "alias-col_loc")
        ctx.eq(vs.col_sca_, vs.scale_, "alias-col_sca")
        tol = 1e-9
        if c in ("mean", "median", "None"):
            if not ctx.eq(m, ref.LOC[c](X, t), "centre:%s" % c, rtol=1e-9, atol=1e-9 * (1 + np.nanmax(np.abs(X)))):
                continue
        if s != "scaleTau2":
            ok = ctx.eq(sc, ref.SCA[s](X, t), "scale:%s" % s, rtol=1e-7, atol=1e-9 * (1 + np.nanmax(np.abs(X))))
            if not ok:
                continue
        # tiny non-zero scale produced by rounding cannot be told from zero: compare through fitted scale
        want = ref.scale(X, m, sc)
        T = ctx.op(("transform", c, s, t), vs.transform, X)
        wide = 1e-9 * (1 + np.nanmax(np.abs(want)))
        ctx.eq(T, want, "transform", rtol=1e-9, atol=wide)
        ctx.eq(vs.datas_, want, "stored-data", rtol=1e-9, atol=wide)
        back = ctx.op("inverse", vs.inverse_transform, T)
        ctx.eq(back, X, "round-trip", rtol=1e-9, atol=1e-9 * (1 + np.nanmax(np.abs(X))))
        ctx.eq(ctx.op("inverse()", vs.inverse_transform), X, "round-trip-stored", rtol=1e-9, atol=1e-9 * (1 + np.nanmax(np.abs(X))))
        wn = ref.scale(Xn, m, sc)
        wd = 1e-9 * (1 + np.nanmax(np.abs(wn)))
        ctx.eq(ctx.op("predict", vs.predict, Xn), wn, "predict-new", rtol=1e-9, atol=wd)
        Tn = ctx.op("transform-new", vs.transform, Xn)
        ctx.eq(Tn, wn, "transform-new", rtol=1e-9, atol=wd)
        bk = ctx.op("inverse-new", vs.inverse_transform, Tn)
        ctx.eq(bk, Xn, "round-trip-new", rtol=1e-9, atol=1e-9 * (1 + np.nanmax(np.abs(Xn))))
        ctx.eq(ctx.op("transform-row", vs.transform, row), ref.scale(row, m, sc), "transform-row", rtol=1e-9,
               atol=1e-9 * (1 + np.nanmax(np.abs(ref.scale(row, m, sc)))))
        ctx.eq(vs.center_, m, "centre-unchanged-by-use", shape=False)
        ctx.eq(vs.scale_, sc, "scale-unchanged-by-use", shape=False)
        other = direpack.VersatileScaler(center=c, scale=s, trimming=t)
        ctx.eq(ctx.op("fit_transform", other.fit_transform, X), T, "fit_transform", rtol=1e-9, atol=wide)
        f = ctx.op("versatile_scale", direpack.versatile_scale, X, center=c, scale=s, trimming=t)
        ctx.eq(f, T, "versatile_scale", rtol=1e-9, atol=wide)
        ctx.same(X, X0, "input-unchanged")
        ctx.state(case, c, s, t)
        ctx.outcome(T)
