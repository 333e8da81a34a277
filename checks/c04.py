"""C04 wrapping."""
import itertools
import numpy as np
from lib import data, ref
import direpack

PID = "C04"
RULE = """All columns over the alphabet and all base tables with every single outlying cell / constant column, wrapped by
transformer, by fit_transform, by predict on new rows and by the functional form with every (location, scale) pair
of a menu; compared cell by cell with the wrapping function (identity up to 1.5, tanh to 4, then the centre)."""
ASSUMPTIONS = ["cells within 1e-9 of the hard rejection point are continuous there (tanh(0)=0), at 1.5 the jump is below 1e-4 and such exact hits use dyadic values"]


def BOUNDS(tier):
    return {"columns": "length 3..5 over {-9,-1,0,1,2,30}", "base": "all single-cell outliers over 7 magnitudes"}


def cases(tier):
    q = tier == "quick"
    for n in (3, 4) if q else (3, 4, 5):
        for c in itertools.product((-9, -1, 0, 1, 30) if q else (-9, -1, 0, 1, 2, 30), repeat=n):
            yield ("col", n, 1, c)
    for (n, p) in ((200, 2), (40, 9)):
        for dev in (None, (3, 1, 3.0), (7, 0, -4.5), ("const", 1, 0.1)):
            yield ("base", n, p, 1, dev)
    for seed in range(1, 4 if q else 9):
        for (n, p) in ((8, 3), (5, 6), (9, 1)):
            yield ("base", n, p, seed, None)
            for i in range(n):
                for j in range(p):
                    for v in (1.4, 1.6, 3.0, 3.99, 4.01, -2.0, -3.9, -4.5, 1000.0):
                        yield ("base", n, p, seed, (i, j, v))
            for j in range(p):
                yield ("base", n, p, seed, ("const", j, 2.5))


def build(case):
    if case[0] == "col":
        return np.array(case[3], float).reshape(case[1], 1)
    _, n, p, seed, dev = case
    X = data.table(n, p, seed) + np.arange(p)
    if dev:
        if dev[0] == "const":
            X[:, dev[1]] = dev[2]
        else:
            i, j, v = dev
            X[i, j] = ref.med1(X[:, j]) + v * ref.mad1(X[:, j])
    return X


def wrapref(X, m, s):
    return np.column_stack([ref.wrap1(X[:, j], m[j], s[j]) for j in range(X.shape[1])])


def near(X, m, s):
    """|u| within rounding of the lower kink, where the function jumps by 5e-5 in scale units"""
    u = np.abs(X - m) / ref.nz(s)
    return (np.abs(u - 1.5) < 1e-9).any()


def run(case, ctx):
    X = build(case)
    n, p = X.shape
    X0 = X.copy()
    m, s = ref.col(ref.med1, X), ref.col(ref.mad1, X)
    w = direpack.Wrapper()
    ctx.true(ctx.op("fit", w.fit, X) is w, "fit-returns-self")
    ctx.eq(w.center_, m, "centre", shape=False)
    ctx.eq(w.scale_, s, "scale", shape=False)
    if near(X, m, s):
        ctx.skip("value on the kink")
        return
    want = wrapref(X, m, s)
    got = ctx.op("transform", w.transform, X)
    ctx.eq(got, want, "transform")
    ctx.eq(w.dataw_, want, "stored")
    ctx.eq(ctx.op("fit_transform", direpack.Wrapper().fit_transform, X), want, "fit_transform")
    # bounded influence: nothing is moved further than 1.541 scales from the centre
    dev = np.abs(np.asarray(got, float) - m)
    ctx.true((dev <= 1.540793 * ref.nz(s) * (1 + 1e-9) + 1e-9 * (1 + np.abs(m))).all(), "bounded", (dev, s))
    Xn = np.vstack([X * 0.75 + 1.0, X[[0]] * 10])
    if not near(Xn, m, s):
        wn = wrapref(Xn, m, s)
        ctx.eq(ctx.op("transform new", w.transform, Xn), wn, "transform-new")
        ctx.eq(ctx.op("predict", w.predict, Xn), wn, "predict-new")
        ctx.eq(ctx.op("row", w.transform, Xn[[0]]), wn[[0]], "single-row")
    for mm, ss in ((0.0, 1.0), (1.0, 2.0), (-3.0, 0.5), (0.5, 0.0)):
        M, S = np.full(p, mm), np.full(p, ss)
        if near(X, M, S):
            ctx.skip("value on the kink")
            continue
        ctx.eq(ctx.op(("wrap", mm, ss), direpack.wrap, X, M.copy(), S.copy()), wrapref(X, M, S), "wrap")
    ctx.same(X, X0, "input-unchanged")
    ctx.state(case)
    ctx.outcome(want)
