"""C02 location and scale estimators equal their definitions; spatial median is optimal."""
import itertools
import math
import numpy as np
from lib import data, ref
import direpack
from direpack.preprocessing import _preproc_utilities as pu

PID = "C02"
RULE = """All columns over the alphabet (with and without missing cells), all small tables, and all base tables with every
single / double outlier and every single missing cell, x every estimator x its options; compared with the
loop-level definition.  The spatial median is judged by its objective value against an independently computed
minimum, the k-step estimator by replaying its concentration steps."""
ASSUMPTIONS = ["k-step LTS cases whose half-sample hangs on a near tie are excluded and counted",
               "tau scale is decided per column on single columns with non-zero MAD (pooling over several columns is a known finding)"]


def BOUNDS(tier):
    return {"columns": "all of length 2..5 over 4 values, 3..4 with NaN", "tables": "3x2 over 3 values, 4x2 over 3 values",
            "base": "n<=12, p<=4, <=2 outliers", "tier": tier}


def cases(tier):
    q = tier == "quick"
    for n in (2, 3, 4, 5):
        for c in itertools.product((-2, 0, 1, 7) if (n < 5 or not q) else (-2, 0, 7), repeat=n):
            yield ("col", n, 1, c)
    for n in (3, 4):
        for c in itertools.product((-2, 0, 7, None), repeat=n):
            if None in c and sum(v is not None for v in c) >= 2:
                yield ("nancol", n, 1, c)
    for c in itertools.product((0, 1, 4), repeat=6):
        yield ("tab", 3, 2, c)
    for c in itertools.product((0, 1, 4) if not q else (0, 3), repeat=8):
        yield ("tab", 4, 2, c)
    for (n, p) in ((140, 2), (301, 1), (64, 6), (4, 30)):
        for dev in ((), (("row", 1, 100.0),), (("cell", 2, p - 1, 512.0),), (("nan", 3, 0),)):
            yield ("base", n, p, 1, dev)
    for seed in range(1, 5 if q else 13):
        for (n, p) in ((6, 2), (9, 3), (12, 4), (5, 7), (10, 1), (11, 1)):
            yield ("base", n, p, seed, ())
            cells = [(i, j) for i in range(n) for j in range(p)]
            for i in range(n):
                for v in (100.0, -3000.0):
                    yield ("base", n, p, seed, (("row", i, v),))
            for (i, j) in cells:
                yield ("base", n, p, seed, (("cell", i, j, 512.0),))
                yield ("base", n, p, seed, (("nan", i, j),))
            for j in range(p):
                for v in (0.1, -1000 / 3, 0.7e-9):
                    yield ("base", n, p, seed, (("const", j, v),))
                    yield ("base", n, p, seed, (("const", j, v), ("nan", 2, j)))
            for i, k in itertools.combinations(range(n), 2):
                yield ("base", n, p, seed, (("row", i, 100.0), ("row", k, 100.0)))
                if not q:
                    yield ("base", n, p, seed, (("row", i, 1e5), ("row", k, -20.0)))


    # two clusters of almost equal size: many concentration steps
    for seed in range(1, 25 if q else 121):
        for (n, p) in ((24, 2), (41, 2)) if q else ((24, 2), (41, 2), (40, 3), (61, 2)):
            yield ("mix", n, p, seed, 1)


def build(case):
    if case[0] == "mix":
        X = data.table(case[1], case[2], 500 + case[3], 2.0)
        X[: case[1] * 19 // 40] += np.array([3.0, 1.0, -1.0])[: case[2]]
        return X
    if case[0] != "base":
        return np.array([np.nan if v is None else v for v in case[3]], float).reshape(case[1], case[2])
    _, n, p, seed, dev = case
    X = data.table(n, p, seed) + np.arange(p)
    for d in dev:
        if d[0] == "row":
            X[d[1]] = X[d[1]] * 0.5 + d[2]
        elif d[0] == "cell":
            X[d[1], d[2]] = d[3]
        elif d[0] == "const":
            X[:, d[1]] = d[2]
        else:
            X[d[1], d[2]] = np.nan
    return X


def run(case, ctx):
    X = build(case)
    n, p = X.shape
    X0 = X.copy()
    nan = np.isnan(X).any()
    at = 1e-9 * (1 + np.nanmax(np.abs(X)))
    ctx.state(case)

    def cmp(name, got, want, rtol=1e-9):
        ctx.eq(got, want, name, rtol=rtol, atol=at * (rtol / 1e-9), shape=False)

    if any(np.isnan(X[:, j]).all() for j in range(p)):
        return
    cmp("median", ctx.op("median", pu.median, X), ref.col(ref.med1, X))
    cmp("mean", ctx.op("mean", pu.mean, X), ref.col(ref.mean1, X))
    cmp("std", ctx.op("std", pu.std, X), ref.col(ref.std1, X), 1e-8)
    cmp("mad", ctx.op("mad", pu.mad, X), ref.col(ref.mad1, X))
    cmp("mad-c", ctx.op("mad c=1", pu.mad, X, c=1.0), ref.col(ref.mad1, X) * ref.C_MAD)
    if not nan:
        for t in (0.1, 0.2, 0.25, 0.3, 0.34, 0.4):
            if abs(t * n - round(t * n)) < 1e-9 and int(t * n) != round(t * n):
                continue
            cmp("trimmed-mean", ctx.op(("mean", t), pu.mean, X, trimming=t), ref.col(ref.mean1, X, t))
            cmp("trimmed-std", ctx.op(("std", t), pu.std, X, trimming=t), ref.col(ref.std1, X, t), 1e-8)
    # tau scale, single columns
    for j in range(p):
        c = X[:, [j]]
        if not ref.mad1(X[:, j]) > 0:
            ctx.skip("tau: zero MAD")
            continue
        for kw in ({}, {"c1": 3.0}, {"c2": 2.0}, {"c1": 0}, {"consistency": False}, {"consistency": "finiteSample"}):
            if kw.get("consistency") == "finiteSample" and np.sum(~np.isnan(X[:, j])) < 3:
                continue
            got = ctx.op(("scaleTau2", j, kw), pu.scaleTau2, c, **kw)
            cmp("tau:%s" % sorted(kw), got, [ref.tau1(X[:, j], **kw)], 1e-7)
    if p > 1 and not nan and not (ref.col(ref.mad1, X) == 0).any() and case == ("base", 9, 3, 1, ()):
        # known finding: the tau scale pools its columns
        got = np.asarray(ctx.op("scaleTau2 table", pu.scaleTau2, X), float)
        want = np.array([ref.tau1(X[:, j]) for j in range(p)])
        ctx.comparisons += 1
        if not np.allclose(got, want, rtol=1e-6):
            if np.allclose(got, ref.tau_pooled(X), rtol=1e-6):
                ctx.fail("tau-pooled-over-columns:%dx%d" % (n, p), "got %s per column definition %s" % (got, want))
            else:
                ctx.fail("tau-several-columns", "got %s, expected %s (or the pooled value %s)" % (got, want, ref.tau_pooled(X)))
    elif p > 1 and not nan and not (ref.col(ref.mad1, X) == 0).any() and n >= 3:
        got = np.asarray(ctx.op("scaleTau2 table", pu.scaleTau2, X), float)
        want = np.array([ref.tau1(X[:, j]) for j in range(p)])
        ok = got.shape == want.shape and (np.allclose(got, want, rtol=1e-6) or np.allclose(got, ref.tau_pooled(X), rtol=1e-6))
        ctx.true(ok, "tau-several-columns", (got, want))
    # spatial median
    m = np.asarray(ctx.op("l1median", pu.l1median, X), float)
    ctx.outcome(np.round(m, 5))
    if p == 1:
        cmp("l1median-1d", m, ref.col(ref.med1, X))
    else:
        if not ctx.true(m.shape == (p,) and np.isfinite(m).all(), "l1median-shape", m):
            return
        f = ref.l1obj(m, X)
        if nan:
            # missing coordinates contribute nothing: local optimality against a direction grid
            best = min(ref.l1obj(m + st * np.eye(p)[k] * sg, X) for k in range(p) for sg in (-1, 1) for st in (1e-1, 1e-2, 1e-3))
            ctx.true(f <= best + 1e-4 * (1 + best / n), "l1median-nan-optimal", (f, best))
        else:
            mr = ref.l1med(X)
            fs = ref.l1obj(mr, X)
            # a smooth solver may stop next to a kink (minimum at or next to a case): 0.1% there, 1e-5 elsewhere
            kink = min(np.sqrt(((X - c) ** 2).sum(axis=1)).min() for c in (m, mr)) < 1e-2 * fs / n
            ok = 1e-3 if case[0] != "base" or kink else 1e-5
            ctx.true(f <= fs * (1 + ok) + 1e-5, "l1median-optimal", "objective %.9g, minimum %.9g" % (f, fs))
            for x0 in (X[0], X.mean(0)):
                m2 = np.asarray(ctx.op("l1median x0", pu.l1median, X, x0=x0.copy()), float)
                f2 = ref.l1obj(m2, X)
                ctx.true(f2 <= fs * (1 + ok) + 1e-5, "l1median-x0-optimal", "objective %.9g, minimum %.9g" % (f2, fs))
    # k-step LTS
    if not nan:
        for k in (1, 2, 3, 4, 5, 8):
            got = ctx.op(("kstepLTS", k), pu.kstepLTS, X, maxit=k)
            try:
                want = ref.klts(X, maxit=k, margin=1e-2 if case[0] == 'tab' else 1e-4)
            except ref.Ambiguous:
                ctx.skip("kstepLTS near tie")
                continue
            ctx.eq(got, want, "kstepLTS", rtol=1e-7, atol=at * 100)
    ctx.same(X, X0, "input-unchanged")
