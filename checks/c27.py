"""C27 scores of fitted models."""
import itertools
import math
import numpy as np
import pandas as pd
from lib import data, models

PID = "C27"
RULE = """Every predicting model of the catalogue x dataset is fitted once and scored on every batch of a menu (training data, new data of
the same size, every contiguous part of at least two cases, every pair of cases, reversed rows) x response container x case weights (none, equal, each
case dropped, two weight patterns); the score must be the coefficient of determination of the model's predictions of exactly these cases,
the validation score of sparse robust regression likewise with no weights or with the model's case weights; afterwards the model still
predicts the same."""
ASSUMPTIONS = ["batches with a constant response are excluded (the coefficient of determination is undefined)",
               "weighted validation scores are judged for validation sets of the training size only, where case weights exist"]


def BOUNDS(tier):
    return {"models": len(mods()), "batches": "all contiguous parts, all pairs", "containers": ["flat", "column", "series", "frame"], "tier": tier}


def mods(tier="quick"):
    return [m for m in models.catalogue(tier) if models.has_predict(m)]


def cases(tier):
    q = tier == "quick"
    for k, m in enumerate(mods(tier)):
        for ds in list(models.datasets(q, m)) + [(40, 4, 1, "none")]:
            if q and ds[3] in ("const", "offset") and k % 2:
                continue
            yield ("score", m, ds)


def r2(y, f, w=None):
    y, f = [float(v) for v in np.ravel(y)], [float(v) for v in np.ravel(f)]
    w = [1.0] * len(y) if w is None else [float(v) for v in np.ravel(w)]
    mu = math.fsum(a * b for a, b in zip(w, y)) / math.fsum(w)
    den = math.fsum(a * (b - mu) ** 2 for a, b in zip(w, y))
    if den < 1e-9 * max(1e-300, math.fsum(a * b * b for a, b in zip(w, y))):
        return None, None
    num = math.fsum(a * (b - c) ** 2 for a, b, c in zip(w, y, f))
    return 1 - num / den, 1 + num / den


def run(case, ctx):
    _, m, ds = case
    X, y = models.load(ds)
    n, p = X.shape
    ctx.state(case)
    e = models.make(m)
    ctx.op("fit", models.fit, e, m, X.copy(), y.copy())
    Xn, yn = data.regression(n, p, 7, noise=2.0)
    if ds[3] == "offset":
        Xn, yn = Xn + 64.0, yn - 128.0
    batches = [("train", X, y), ("new", Xn, yn), ("reversed", X[::-1], y[::-1]), ("twice", np.vstack([X, Xn]), np.r_[y, yn])]
    for a, b in itertools.combinations(range(n + 1), 2):
        if b - a >= 2:
            batches.append(("part", Xn[a:b], yn[a:b]))
    for a, b in itertools.combinations(range(n), 2):
        batches.append(("pair", X[[b, a]], y[[b, a]]))
    before = np.array(ctx.op("predict", e.predict, Xn.copy()), float)
    pool = np.vstack([X, Xn])
    each = np.ravel(np.asarray(e.predict(pool.copy()), float))
    for name, A, b in batches:
        f = np.ravel(np.asarray(e.predict(A.copy()), float))
        own = [each[np.flatnonzero((pool == r).all(axis=1))[0]] for r in A]
        ctx.eq(f, own, "prediction-of-case:" + m[0], rtol=1e-8, atol=1e-8 * (1 + np.abs(each).max()))
        k = len(b)
        wts = [None]
        if name in ("train", "new"):
            wts += [np.ones(k) * 0.5, np.arange(1, k + 1) / k, (np.arange(k) % 3) * 1.0]
            for i in range(k):
                w = np.ones(k)
                w[i] = 0.0
                wts.append(w)
        elif name == "part":
            wts += [np.linspace(1, 0.1, k)]
        conts = [("flat", b.copy())]
        if name in ("train", "new"):
            conts += [("column", b.reshape(-1, 1).copy()), ("series", pd.Series(b, index=range(7, 7 + k))), ("frame", pd.DataFrame({"y": b}))]
        for w in wts:
            want, tol = r2(b, f, w)
            if want is None:
                ctx.skip("constant response")
                continue
            for cn, c in conts if w is None else conts[:2]:
                got = ctx.op(("score", name, cn), e.score, A.copy(), c, **({} if w is None else {"sample_weight": w.copy()}))
                ctx.eq(got, want, "score:%s" % m[0], rtol=1e-9, atol=1e-9 * tol)
                if m[0] == "sprm" and w is None:
                    v = ctx.op(("valscore", name, cn), e.valscore, A.copy(), c, "normal")
                    ctx.eq(v, want, "valscore-normal", rtol=1e-9, atol=1e-9 * tol)
                    if k == n:
                        cw = np.ravel(np.asarray(e.caseweights_, float)).copy()
                        ww, tw = r2(b, f, cw)
                        v = ctx.op(("valscore-weighted", name, cn), e.valscore, A.copy(), c, "weighted")
                        if ww is not None:
                            ctx.eq(v, ww, "valscore-weighted", rtol=1e-9, atol=1e-9 * tw)
            ctx.outcome(name, round(want, 6))
    if m[0] in ("snipls", "sprm"):
        # a single new frame, scored from a data frame
        want, tol = r2(yn, e.predict(Xn.copy()))
        ctx.eq(ctx.op("score frame", e.score, pd.DataFrame(Xn), pd.Series(yn)), want, "score-frame:%s" % m[0], rtol=1e-9, atol=1e-9 * tol)
    ctx.eq(np.array(e.predict(Xn.copy()), float), before, "model-unchanged", rtol=0, atol=0)
