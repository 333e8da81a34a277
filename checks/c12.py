"""C12 the co-moment analysis index is the weighted sum of the selected co-moments."""
import itertools
import numpy as np
from lib import como, data
from direpack.dicomo.dicomo import dicomo
from direpack.ppdire.capi import capi

PID = "C12"
RULE = """Every degree x scaling x option selection x weight vector (all unit vectors and mixed ones) x bias correction x
trimming x statistic on base pairs with every single cell deviated, and all ordered pairs of configurations evaluated
one after the other on one index object (reconfigured through its parameters); every value is compared with the
weighted sum of the moments recomputed from their definitions."""
ASSUMPTIONS = ["bias correction needs more than three (untrimmed) cases"]
W = [tuple(1.0 if i == k else 0.0 for i in range(6)) for k in range(6)] + [(1, 1, 1, -1, -1, -1), (0.5, -2.0, 3.0, 0.25, -1.5, 4.0)]
OPT = ["all", [1], [2], [3], [1, 2], [1, 3], [2, 3], [1, 2, 3], 1, 2, 3, [3, 1]]


def BOUNDS(tier):
    return {"degree": "2..4", "options": [str(o) for o in OPT], "weights": len(W), "history": "all ordered pairs (triples thorough) of 18 configurations", "tier": tier}


def cases(tier):
    q = tier == "quick"
    for n in (40, 150):
        for est in ("arithmetic", "distance"):
            for o in range(len(OPT)):
                yield ("base", n, 1, est, 4, o % 2 == 0, o, None)
    for n in (6, 9) if q else (5, 6, 9, 12):
        for seed in (1, 2) if q else range(1, 7):
            for est in ("arithmetic", "distance"):
                for deg, sc in itertools.product((2, 3, 4), (True, False)):
                    for o in range(len(OPT)):
                        yield ("base", n, seed, est, deg, sc, o, None)
                    for i in range(n):
                        yield ("base", n, seed, est, deg, sc, 0, (i, 24.0))
                        yield ("base", n, seed, est, deg, sc, 7, (i, -5.0))
    C = list(itertools.product((2, 3, 4), (True, False), (0, 1, 6)))
    for a in itertools.product(range(len(C)), repeat=2 if q else 3):
        yield ("history", [C[i] for i in a])


def xy(n, seed, dev=None):
    x = data.table(n, 1, seed).ravel() + 0.5
    y = 0.75 * x + data.table(n, 1, seed + 50, 2.0).ravel()
    if dev:
        x[dev[0]] = dev[1]
    return x, y


def want(x, y, est, deg, sc, o, w, kw):
    opts = [1, 2, 3] if OPT[o] == "all" else list(np.atleast_1d(OPT[o]))
    slot = {(2, 1): 0, (3, 1): 1, (3, 2): 2, (4, 1): 3, (4, 2): 4, (4, 3): 5}
    m = [0.0] * 6
    for (d, k), s in slot.items():
        if d > deg or k not in opts:
            continue
        mode = ("cov", "cos", "cok")[d - 2] if sc else "com"
        if est == "arithmetic":
            m[s] = como.stat(mode, x, y, order=d, option=k, trim=kw.get("trimming", 0), bc=kw.get("biascorr", False))
        else:
            m[s] = float(dicomo(est=est, mode=mode).fit(x, y=y, order=d, option=k, **kw))
    return sum(a * b for a, b in zip(w, m)), m


def run(case, ctx):
    ctx.state(case)
    if case[0] == "base":
        _, n, seed, est, deg, sc, o, dev = case
        x, y = xy(n, seed, dev)
        x0, y0 = x.copy(), y.copy()
        for kw in ({}, {"biascorr": True}, {"biascorr": False, "trimming": 0.1}, {"biascorr": True, "trimming": 0.15}, {"dmetric": "sqeuclidean"}):
            if est == "distance" and len(kw) > 1 or est != "distance" and "dmetric" in kw:
                continue
            for w in W:
                ctor = dict(max_degree=deg, projection_index=dicomo, pi_arguments={"est": est, "center": "mean"}, weights=list(w), scaling=sc, options=OPT[o])
                c = capi(**ctor)
                ref, m = want(x, y, est, deg, sc, o, w, kw)
                s = 1 + max(abs(v) for v in m)
                got = ctx.op(("fit", w, kw), c.fit, x, y, **kw)
                ctx.eq(got, ref, "index", rtol=1e-8, atol=1e-8 * s)
                ctx.eq(c.capi_index_, ref, "index-attribute", rtol=1e-8, atol=1e-8 * s)
                got2 = ctx.op(("fit again", w, kw), c.fit, x.reshape(-1, 1), y.reshape(-1, 1), **kw)
                ctx.eq(got2, ref, "repeat", rtol=1e-8, atol=1e-8 * s)
                ctx.same(c.weights, list(w), "weights-unchanged")
                ctx.outcome(round(float(ref), 6))
        ctx.same(x, x0, "input-unchanged")
        ctx.same(y, y0, "input-unchanged")
    else:
        x, y = xy(9, 3)
        w = W[7]
        c = None
        for (deg, sc, o) in case[1]:
            if c is None:
                c = capi(max_degree=deg, scaling=sc, options=OPT[o], weights=list(w), pi_arguments={"est": "arithmetic", "center": "mean"})
            else:
                ctx.op(("set_params", deg, sc, o), c.set_params, max_degree=deg, scaling=sc, options=OPT[o])
            ref, m = want(x, y, "arithmetic", deg, sc, o, w, {"biascorr": True})
            got = ctx.op(("fit", deg, sc, o), c.fit, x, y, biascorr=True)
            ctx.eq(got, ref, "history", rtol=1e-8, atol=1e-8 * (1 + max(map(abs, m))))
            ctx.state(case[1], deg, sc, o)
