"""C10 product-moment statistics equal their definitions, with the right invariances."""
import itertools
import math
import numpy as np
from lib import como, data
from direpack.dicomo.dicomo import dicomo

PID = "C10"
RULE = """All pairs of short vectors over an alphabet and all base vectors with every single cell replaced, each run
through every mode x centring x trimming x bias correction x order x option (and data shape); every returned
statistic is compared with the loop-level definition, and with the values returned for shifted, rescaled and
re-ordered data."""
ASSUMPTIONS = ["order 0 and bias corrected orders above four are outside the claim",
               "standardised statistics of data without spread are excluded (undefined)"]
MODES = ("mom", "var", "std", "skew", "kurt", "com", "cov", "cos", "cok", "M3", "corr", "continuum")


def BOUNDS(tier):
    return {"vectors": "quick: all x of length 4 over {0,2,5} x 3 partner vectors, base pairs n in {5,8,12} x every cell replaced by 2 values; thorough: length 4..5 over {-1,0,2,5}, n up to 24, pairs of deviations",
            "orders": "1..6 (4 with bias correction)", "trimming": [0, .1, .2, .25, .3, .4], "tier": tier}


def cases(tier):
    q = tier == "quick"
    yield from big()
    for k in (4,) if q else (4, 5):
        for c in itertools.product((0, 2, 5) if q else (-1, 0, 2, 5), repeat=k):
            for yk in range(3 if q else 4):
                yield ("lattice", c, yk)
    for n in (5, 8, 12) if q else (5, 6, 7, 8, 9, 12, 15, 24):
        for seed in range(1, 2 if q else 6):
            yield ("base", n, seed, ())
            for i in range(n):
                for v in (64.0, -7.5):
                    yield ("base", n, seed, (("x", i, v),))
                    yield ("base", n, seed, (("y", i, v),))
            if not q:
                for i, j in itertools.combinations(range(n), 2):
                    yield ("base", n, seed, (("x", i, 16.0), ("y", j, -9.0)))


def big():
    for n in (60, 257):
        for dev in ((), (("x", 3, 64.0),), (("y", 0, -7.5), ("x", 1, 16.0))):
            yield ("base", n, 1, dev)


def build(case):
    if case[0] == "lattice":
        x = np.array(case[1], float)
        n = len(x)
        y = [np.array([1.0, -2.0, 4.0, 0.5, 3.0])[:n], np.array([0.0, 0.0, 1.0, 0.0, 0.0])[:n], x.copy(), x[::-1].copy()][case[2]]
        return x, y
    _, n, seed, dev = case
    x = data.table(n, 1, seed).ravel() + 0.5
    y = 0.75 * x + data.table(n, 1, seed + 50, 2.0).ravel()
    for w, i, v in dev:
        (x if w == "x" else y)[i] = v
    return x, y


def configs(n, full):
    """every admissible setting: (constructor kwargs, fit kwargs)"""
    trims = [t for t in ((0, 0.1, 0.2, 0.25, 0.3, 0.4) if full else (0, 0.26)) if como.trim_ok(n, t)]
    for mode in MODES:
        for bc in (False, True):
            for t in trims:
                N = como.bc_n(n, t)
                if bc and N <= 3:
                    continue
                base = {"biascorr": bc, "trimming": t}
                if mode in ("mom", "com"):
                    for o in (1, 2, 3, 4) + (() if bc else (5, 6)):
                        if o == 1 and mode == "com":
                            continue
                        for op in ((1,) if o < 3 or mode == "mom" else range(0, o + 1)):
                            yield mode, "mean", dict(base, order=o, option=op)
                elif mode in ("cos", "M3"):
                    for op in (0, 1, 2, 3):
                        for st in (True, False) if mode == "cos" else (False,):
                            yield mode, "mean", dict(base, option=op, standardized=st)
                elif mode == "cok":
                    for op in (0, 1, 2, 3, 4):
                        for st in (True, False):
                            for F in (True, False):
                                yield mode, "mean", dict(base, option=op, standardized=st, Fisher=F)
                elif mode == "kurt":
                    for F in (True, False):
                        yield mode, "mean", dict(base, Fisher=F)
                elif mode == "continuum":
                    for a in (0.5, 1, 2, 3.5):
                        yield mode, "mean", dict(base, alpha=a)
                else:
                    yield mode, "mean", base
    for mode in ("mom", "var", "com", "cov", "corr"):
        for bc in (False, True):
            for o in ((1, 2) if bc else (1, 2, 3, 4)) if mode == "mom" else (2,):
                yield mode, "median", {"biascorr": bc, "order": o} if mode in ("mom", "com") else {"biascorr": bc}
    # modes whose centre is always the mean
    for mode in ("std", "skew", "kurt", "cos", "cok", "M3"):
        yield mode, "median", {}
    # defaults
    for mode in MODES:
        yield mode, "mean", {}


UNI = ("mom", "var", "std", "skew", "kurt")


def refkw(kw):
    m = {"biascorr": "bc", "trimming": "trim"}
    return {m.get(k, k): v for k, v in kw.items()}


def power(mode, kw, center):
    """(power in x, power in y) with which the statistic scales"""
    o, op = kw.get("order", 2), kw.get("option", 1)
    if center == "median" and mode in ("mom", "var", "com", "cov", "corr"):
        return {"mom": (1, 0), "var": (1, 0), "com": (1, 1), "cov": (1, 1), "corr": (0, 0)}[mode]
    if mode == "mom":
        return (o, 0)
    if mode == "com":
        return (1, 1) if o == 2 else (o - op, op)
    if mode == "var":
        return (2, 0)
    if mode == "std":
        return (1, 0)
    if mode == "cov":
        return (1, 1)
    if mode in ("skew", "kurt", "corr"):
        return (0, 0)
    if mode == "M3":
        return (3 - op, op)
    if mode in ("cos", "cok"):
        if kw.get("standardized", True):
            return (0, 0)
        t = 3 if mode == "cos" else 4
        return (t - op, op)
    if mode == "continuum":
        return (2 + kw.get("alpha", 1) - 1, 2)


def run(case, ctx):
    x, y = build(case)
    x0, y0 = x.copy(), y.copy()
    n = len(x)
    perm = np.r_[np.arange(1, n), 0]
    ctx.state(case)
    objs = {}
    full = ctx.tier != "quick" or (case[0] == "base" and not case[3]) or (case[0] == "lattice" and case[2] == 0 and sum(case[1]) % 4 == 0)
    inv = full and case[0] == "base"
    for k, (mode, center, kw) in enumerate(configs(n, full)):
        name = "%s/%s/%s" % (mode, center, sorted(kw.items()))
        try:
            want = como.stat(mode, x, y, center=center, **refkw(kw))
        except ZeroDivisionError:
            ctx.skip("undefined: no spread")
            continue
        t = kw.get("trimming", 0)
        if center == "median" and mode in ("mom", "com", "cov", "corr") and (x == y).all() and mode != "mom":
            ctx.skip("median co-moment of a variable with itself is its MAD")
        if mode in ("skew", "kurt", "cos", "cok", "corr") and center == "mean":
            # badly conditioned: spread of the trimmed data tiny compared with its size
            sx = como.second(list(x), list(x), t, False)
            sy = como.second(list(y), list(y), t, False)
            if min(sx, sy) < 1e-12 * max(np.max(x ** 2), np.max(y ** 2)):
                ctx.skip("undefined: no spread")
                continue

        def call(xx, yy, what, shape2=False):
            d = objs.get((mode, center))
            if d is None:
                d = objs[(mode, center)] = dicomo(est="arithmetic", mode=mode, center=center)
            if shape2:
                xx, yy = xx.reshape(-1, 1), yy.reshape(-1, 1)
            a = {} if mode in UNI else {"y": yy}
            return ctx.op((what, mode, center, kw), d.fit, xx, **a, **kw)
        got = call(x, y, "fit")
        sc = max(1.0, np.max(np.abs(x)), np.max(np.abs(y)))
        px, py = power(mode, kw, center)
        at = 1e-11 * sc ** (px + py) + 1e-9 * abs(want)
        ctx.eq(got, want, "value:" + mode, rtol=1e-9, atol=at)
        ctx.eq(objs[(mode, center)].moment_, want, "moment_:" + mode, rtol=1e-9, atol=at)
        ctx.outcome(mode, round(float(want), 6))
        if full or k % 5 == 0:
            g2 = call(x, y, "column shaped", True)
            ctx.eq(np.asarray(g2).ravel(), np.asarray(want).ravel(), "shape:" + mode, rtol=1e-9, atol=at)
        if inv or k % 11 == len(ctx.trace) % 11:
            ctx.eq(call(x[perm], y[perm], "re-ordered"), want, "order-of-cases:" + mode, rtol=1e-9, atol=at)
            if not (mode == "mom" and kw.get("order") == 1):
                ctx.eq(call(x + 3.0, y - 2.0, "shifted"), want, "shift:" + mode, rtol=1e-8, atol=at * 1e3)
            ctx.eq(call(x * 2.0, y * 0.5, "rescaled"), want * 2.0 ** px * 0.5 ** py, "unit:" + mode, rtol=1e-8,
                   atol=at * 2.0 ** px * 0.5 ** py * 10)
    ctx.same(x, x0, "input-unchanged")
    ctx.same(y, y0, "input-unchanged")
