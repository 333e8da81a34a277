"""C05 M weight functions and robust loss."""
import itertools
import numpy as np
from lib import ref
from scipy.stats import norm
import direpack
from direpack.sprm._m_support_functions import Fair, Huber, Hampel, brokenstick
from sklearn.metrics import mean_squared_error, mean_absolute_error

PID = "C05"
RULE = """Every vector over an alphabet straddling all cut-offs (including exactly on them) x every cut-off triple x weight
function; every (y, prediction) pair of residual patterns over a signed alphabet x every weight function x loss."""
ASSUMPTIONS = ["weights are applied to absolute standardised values as everywhere in the package; the signed Huber/Hampel convention for negative arguments is left unspecified"]
F = {"Fair": Fair, "Huber": Huber, "Hampel": Hampel}
CUTS = ((1.0, 2.0, 4.0), (1.5, 2.5, 3.0), (0.5, 1.0, 8.0), (norm.ppf(.95), norm.ppf(.975), norm.ppf(.999)))


def BOUNDS(tier):
    return {"vector length": 3 if tier == "quick" else 4, "alphabet": [0, .5, 1, 1.5, 1.75, 2, 2.5, 3, 4, 4.5, 100], "cutoffs": CUTS}


def cases(tier):
    al = (0.0, 0.5, 1.0, 1.5, 1.75, 2.0, 2.5, 3.0, 4.0, 4.5, 100.0)
    for c in itertools.product(al, repeat=3 if tier == "quick" else 4):
        yield ("w",) + c
    yield ("w",) + tuple(np.linspace(0, 9, 385)[::-1]) + tuple(np.linspace(0, 5, 200))
    for r in itertools.product((0.0, 1.5, -1.5, 2.25, -2.25, 3.0, -3.0, 50.0, -50.0) if tier == "thorough" else (0.5, -1.8, 2.25, -3.0, 50.0, -50.0), repeat=4):
        yield ("loss",) + r
    for h in range(1, 12):
        yield ("stick", h)


def run(case, ctx):
    ctx.state(case)
    if case[0] == "w":
        v = np.array(case[1:])
        for cut in CUTS:
            for name in ("Fair", "Huber", "Hampel"):
                for shape in ((-1,), (-1, 1)):
                    x = v.reshape(shape).copy()
                    got = ctx.op((name, cut), F[name], x, *cut)
                    want = ref.WFUN[name](v, *cut).reshape(shape)
                    ctx.eq(got, want, "weight:%s" % name, rtol=1e-9, atol=1e-12)
                    ctx.same(x, v.reshape(shape), "argument-unchanged:%s" % name)
                    g = np.asarray(got, float)
                    ctx.true(((g >= 0) & (g <= 1)).all(), "weight-range:%s" % name, g)
                    o = np.argsort(v, kind="stable")
                    ctx.true((np.diff(g.ravel()[o]) <= 1e-12).all(), "weight-monotone:%s" % name, (v, g))
                    ctx.outcome(name, np.round(want, 6))
                    if name == "Fair":       # defined through the size of its argument
                        for sg in ((-1, 1, -1), (-1, -1, -1), (1, -1, 1)):
                            z = v * np.resize(sg, len(v))
                            ctx.eq(ctx.op((name, cut, "signed"), Fair, z.reshape(shape), *cut), want, "weight-signed:Fair", rtol=1e-9)
    elif case[0] == "loss":
        r = np.array(case[1:])
        y = np.array([1.0, -2.0, 0.5, 3.0])
        yp = y - r
        for name in ("Fair", "Huber", "Hampel"):
            for lf, rl in ((mean_squared_error, lambda a, b, w: np.sum(w * (a - b) ** 2) / np.sum(w)),
                           (mean_absolute_error, lambda a, b, w: np.sum(w * abs(a - b)) / np.sum(w))):
                for cut in CUTS:
                    w = ref.WFUN[name](np.abs(r), *cut)
                    if w.sum() < 1e-9:
                        ctx.skip("all weights zero")
                        continue
                    want = rl(y, yp, w)
                    for a, b in ((y, yp), (y.reshape(-1, 1), yp.reshape(-1, 1)), (y, yp.reshape(-1, 1))):
                        got = ctx.op(("robust_loss", name, lf.__name__), direpack.robust_loss, a.copy(), b.copy(), lfun=lf, fun=F[name],
                                     probct=cut[0], hampelb=cut[1], hampelr=cut[2])
                        ctx.eq(got, want, "robust_loss:%s" % name, rtol=1e-9)
        w = ref.hampel(np.abs(r), norm.ppf(.975), norm.ppf(.99), norm.ppf(.999))
        if w.sum() > 1e-9:
            ctx.eq(ctx.op("robust_loss default", direpack.robust_loss, y.copy(), yp.copy()), np.sum(w * r ** 2) / np.sum(w), "robust_loss-default", rtol=1e-9)
            ctx.outcome(w)
    else:
        h = case[1]
        got = np.asarray(ctx.op("brokenstick", brokenstick, h), float).ravel()
        want = np.array([sum(1.0 / k for k in range(i, h + 1)) / h for i in range(1, h + 1)])
        ctx.eq(got, want, "brokenstick", rtol=1e-9)
