"""C03 generalised spatial sign preprocessing."""
import itertools
import numpy as np
from lib import data, ref
import direpack

PID = "C03"
RULE = """Every lattice table and every base table with every single/double outlying case x every centre x every radial
function x every route (one-pass function, transformer fit/transform, fit_transform, covariance matrix); compared
with the definition: centred case times radial function of its norm; new batches use the fitted centre."""
ASSUMPTIONS = ["n >= p, as the radial cut-off is the ((n+p+1)/2)-th smallest norm", "cases on a cut-off tie are excluded and counted"]
FUNS = ["ss", "quad", "winsor", "ball", "shell", "linear_redescending"]
CENTRES = ["None", "median", "mean", "l1median", "kstepLTS"]


def BOUNDS(tier):
    return {"functions": FUNS, "centres": CENTRES, "lattice": "4x2 over {0,1,3} ", "base": "n<=11,p<=4, <=2 outlying cases"}


def cases(tier):
    q = tier == "quick"
    for c in itertools.product((0, 1, 3), repeat=4):
        yield ("tab", 4, 1, c)
    for c in itertools.product((0, 3) if q else (0, 1, 3), repeat=8):
        yield ("tab", 4, 2, c)
    for (n, p) in ((120, 2), (61, 7)):
        for dev in ((), ((3, 50.0),), ((0, 0.0), (5, -200.0))):
            yield ("base", n, p, 1, dev)
    for seed in range(1, 3 if q else 9):
        for (n, p) in ((7, 2), (11, 4), (6, 3), (5, 5), (9, 1)):
            yield ("base", n, p, seed, ())
            for i in range(n):
                for v in (50.0, 1e4, 0.0):
                    yield ("base", n, p, seed, ((i, v),))
            for i, k in itertools.combinations(range(n), 2):
                yield ("base", n, p, seed, ((i, 50.0), (k, -200.0)))


def build(case):
    if case[0] == "tab":
        return np.array(case[3], float).reshape(case[1], case[2])
    _, n, p, seed, dev = case
    X = data.table(n, p, seed) + np.arange(p)
    for i, v in dev:
        X[i] = v if v == 0 else X[i] + v
    return X


def gss(Xc, fun, margin):
    d = ref.norms(Xc)
    return Xc * ref.radial(fun, d, Xc.shape[1], Xc, margin)[:, None]


_LTS = {}


def lts_centre(X):
    """k-step LTS location, or None when it depends on where in the (flat) neighbourhood of the spatial
    median the iteration starts"""
    k = X.tobytes()
    if k in _LTS:
        return _LTS[k]
    out = None
    try:
        m0 = ref.l1med(X)
        out = ref.klts(X, start=m0)
        sp = 0.05 * np.abs(X - np.median(X, axis=0)).mean()
        for j in range(X.shape[1]):
            for sg in (-1, 1):
                st = m0.copy()
                st[j] += sg * sp
                if np.abs(ref.klts(X, start=st) - out).max() > 1e-9 * (1 + np.abs(X).max()):
                    raise ref.Ambiguous("start")
    except ref.Ambiguous:
        out = None
    _LTS.clear()
    _LTS[k] = out
    return out


def run(case, ctx):
    X = build(case)
    n, p = X.shape
    Xn = np.vstack([X[::-1] * 1.5 + 0.25, X[:1] * 0 + 1.0])
    batches = {"": Xn, "-same-size": np.vstack([X[1:] * 2 - 0.75, X[:1] * 0 + 1.0]), "-reordered": np.vstack([X[1:], X[:1]])}
    X0 = X.copy()
    for c in CENTRES:
        if case[0] == "tab" and c in ("l1median", "kstepLTS") and p > 1 and np.linalg.matrix_rank(X - X[0]) < 2:
            ctx.skip("spatial median of collinear points need not be unique")
            continue
        fitted = {}
        # the fitted centre itself is the subject of C01/C02: read it from the fitted object
        for f in FUNS:
            g = direpack.GenSpatialSignPreProcessor(center=c, fun=f)
            r = ctx.op(("fit", c, f), g.fit, X)
            ctx.true(r is g, "fit-returns-self")
            m = np.asarray(g.centring_.center_, float).reshape(-1)
            if c in ("mean", "median", "None"):
                if not ctx.eq(m, ref.LOC[c](X), "centre", rtol=1e-9, atol=1e-9 * (1 + np.abs(X).max())):
                    return
            elif p > 1:
                if c == "l1median":
                    # the spatial median is judged by the sum of distances it minimises
                    best = ref.l1obj(ref.l1med(X), X)
                    if not ctx.true(ref.l1obj(m, X) <= best * (1 + 2e-3) + 1e-5, "centre-l1median",
                                    "sum of distances %r, minimum %r" % (ref.l1obj(m, X), best)):
                        return
                else:
                    mr = lts_centre(X)
                    if mr is None:
                        ctx.skip("kstepLTS depends on the exact starting value")
                    elif not ctx.eq(m, mr, "centre-kstepLTS", rtol=1e-6, atol=1e-6 * (1 + np.abs(X).max())):
                        return
            Xc = X - m
            margin = 1e-7
            T = ctx.op(("transform", c, f), g.transform, X)
            routes = {"transform": T,
                      "stored": g.X_gsspp_,
                      "fit_transform": ctx.op(("fit_transform", c, f), direpack.GenSpatialSignPreProcessor(c, f).fit_transform, X),
                      "gen_ss_pp": ctx.op(("gen_ss_pp", c, f), direpack.gen_ss_pp, X, center=c, fun=f)}
            S = ctx.op(("gen_ss_covmat", c, f), direpack.gen_ss_covmat, X, center=c, fun=f)
            ctx.eq(g.Xm_, Xc, "centred-data", rtol=1e-9, atol=1e-9 * (1 + np.abs(X).max()))
            try:
                want = gss(Xc, f, margin)
                sens = gss(Xc * (1 + 1e-9) + 1e-9, f, margin)
            except ref.Ambiguous:
                ctx.skip("radial cut-off tie")
                continue
            if np.abs(want - sens).max() > 1e-5 * (1 + np.abs(want).max()):
                ctx.skip("case at the centre of the spatial sign")
                continue
            tol = 1e-6 * (1 + np.abs(want).max())
            for k, v in routes.items():
                ctx.eq(v, want, "%s:%s" % (k, f), rtol=1e-6, atol=tol)
            ctx.eq(S, want.T @ want / n, "covmat:%s" % f, rtol=1e-6, atol=1e-6 * (1 + np.abs(want.T @ want / n).max()))
            d = ref.norms(Xc)
            ctx.eq(np.asarray(g.gss_).reshape(-1), ref.radial(f, d, p, Xc, margin), "gss:%s" % f, rtol=1e-6)
            # orientation: every output case is a non-negative multiple of the centred case
            # new batch with the fitted centre
            for bn, Xb in batches.items():
                try:
                    wn = gss(Xb - m, f, margin)
                    sens = gss((Xb - m) * (1 + 1e-9) + 1e-9, f, margin)
                    if np.abs(wn - sens).max() <= 1e-5 * (1 + np.abs(wn).max()):
                        ctx.eq(ctx.op(("transform new" + bn, c, f), g.transform, Xb), wn, "transform-new%s:%s" % (bn, f), rtol=1e-6, atol=tol)
                except ref.Ambiguous:
                    ctx.skip("radial cut-off tie (new batch)")
            ctx.state(case, c, f)
            ctx.outcome(want)
        if c in ("None", "median", "mean"):
            # user-supplied radial function and centre
            half = lambda dd, p_, n_, *a: np.full((len(dd), 1), 0.5)
            got = ctx.op(("callable", c), direpack.gen_ss_pp, X, center=c, fun=half)
            ctx.eq(got, (X - ref.LOC[c](X)) * 0.5, "callable-radial", rtol=1e-9, atol=1e-9 * (1 + np.abs(X).max()))
    ctx.same(X, X0, "input-unchanged")
