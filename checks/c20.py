"""C20 invalid settings and mismatched data are refused, valid ones accepted."""
import importlib
import itertools
import numpy as np
import pandas as pd
from lib import data, models, stand, core
from checks import c17

PID = "C20"
RULE = """For every estimator: each setting runs through values below, on and above both ends of its documented range (all
triples for the three cut-off probabilities, all pairs of names for centre x scale, all pairs component count x table shape) and each
shape mismatch of responses and new data; the case carries whether the documentation accepts it.  Refusal: fit, the constructor or the
answering method raises.  Acceptance: no exception and finite answers of the right shape."""
ASSUMPTIONS = ["settings for which the documentation states no range are not judged", "cut-off probabilities below one half give negative cut-offs and are not judged for acceptance"]
PR = (-0.1, 0.0, 0.5, 0.9, 0.95, 0.999, 1.0, 1.1)


def BOUNDS(tier):
    return {"probability values": len(PR), "table shapes": 4, "tier": tier}


SHAPES = ((8, 3), (5, 3), (9, 2), (3, 5))
GRID = dict(optimizer="grid", optimizer_options={"ndir": 8, "maxiter": 2})


def cases(tier):
    # -- cut-off probabilities: all triples x weight function x estimator
    for kind in ("sprm", "rm"):
        for fun in ("Hampel", "Huber", "Fair"):
            for p1 in PR:
                for p2, p3 in itertools.product(PR, PR) if fun == "Hampel" else ((0.95, 0.999), (0.1, 0.05)):
                    yield ("prob", kind, fun, p1, p2, p3)
        for fun in ("Hampel", "Huber", "Fair", "hampel", "Tukey", "", None, "HampelHuber"):
            yield ("fun", kind, fun)
    # -- sparsity
    for eta in (-1.0, -0.1, -1e-9, 0.0, 1e-9, 0.25, 0.5, 0.999, 1.0, 1.0000001, 2.0):
        for h in (1, 2):
            yield ("eta", eta, h)
    # -- component counts
    for n, p in SHAPES:
        for h in range(-1, max(n, p) + 2):
            for kind in ("sprm", "ppdire", "sudire", "ppdire-slsqp", "ppdire-fit"):
                if kind == "sudire" and n < p:
                    continue
                yield ("comp", kind, n, p, h)
    # -- case counts of the response
    for kind in ("snipls", "sprm", "rm", "ppdire", "sudire", "dicomo", "dicomo-naive", "mdd", "capi", "diffdiv", "MDDM"):
        for n in (5, 8):
            for ny in (0, 1, n - 2, n - 1, n, n + 1, 2 * n):
                for form in ("flat", "column", "series", "colframe"):
                    if kind == "MDDM" and ny == 1:      # broadcast, utility function
                        continue
                    if form in ("series", "colframe") and kind not in ("snipls", "sprm", "rm", "ppdire", "sudire"):
                        continue
                    yield ("cases", kind, n, ny, form)
    # -- columns of new data
    for i in range(len(NEW)):
        for d in (-1, 0, 1, 3):
            for form in ("array", "frame", "row"):
                yield ("newcols", i, d, form)
    # -- names
    for c in ("mean", "median", "l1median", "kstepLTS", "Mean", "avg", "None", ""):
        for kind in ("ppdire", "sudire", "dicomo"):
            yield ("center", kind, c)
    for c in ("mean", "median", "l1median", "kstepLTS", "None", "average", "mode_", "l2median"):
        for s in ("mad", "std", "scaleTau2", "None", "sd_", "iqr_", "scaletau"):
            for kind in ("scaler", "snipls", "sprm", "rm", "versatile_scale"):
                yield ("names", kind, c, s)
    for f in ("ss", "quad", "winsor", "ball", "shell", "linear_redescending", "sphere_", "Ball"):
        for kind in ("gss", "gen_ss_pp"):
            yield ("radial", kind, f)
    for m in ("sir", "save", "dr", "phd", "iht", "dcov-sdr", "mdd-sdr", "bcov-sdr", "pca", "SIR", "dcov", ""):
        yield ("method", m)
    for m in ("mom", "var", "std", "skew", "kurt", "com", "cov", "cok", "cos", "corr", "continuum", "M3", "mdd", "variance", "Cov", ""):
        for e in ("arithmetic", "distance", "Arithmetic", "dist", "robust", ""):
            yield ("mode", e, m)
    for k in range(-1, 8):
        yield ("degree", k)
    for t in (-1.0, -0.1, -1e-9, 0, 0.0, 0.1, 0.5, 0.9, 1.0, 1.5, 2):
        yield ("trim", t)
    for kind in ("sprm", "snipls"):
        for form in ("array", "frame"):
            for col in (False, True, "list"):
                yield ("columns", kind, form, col)
    for sc in ("weighted", "normal", "robust", "", None, "Weighted"):
        yield ("scoring", sc)
    for kind in ("ppdire", "sudire", "sprm", "snipls", "rm", "capi", "dicomo", "scaler", "gss"):
        for nm in ("n_componentz", "foo", "centrum", "_x"):
            yield ("unknown", kind, nm)
    for m in ("com", "cov", "corr", "continuum", "cos", "cok", "mdd", "mom", "var", "std", "skew", "kurt"):
        for e in ("arithmetic", "distance"):
            for cm in ("fast", "naive"):
                yield ("second", e, m, cm)
    # -- settings changed after construction are judged like constructor arguments
    for i, (kind, nm, vals) in enumerate(LATER):
        for v, ok in vals:
            yield ("later", i, v, ok)


NAME = (("mean", True), ("median", True), ("average", False), ("", False))
ETA = ((0.0, True), (0.5, True), (-0.1, False), (1.0, False), (2.0, False))
COUNT = ((1, True), (2, True), (0, False), (-1, False), (9, False))
LATER = [("sprm", "eta", ETA), ("snipls", "eta", ETA), ("sprm", "n_components", COUNT), ("ppdire", "n_components", COUNT), ("sudire", "n_components", COUNT),
         ("sprm", "fun", (("Hampel", True), ("Fair", True), ("Tukey", False))), ("rm", "fun", (("Huber", True), ("Fair", True), ("Tukey", False))),
         ("sprm", "probp1", ((0.9, True), (1.5, False), (-0.5, False))), ("sprm", "probp2", ((0.98, True), (0.1, False), (1.5, False))), ("rm", "probp3", ((0.9999, True), (0.5, False), (2.0, False))),
         ("sprm", "centre", NAME), ("rm", "centre", NAME), ("snipls", "centre", NAME), ("ppdire", "center", NAME), ("sudire", "center", NAME), ("scaler", "center", NAME), ("gss", "center", NAME),
         ("dicomo", "center", NAME), ("dicomo-distance", "center", NAME), ("dicomo", "mode", (("var", True), ("kurt", True), ("variance", False))), ("dicomo", "est", (("distance", True), ("dist", False))),
         ("sprm", "scale", (("std", True), ("sd_", False))), ("snipls", "scale", (("mad", True), ("sd_", False))), ("scaler", "scale", (("scaleTau2", True), ("sd_", False))),
         ("gss", "fun", (("ball", True), ("sphere_", False))), ("sudire", "sudiremeth", (("save", True), ("pca", False))), ("scaler", "trimming", ((0.1, True), (-0.1, False), (1.5, False))),
         ("ppdire", "trimming", ((0.1, True), (-0.1, False), (1.5, False))), ("capi", "max_degree", ((3, True), (5, False), (1, False)))]


V = lambda h=2: ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="var"), n_components=h, **GRID), {})
NEW = [("sprm", dict(n_components=2, eta=0.2, fun="Hampel", centre="median", scale="mad"), {}), ("sprm", dict(n_components=1, eta=0.9, fun="Fair", centre="mean", scale="None"), {}),
       ("snipls", dict(n_components=1, eta=0.9, centre="mean", scale="std"), {}), ("snipls", dict(n_components=2, eta=0.0, centre="mean", scale="None", copy=False), {}),
       ("rm", dict(fun="Huber"), {}), ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, square_pi=True, **GRID), {}), V(1), V(2),
       ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=1, square_pi=True, center_data=False, scale_data=False, **GRID), {}),
       ("sudire", dict(sudiremeth="sir", n_components=1, n_slices=3), {}), ("sudire", dict(sudiremeth="phd", n_components=2, scale_data=False), {}),
       ("sudire", dict(sudiremeth="save", n_components=1, n_slices=2, center_data=False, scale_data=False), {}),
       ("scaler", dict(center="mean", scale="std"), {}), ("scaler", dict(center="None", scale="None"), {}), ("scaler", dict(center="l1median", scale="None"), {}),
       ("gss", dict(center="median", fun="winsor"), {}), ("wrapper", {}, {})]
CALLS = {"snipls": ("predict", "transform"), "rm": ("predict",), "sprm": ("predict", "transform", "weightnewx"),
         "ppdire": ("predict", "transform"), "sudire": ("predict", "transform"), "scaler": ("transform", "predict", "inverse_transform"),
         "gss": ("transform",), "wrapper": ("transform", "predict")}


def tab(n, p, seed=3):
    X, y = data.regression(n, p, seed, noise=2.0)
    return X, y


def judge(ctx, sig, ok, fn, what=""):
    """ok True: must succeed with finite answers, False: must raise, None: not judged"""
    ctx.op(sig, lambda: None)
    try:
        r = fn()
        err = None
    except Exception as e:
        r, err = None, e
    if ok is None:
        return None
    if ok:
        if ctx.true(err is None, "refused:" + sig, "%s %r" % (what, err)) and r is not None:
            a = np.asarray(r, dtype=float)
            ctx.true(np.isfinite(a).all(), "nonfinite:" + sig, what)
            ctx.outcome(("accepted", a.shape, np.round(a, 4).tobytes()))
    else:
        ctx.true(err is not None, "accepted:" + sig, what)
        ctx.outcome(("refused", sig))
    return r


def yform(y, form):
    return {"flat": lambda: y, "column": lambda: y.reshape(-1, 1), "series": lambda: pd.Series(y), "colframe": lambda: pd.DataFrame({"a": y})}[form]()


def run(case, ctx):
    import direpack as d
    ctx.state(case)
    k = case[0]
    with stand.replaced(("minimize_ipopt",), c17.Stub()):
        if k == "prob":
            _, kind, fun, p1, p2, p3 = case
            ok = 0 < p1 <= 1 and (fun != "Hampel" or p1 < p2 < p3 <= 1)
            if ok and p1 <= 0.5:
                ok = None
            X, y = tab(8, 3)
            par = dict(fun=fun, probp1=p1, probp2=p2, probp3=p3)
            if kind == "sprm":
                par.update(n_components=1, eta=0.2)
            judge(ctx, "probabilities:%s:%s" % (kind, fun), ok, lambda: models.make((kind, par, {})).fit(X, y).coef_, case)
        elif k == "fun":
            _, kind, fun = case
            X, y = tab(8, 3)
            par = dict(fun=fun, **(dict(n_components=1, eta=0.2) if kind == "sprm" else {}))
            judge(ctx, "weight function:" + kind, fun in ("Hampel", "Huber", "Fair"), lambda: models.make((kind, par, {})).fit(X, y).coef_, case)
        elif k == "eta":
            _, eta, h = case
            X, y = tab(8, 3)
            judge(ctx, "sparsity:sprm", 0 <= eta < 1, lambda: d.sprm(n_components=h, eta=eta, verbose=False).fit(X, y).coef_, case)
        elif k == "comp":
            _, kind, n, p, h = case
            X, y = tab(n, p)
            hok = isinstance(h, int) and 1 <= h <= min(n, p)
            if kind == "sprm":
                # the robust start needs more cases than variables to be non degenerate: acceptance is judged for n > p only
                ok = hok if n > p else (None if hok else False)
                judge(ctx, "components:sprm", ok, lambda: d.sprm(n_components=h, eta=0.0, fun="Fair", verbose=False).fit(X, y).coef_, case)
            elif kind.startswith("ppdire"):
                op = GRID if kind != "ppdire-slsqp" else dict(optimizer="SLSQP", optimizer_options={"maxiter": 50})
                ok = hok if n > p else (None if hok else False)
                if kind == "ppdire-fit":
                    m = d.ppdire(projection_index=d.dicomo, pi_arguments=dict(mode="var"), n_components=1, verbose=False, **op)
                    f = lambda: m.fit(X, h=h).x_scores_
                else:
                    m = d.ppdire(projection_index=d.dicomo, pi_arguments=dict(mode="var"), n_components=h, verbose=False, **op)
                    f = lambda: m.fit(X).x_scores_
                r = judge(ctx, "components:" + kind, ok, f, case)
                if r is not None and ok:
                    ctx.same(np.shape(r), (n, h), "components-shape:" + kind)
            else:
                r = judge(ctx, "components:sudire", hok if n > p + 1 or not hok else None, lambda: d.sudire(sudiremeth="sir", n_slices=3, n_components=h, verbose=False).fit(X, y).x_scores_, case)
                if r is not None and hok:
                    ctx.same(np.shape(r), (n, h), "components-shape:sudire")
        elif k == "cases":
            _, kind, n, ny, form = case
            X, y = tab(n, 3)
            _, yy = tab(max(ny, 3), 3, 7)
            yy = yform(yy[:ny], form)
            ok = ny == n
            f = {"snipls": lambda: d.snipls(n_components=1, eta=0.2, verbose=False).fit(X, yy).coef_,
                 "sprm": lambda: d.sprm(n_components=1, eta=0.2, verbose=False).fit(X, yy).coef_,
                 "rm": lambda: d.rm(verbose=False).fit(X, yy).coef_,
                 "ppdire": lambda: d.ppdire(projection_index=d.dicomo, pi_arguments=dict(mode="cov"), verbose=False, **GRID).fit(X, yy).coef_,
                 "sudire": lambda: d.sudire(sudiremeth="sir", n_slices=2, n_components=1, verbose=False).fit(X, yy).x_scores_,
                 "dicomo": lambda: d.dicomo(mode="cov").fit(X[:, :1], y=yy), "dicomo-naive": lambda: d.dicomo(est="distance", mode="cov").fit(X[:, :1], y=yy, calcmode="naive"),
                 "mdd": lambda: d.dicomo(est="distance", mode="mdd").fit(X[:, :1], y=yy), "capi": lambda: d.capi(3, d.dicomo, scaling=False).fit(X[:, :1], yy),
                 "diffdiv": lambda: c17_du("difference_divergence")(X[:, :1], yy.reshape(-1, 1)), "MDDM": lambda: c17_du("MDDM")(X, yy.reshape(-1, 1))}[kind]
            judge(ctx, "cases:" + kind, ok, f, case)
        elif k == "newcols":
            _, i, dd, form = case
            mdl = NEW[i]
            kind = mdl[0]
            n, p = (14, 3) if kind == "sudire" else (9, 3)
            X, y = tab(n, p)
            one = kind in ("scaler", "gss", "wrapper") or mdl[1].get("pi_arguments", {}).get("mode") == "var"
            m = models.make(mdl)
            ctx.op("fit", lambda: m.fit(*((X,) if one else (X, y))))
            q = p + dd
            Xn, _ = tab(5, max(q, 1), 11)
            if form == "row":
                Xn = Xn[:1]
            elif form == "frame":
                Xn = pd.DataFrame(Xn)
            for c in CALLS[kind]:
                if one and c == "predict" and kind == "ppdire":
                    continue
                if kind == "gss" and form == "row":
                    continue
                # weights of a single new case are relative to itself
                judge(ctx, "new columns:%s:%s" % (kind, c), None if (c, form, dd) == ("weightnewx", "row", 0) else dd == 0, lambda: getattr(m, c)(Xn), case)
            if kind == "sprm" and form == "array":
                _, yn = tab(5, 3, 11)
                judge(ctx, "new columns:sprm:valscore", dd == 0, lambda: m.valscore(Xn, yn, "normal"), case)
        elif k == "center":
            _, kind, c = case
            f = {"ppdire": lambda: (d.ppdire(projection_index=d.dicomo, pi_arguments=dict(mode="var"), center=c, verbose=False), 0.0)[1],
                 "sudire": lambda: (d.sudire(sudiremeth="sir", center=c), 0.0)[1], "dicomo": lambda: (d.dicomo(mode="var", center=c), 0.0)[1]}[kind]
            judge(ctx, "centre name:" + kind, None if c in ("l1median", "kstepLTS") else c in ("mean", "median"), f, case)
        elif k == "names":
            _, kind, c, s = case
            X, y = tab(9, 3)
            ok = c in ("mean", "median", "l1median", "kstepLTS", "None") and s in ("mad", "std", "scaleTau2", "None")
            f = {"scaler": lambda: d.VersatileScaler(center=c, scale=s).fit_transform(X), "versatile_scale": lambda: d.versatile_scale(X, c, s),
                 "snipls": lambda: d.snipls(eta=0.2, n_components=1, centre=c, scale=s, verbose=False).fit(X, y).coef_,
                 "sprm": lambda: d.sprm(eta=0.2, n_components=1, centre=c, scale=s, verbose=False).fit(X, y).coef_,
                 "rm": lambda: d.rm(centre=c, scale=s, verbose=False).fit(X, y).coef_}[kind]
            if ok and kind in ("rm", "sprm") and c == "None":
                ok = None
            judge(ctx, "estimator name:" + kind, ok, f, case)
        elif k == "radial":
            _, kind, f = case
            X, y = tab(9, 3)
            ok = f in ("ss", "quad", "winsor", "ball", "shell", "linear_redescending")
            g = {"gss": lambda: d.GenSpatialSignPreProcessor(fun=f).fit_transform(X), "gen_ss_pp": lambda: d.gen_ss_pp(X, fun=f)}[kind]
            judge(ctx, "radial name:" + kind, ok, g, case)
        elif k == "method":
            m = case[1]
            X, y = tab(14, 3)
            ok = m in ("sir", "save", "dr", "phd", "iht", "dcov-sdr", "mdd-sdr")
            if m == "bcov-sdr":        # needs a package that is not installed
                ok = None
            judge(ctx, "reduction method", ok, lambda: d.sudire(sudiremeth=m, n_components=1, n_slices=3, verbose=False).fit(X, y).x_scores_, case)
        elif k == "mode":
            _, e, m = case
            ok = e in ("arithmetic", "distance") and m in ("mom", "var", "std", "skew", "kurt", "com", "cov", "cok", "cos", "corr", "continuum", "M3", "mdd") and (e, m) != ("arithmetic", "mdd")
            judge(ctx, "moment mode", ok, lambda: (d.dicomo(est=e, mode=m), 0.0)[1], case)
        elif k == "degree":
            X, y = tab(9, 3)
            judge(ctx, "degree", case[1] in (2, 3, 4), lambda: d.capi(case[1], d.dicomo, scaling=False).fit(X[:, :1], y.reshape(-1, 1)), case)
        elif k == "trim":
            X, y = tab(9, 3)
            t = case[1]
            for c, s in (("mean", "std"), ("median", "mad"), ("None", "None")):
                ok = 0 <= t < 1
                if ok and t > 0.6:
                    ok = None                      # nothing left to average
                judge(ctx, "trimming", ok, lambda: d.VersatileScaler(center=c, scale=s, trimming=t).fit_transform(X), case)
        elif k == "columns":
            _, kind, form, col = case
            X, y = tab(9, 3)
            XX = pd.DataFrame(X, columns=["a", "b", "c"]) if form == "frame" else X
            cc = ["a", "b", "c"] if col == "list" else col
            judge(ctx, "columns:" + kind, not (form == "array" and col is True),
                  lambda: models.make((kind, dict(n_components=1, eta=0.2, columns=cc), {})).fit(XX, y).coef_, case)
        elif k == "scoring":
            X, y = tab(9, 3)
            m = d.sprm(n_components=1, eta=0.2, verbose=False).fit(X, y)
            judge(ctx, "scoring flag", case[1] in ("weighted", "normal"), lambda: m.valscore(X, y, case[1]), case)
        elif k == "unknown":
            _, kind, nm = case
            m = {"ppdire": lambda: d.ppdire(projection_index=d.dicomo), "sudire": lambda: d.sudire(), "sprm": lambda: d.sprm(), "snipls": lambda: d.snipls(), "rm": lambda: d.rm(),
                 "capi": lambda: d.capi(2, d.dicomo), "dicomo": lambda: d.dicomo(), "scaler": lambda: d.VersatileScaler(), "gss": lambda: d.GenSpatialSignPreProcessor()}[kind]()
            before = sorted(vars(m))
            judge(ctx, "unknown setting:" + kind, False, lambda: m.set_params(**{nm: 1}), case)
            ctx.same(sorted(vars(m)), before, "unknown setting kept:" + kind)
        elif k == "later":
            _, i, v, ok = case
            kind, nm, _ = LATER[i]
            X, y = tab(14, 3)
            m = {"sprm": lambda: d.sprm(n_components=1, eta=0.2, verbose=False), "rm": lambda: d.rm(verbose=False), "snipls": lambda: d.snipls(n_components=1, eta=0.2, verbose=False),
                 "ppdire": lambda: d.ppdire(projection_index=d.dicomo, pi_arguments=dict(mode="cov"), verbose=False, **GRID),
                 "sudire": lambda: d.sudire(sudiremeth="sir", n_slices=3, n_components=1, verbose=False), "scaler": lambda: d.VersatileScaler(),
                 "gss": lambda: d.GenSpatialSignPreProcessor(), "dicomo": lambda: d.dicomo(mode="var"), "dicomo-distance": lambda: d.dicomo(est="distance", mode="var"),
                 "capi": lambda: d.capi(2, d.dicomo, scaling=False)}[kind]()

            def later():
                m.set_params(**{nm: v})
                if kind in ("scaler", "gss"):
                    return m.fit_transform(X)
                if kind.startswith("dicomo"):
                    return m.fit(X[:, :1])
                r = m.fit(X[:, :1] if kind == "capi" else X, y.reshape(-1, 1) if kind == "capi" else y)
                return r if kind == "capi" else r.predict(X)
            judge(ctx, "changed setting:%s:%s" % (kind, nm), ok, later, case)
        elif k == "second":
            _, e, m, cm = case
            if (e, m) == ("arithmetic", "mdd"):
                return
            X, y = tab(9, 3)
            two = m in ("com", "cov", "corr", "continuum", "cos", "cok", "mdd")
            judge(ctx, "second variable", False if two else True, lambda: d.dicomo(est=e, mode=m).fit(X[:, :1], calcmode=cm), case)


def c17_du(name):
    return getattr(importlib.import_module("direpack.dicomo._dicomo_utils"), name)
