"""C21 estimators behave as scikit-learn components."""
import copy
import itertools
import pickle
import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.pipeline import Pipeline, make_pipeline
from sklearn.model_selection import GridSearchCV, KFold, cross_val_predict, cross_val_score
from sklearn.metrics import make_scorer, mean_squared_error
from sklearn.preprocessing import StandardScaler
from lib import data, models, stand, core, ref
from checks import c17
import importlib
import direpack
from direpack import dicomo, capi
CV = importlib.import_module("direpack.cross_validation._cv_support_functions")

PID = "C21"
RULE = """Every estimator configuration x composition: clone (of fresh and fitted objects, twice), get/set of every parameter one by
one and all pairs, pickling in every protocol, pipelines of every sequence of up to two preprocessing/reduction steps followed by every
estimator (compared with driving the steps by hand, for training and new data), nested parameter setting, grid searches over parameter
grids and folds (every candidate x fold score recomputed by hand, ranking, refitted best model, score table), cross validated
predictions and scores, robust scorer."""
ASSUMPTIONS = ["the compositions of the installed scikit-learn version"]


def BOUNDS(tier):
    return {"estimator configurations": len(MODELS), "pipeline length": 3, "folds": "2, 3", "tier": tier}


GR = dict(optimizer="grid", optimizer_options={"ndir": 12, "maxiter": 4})
MODELS = [m for m in c17.MODELS if not m[1].get("whiten_data")]
FINAL = [("snipls", dict(eta=0.3, n_components=2, centre="mean", scale="std"), {}), ("sprm", dict(eta=0.2, n_components=1, fun="Hampel"), {}), ("rm", dict(fun="Huber"), {}),
         ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=1, square_pi=True, **GR), {}),
         ("sudire", dict(sudiremeth="sir", n_components=1, n_slices=3), {}), ("scaler", dict(center="mean", scale="std"), {}), ("gss", dict(center="median", fun="winsor"), {})]
STEPS = [("scaler", dict(center="median", scale="mad"), {}), ("scaler", dict(center="None", scale="std"), {}), ("gss", dict(center="mean", fun="ball"), {}), ("wrapper", {}, {}),
         ("std",), ("snipls", dict(eta=0.0, n_components=2, centre="mean", scale="None"), {}), ("sprm", dict(eta=0.0, n_components=2, fun="Fair"), {}),
         ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="var"), n_components=2, **GR), {}), ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, square_pi=True, **GR), {}),
         ("sudire", dict(sudiremeth="phd", n_components=2), {}), ("sudire", dict(sudiremeth="save", n_components=2, n_slices=2, scale_data=False), {})]
GRIDS = [("sprm", dict(fun="Hampel"), dict(n_components=[1, 2], eta=[0.0, 0.4, 0.8])), ("sprm", dict(eta=0.3, n_components=1), dict(fun=["Fair", "Huber", "Hampel"], probp1=[0.9, 0.95])),
         ("snipls", dict(centre="mean"), dict(n_components=[1, 2], eta=[0.7, 0.1])), ("snipls", dict(eta=0.2, n_components=1), dict(centre=["mean", "median", "None"], scale=["None", "std"])),
         ("rm", {}, dict(fun=["Hampel", "Fair"], probp1=[0.8, 0.95])), ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), square_pi=True, **GR), dict(n_components=[2, 1], scale_data=[True, False])),
         ("ppdire", dict(pi="dicomo", square_pi=True, **GR), dict(pi_arguments=[dict(mode="cov"), dict(mode="corr")], regopt=["OLS", "robust"])),
         ("sudire", dict(sudiremeth="sir", n_components=1), dict(n_slices=[2, 3], scale_data=[True, False])), ("sudire", dict(n_components=1), dict(sudiremeth=["phd", "save"], n_components=[1, 2]))]


def cases(tier):
    q = tier == "quick"
    for i, m in enumerate(MODELS):
        for first in ("fresh", "fitted"):
            yield ("clone", i, first)
        keys = sorted(m[1]) + sorted(m[2])
        for k in sorted(set(m[2])):
            yield ("set", i, (k,))
        for k in itertools.combinations(sorted(set(m[2])), 2):
            yield ("set", i, k)
        for pr in range(2, pickle.HIGHEST_PROTOCOL + 1):
            yield ("pickle", i, pr)
        yield ("params", i)
        yield ("values", i)
    for k in range(2):
        for v in itertools.permutations(range(4)):
            yield ("table", k, v)
    for e in itertools.permutations((0.0, 0.4, 0.8)):
        for c in itertools.permutations((1, 2)):
            yield ("table", "search", (e, c))
    for r in (0, 1, 2) if q else (0, 1, 2, 3):
        for st in itertools.permutations(range(len(STEPS)), r):
            if q and r == 2 and (st[0] > 4) and (st[1] > 4):
                continue
            if r == 3 and (st[0] > 4 or st[1] > 4):
                continue
            for f in range(len(FINAL)):
                for frame in (False, True) if r < 2 or not q else (False,):
                    yield ("pipe", st, f, frame)
    for st in range(len(STEPS)):
        if len(STEPS[st]) == 3 and STEPS[st][1]:
            for f in range(len(FINAL)):
                yield ("nested", st, f)
    for g in range(len(GRIDS)):
        for k in (2, 3):
            for sc in ("default", "mse", "robust"):
                for pre in (False, True):
                    yield ("grid", g, k, sc, pre)
    for f in range(len(FINAL)):
        for k in (2, 3):
            if FINAL[f][0] not in ("scaler", "gss"):
                yield ("cv", f, k)


def one(mdl):
    return mdl[0] in ("scaler", "gss", "wrapper", "std") or (mdl[0] == "ppdire" and mdl[1].get("pi_arguments", {}).get("mode") in ("var", "kurt"))


def make(mdl):
    return StandardScaler() if mdl[0] == "std" else c17.make(mdl[0], copy.deepcopy(mdl[1])) if mdl[0] in ("dicomo", "capi") else models.make((mdl[0], copy.deepcopy(mdl[1]), {}))


def tables(n=15):
    X, y = data.regression(n, 3, 4, noise=2.0)
    y[3] += 9.0
    Xn, yn = data.regression(7, 3, 5, noise=2.0)
    return X, y, Xn, yn


def same_value(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same_value(x, z) for x, z in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a is b or (type(a) == type(b) and a == b)


def params(m):
    return m.get_params(deep=False)


def obs(m, mdl, X, y, Xn):
    kind = mdl[0]
    if kind in ("dicomo", "capi"):
        r = m.fit(X[:, :1], y=y.reshape(-1, 1))
        return {"moment": np.array(r, dtype=float)}
    m.fit(*((X,) if one(mdl) else (X, y)))
    o = {k: v for k, v in models.observe(m, (kind, mdl[1], {})).items() if v.dtype.kind == "f"}
    o.update(answers(m, mdl, Xn))
    return o


def answers(m, mdl, Xn):
    o = {}
    if mdl[0] in ("snipls", "sprm", "sudire", "scaler", "gss", "wrapper", "ppdire"):
        o["transform"] = np.array(m.transform(Xn), dtype=float)
    if mdl[0] in ("snipls", "rm", "sprm", "sudire") or (mdl[0] == "ppdire" and not one(mdl)):
        o["predict"] = np.array(m.predict(Xn), dtype=float)
    return o


def compare(ctx, got, exp, sig, rt=1e-9):
    ctx.same(sorted(got), sorted(exp), sig + ":quantities")
    for k in exp:
        if k in got:
            ctx.eq(got[k], exp[k], "%s:%s" % (sig, k), rtol=rt, atol=rt * (1 + (np.nanmax(np.abs(exp[k])) if np.size(exp[k]) else 0)))
    ctx.outcome(tuple(np.round(v, 5).tobytes() for v in exp.values()))


def run(case, ctx):
    ctx.state(case)
    with stand.replaced(("minimize_ipopt",), c17.Stub()):
        return globals()["run_" + case[0]](case, ctx)


def run_clone(case, ctx):
    _, i, first = case
    mdl = MODELS[i]
    X, y, Xn, yn = tables()
    exp = obs(make(mdl), mdl, X, y, Xn)
    m = make(mdl)
    if first == "fitted":
        ctx.op("fit", obs, m, mdl, Xn, yn, X)
    before = params(m)
    c = ctx.op("clone", clone, m)
    cc = ctx.op("clone", clone, c)
    for o in (c, cc):
        ctx.true(type(o) is type(m), "clone-type:" + mdl[0])
        p = params(o)
        for k in before:
            ctx.true(k in p and same_value(p[k], before[k]), "clone-setting:%s:%s" % (mdl[0], k), (before[k], p.get(k)))
        compare(ctx, ctx.op("fit", obs, o, mdl, X, y, Xn), exp, "clone-fit:" + mdl[0])
    got = ctx.op("fit", obs, m, mdl, X, y, Xn)
    compare(ctx, {k: v for k, v in got.items() if k in exp}, exp, "cloned-from:" + mdl[0])


def run_params(case, ctx):
    _, i = case
    mdl = MODELS[i]
    m = make(mdl)
    p = ctx.op("get_params", params, m)
    for k, v in mdl[1].items():
        if k == "pi":
            continue
        ctx.true(k in p and same_value(p[k], v), "constructor-setting:%s:%s" % (mdl[0], k), (v, p.get(k)))
    import inspect
    names = [a for a in inspect.signature(type(m).__init__).parameters if a not in ("self", "kwargs", "args")]
    ctx.same(sorted(p), sorted(names), "parameter-names:" + mdl[0])
    for k in names:
        ctx.true(same_value(getattr(m, k, None), p.get(k)), "attribute:%s:%s" % (mdl[0], k))
    ctx.op("repr", repr, m)
    ctx.op("deep", lambda: m.get_params(deep=True))


def run_set(case, ctx):
    _, i, keys = case
    mdl = MODELS[i]
    X, y, Xn, yn = tables()
    alt = {k: mdl[2][k] for k in keys}
    merged = (mdl[0], {**mdl[1], **alt})
    if merged[1].get("columns") is True:
        X, Xn = pd.DataFrame(X, columns=list("abc")), pd.DataFrame(Xn, columns=list("abc"))
    m = make(mdl)
    base = params(m)
    r = ctx.op("set", lambda: m.set_params(**copy.deepcopy(alt)))
    ctx.true(r is m, "set-returns-self:" + mdl[0])
    now = params(m)
    for k in base:
        ctx.true(same_value(now.get(k), alt.get(k, base[k])), "setting:%s:%s" % (mdl[0], k), (now.get(k), alt.get(k, base[k])))
    try:
        exp = obs(make(merged), merged, X, y, Xn)
    except Exception:
        ctx.skip("combination not accepted")
        return
    compare(ctx, ctx.op("fit", obs, m, merged, X, y, Xn), exp, "set-fit:" + mdl[0])
    compare(ctx, ctx.op("fit", obs, clone(m), merged, X, y, Xn), exp, "set-clone-fit:" + mdl[0])


EMPTY = [None, False, True, 0, 0.0, 1, "", "x", (), [], {}, [0], {"a": 0}, np.array([0.0, 1.0])]


def run_values(case, ctx):
    """every parameter takes every value of a menu, empty ones included, and back; the others stay as they were"""
    _, i = case
    mdl = MODELS[i]
    m = make(mdl)
    base = params(m)
    for k in sorted(base):
        for v in EMPTY + [base[k]]:
            r = ctx.op("set", lambda: m.set_params(**{k: v}))
            ctx.true(r is m, "set-returns-self:" + mdl[0])
            now = params(m)
            for j in base:
                want = v if j == k else base[j]
                ctx.true(same_value(now.get(j), want) and same_value(getattr(m, j, None), want), "value-set:%s:%s" % (mdl[0], k), (j, now.get(j), want))
            ctx.outcome((mdl[0], k, str(v)))


SEARCH = {}


def run_table(case, ctx):
    """the score table of a search whose candidates come in every order"""
    _, k, v = case
    X, y, _, _ = tables(16)
    if k == "search":
        gs = GridSearchCV(direpack.sprm(verbose=False), dict(eta=list(v[0]), n_components=list(v[1])), cv=KFold(2), error_score="raise")
        ctx.op("search", lambda: gs.fit(X, y))
        R = gs.cv_results_
    else:
        if k not in SEARCH:
            grid = [dict(eta=[0.0, 0.6], n_components=[1, 2]), [dict(eta=[0.3], n_components=[2, 1, 3]), dict(eta=[0.7], n_components=[2])]][k]
            SEARCH[k] = GridSearchCV(direpack.sprm(verbose=False), grid, cv=KFold(2), error_score="raise").fit(X, y)
        gs = copy.copy(SEARCH[k])
        idx = list(v)
        R = {a: ([b[j] for j in idx] if isinstance(b, list) else b[idx]) for a, b in gs.cv_results_.items()}
        gs.cv_results_ = R
        gs.best_index_ = idx.index(gs.best_index_)
    t = ctx.op("table", CV.cv_score_table, gs)
    got = sorted((float(r["etas"]), float(r["n_components"]), float(r["score"])) for _, r in t.iterrows())
    exp = sorted((float(q["eta"]), float(q["n_components"]), float(s)) for q, s in zip(R["params"], R["mean_test_score"]))
    ctx.same(len(got), len(exp), "table-length")
    ctx.eq(np.array(got), np.array(exp), "table-rows", rtol=1e-12, atol=0)
    ctx.outcome(np.round(np.array(exp), 6))


def run_pickle(case, ctx):
    _, i, pr = case
    mdl = MODELS[i]
    X, y, Xn, yn = tables()
    m = make(mdl)
    m2 = ctx.op("pickle", lambda: pickle.loads(pickle.dumps(m, pr)))
    exp = obs(m, mdl, X, y, Xn)
    compare(ctx, ctx.op("fit", obs, m2, mdl, X, y, Xn), exp, "pickled-fresh:" + mdl[0])
    m3 = ctx.op("pickle", lambda: pickle.loads(pickle.dumps(m, pr)))
    if mdl[0] not in ("dicomo", "capi"):
        o = {k: v for k, v in models.observe(m3, (mdl[0], mdl[1], {})).items() if v.dtype.kind == "f"}
        o.update(answers(m3, mdl, Xn))
        o = {k: v for k, v in o.items() if k in exp}
        compare(ctx, o, exp, "pickled-fitted:" + mdl[0], 1e-12)
    p, p3 = params(m), params(m3)
    for k in p:
        ctx.true(same_value(p[k], p3.get(k)), "pickled-setting:%s:%s" % (mdl[0], k))


def drive(steps, X, y, Xn):
    """the chain by hand"""
    A, An = X, Xn
    for mdl in steps[:-1]:
        m = make(mdl)
        m.fit(*((A,) if one(mdl) else (A, y)))
        A, An = np.asarray(m.transform(A), float), np.asarray(m.transform(An), float)
    m = make(steps[-1])
    m.fit(*((A,) if one(steps[-1]) else (A, y)))
    return answers(m, steps[-1], An), answers(m, steps[-1], A)


def run_pipe(case, ctx):
    _, st, f, frame = case
    steps = [STEPS[s] for s in st] + [FINAL[f]]
    X, y, Xn, yn = tables()
    if frame:
        X, Xn, y = pd.DataFrame(X, columns=list("abc")), pd.DataFrame(Xn, columns=list("abc")), pd.Series(y)
    try:
        new, old = drive(steps, np.asarray(X), np.asarray(y), np.asarray(Xn))
        bad = not all(np.isfinite(v).all() for v in new.values())
    except Exception:
        bad = True
    if bad:
        ctx.skip("chain not applicable")
        return
    P = Pipeline([("s%d" % i, make(m)) for i, m in enumerate(steps)])
    ctx.op("fit", lambda: P.fit(X, y))
    for meth in new:
        ctx.eq(np.array(ctx.op(meth, lambda: getattr(P, meth)(Xn)), float), new[meth], "pipeline-new:%s" % steps[-1][0], rtol=1e-8, atol=1e-9 * (1 + np.abs(new[meth]).max()))
        ctx.eq(np.array(ctx.op(meth, lambda: getattr(P, meth)(X)), float), old[meth], "pipeline-train:%s" % steps[-1][0], rtol=1e-8, atol=1e-9 * (1 + np.abs(old[meth]).max()))
        if meth == "transform":
            P2 = clone(P)
            ft = np.array(ctx.op("fit_transform", lambda: P2.fit_transform(X, y)), float)
            ctx.eq(ft, old[meth], "pipeline-fit_transform:%s" % steps[-1][0], rtol=1e-6, atol=1e-7 * (1 + np.abs(old[meth]).max()))
    ctx.outcome(np.round(list(new.values())[0], 5))


ALT = {"center": "mean", "scale": "std", "fun": "ss", "eta": 0.1, "n_components": 1, "centre": "median", "sudiremeth": "sir", "n_slices": 4, "scale_data": False}


def run_nested(case, ctx):
    _, s, f = case
    X, y, Xn, yn = tables()
    a = STEPS[s]
    for k in a[1]:
        if k not in ALT:
            continue
        v = "Huber" if (k == "fun" and a[0] == "sprm") else ALT[k]
        changed = (a[0], {**a[1], k: v}, {})
        P = Pipeline([("s", make(a)), ("m", make(FINAL[f]))])
        ctx.op("set", lambda: P.set_params(**{"s__" + k: v}))
        ctx.true(same_value(P.get_params()["s__" + k], v), "nested-setting:%s:%s" % (a[0], k))
        try:
            new, _ = drive([changed, FINAL[f]], X, y, Xn)
        except Exception:
            ctx.skip("chain not applicable")
            continue
        P = clone(P)
        ctx.op("fit", lambda: P.fit(X, y))
        for meth in new:
            ctx.eq(np.array(getattr(P, meth)(Xn), float), new[meth], "nested-fit:%s:%s" % (a[0], k), rtol=1e-8, atol=1e-9 * (1 + np.abs(new[meth]).max()))


def hand_score(sc, m, X, y):
    if sc == "default":
        return None
    p = np.asarray(m.predict(X), float).ravel()
    r = np.abs(y - p)
    if sc == "mse":
        return -np.mean((y - p) ** 2)
    from scipy.stats import norm
    w = ref.weight("Hampel", r, norm.ppf(0.975), norm.ppf(0.99), norm.ppf(0.999)) if hasattr(ref, "weight") else hampel(r)
    return -np.sum(w * (y - p) ** 2) / np.sum(w)


def hampel(r):
    from scipy.stats import norm
    a, b, c = norm.ppf(0.975), norm.ppf(0.99), norm.ppf(0.999)
    w = np.ones_like(r)
    for i, v in enumerate(r):
        w[i] = 1.0 if v <= a else a / v if v <= b else a * (c - v) / ((c - b) * v) if v <= c else 0.0
    return w


def r2(y, p):
    y, p = np.asarray(y, float).ravel(), np.asarray(p, float).ravel()
    return 1 - np.sum((y - p) ** 2) / np.sum((y - y.mean()) ** 2)


def run_grid(case, ctx):
    _, g, k, sc, pre = case
    kind, par, grid = GRIDS[g]
    X, y, Xn, yn = tables(16)
    if sc == "robust":
        X, y = X / 8, y / 8
    m = make((kind, par))
    cv = KFold(k)
    scoring = {"default": None, "mse": make_scorer(mean_squared_error, greater_is_better=False), "robust": make_scorer(direpack.robust_loss, greater_is_better=False)}[sc]
    if sc == "default" and not hasattr(m, "score"):
        ctx.skip("estimator has no default score")
        return
    est, gr = m, grid
    if pre:
        est = Pipeline([("sc", direpack.VersatileScaler(center="mean", scale="std")), ("m", m)])
        gr = {"m__" + a: b for a, b in grid.items()}
    gs = GridSearchCV(est, copy.deepcopy(gr), cv=cv, scoring=scoring, error_score="raise")
    # by hand
    cand = list(gs.param_grid) and [dict(zip(sorted(grid), v)) for v in itertools.product(*(grid[a] for a in sorted(grid)))]
    exp = []
    try:
        for c in cand:
            row = []
            for tr, te in cv.split(X):
                A, B = X[tr], X[te]
                if pre:
                    vs = direpack.VersatileScaler(center="mean", scale="std").fit(A)
                    A, B = vs.transform(A), vs.transform(B)
                h = make((kind, {**par, **c}))
                h.fit(A, y[tr])
                p = h.predict(B)
                row.append(r2(y[te], p) if sc == "default" else hand_score(sc, h, B, y[te]))
            exp.append(row)
    except Exception:
        ctx.skip("candidate not applicable")
        return
    exp = np.array(exp, float)
    if not np.isfinite(exp).all():
        ctx.skip("undefined score")
        return
    ctx.op("search", lambda: gs.fit(X, y))
    got = [dict((a.replace("m__", ""), b) for a, b in q.items()) for q in gs.cv_results_["params"]]
    ctx.same(len(got), len(cand), "grid-candidates:" + kind)
    for i, c in enumerate(cand):
        j = [t for t, q in enumerate(got) if same_value(q, c)]
        if not ctx.true(len(j) == 1, "grid-candidate:" + kind, c):
            continue
        for s in range(k):
            ctx.eq(gs.cv_results_["split%d_test_score" % s][j[0]], exp[i, s], "grid-score:%s:%s" % (kind, sc), rtol=1e-7, atol=1e-9)
    mean = exp.mean(axis=1)
    order = np.sort(mean)
    if len(order) < 2 or order[-1] - order[-2] > 1e-9 * (1 + abs(order[-1])):
        best = cand[int(np.argmax(mean))]
        ctx.true(same_value({a.replace("m__", ""): b for a, b in gs.best_params_.items()}, best), "grid-best:" + kind, (gs.best_params_, best))
        h = make((kind, {**par, **best}))
        A, B = X, Xn
        if pre:
            vs = direpack.VersatileScaler(center="mean", scale="std").fit(X)
            A, B = vs.transform(X), vs.transform(Xn)
        h.fit(A, y)
        e = np.asarray(h.predict(B), float).ravel()
        ctx.eq(np.asarray(gs.predict(Xn), float).ravel(), e, "grid-refit:" + kind, rtol=1e-7, atol=1e-9 * (1 + np.abs(e).max()))
    if not pre and sorted(grid) == ["eta", "n_components"]:
        t = ctx.op("table", CV.cv_score_table, gs)
        ctx.same(list(t.columns), ["etas", "n_components", "score"], "table-columns")
        ctx.same(len(t), len(cand), "table-length")
        for _, r in t.iterrows():
            i = [a for a, c in enumerate(cand) if c["eta"] == r["etas"] and c["n_components"] == r["n_components"]]
            if ctx.true(len(i) == 1, "table-row", dict(r)):
                ctx.eq(r["score"], mean[i[0]], "table-score", rtol=1e-7, atol=1e-9)
    ctx.outcome(np.round(mean, 6))


def run_cv(case, ctx):
    _, f, k = case
    mdl = FINAL[f]
    X, y, Xn, yn = tables(16)
    cv = KFold(k)
    exp = np.zeros(len(y))
    for tr, te in cv.split(X):
        h = make(mdl)
        h.fit(X[tr], y[tr])
        exp[te] = np.asarray(h.predict(X[te]), float).ravel()
    got = np.asarray(ctx.op("cross_val_predict", cross_val_predict, make(mdl), X, y, cv=cv), float).ravel()
    ctx.eq(got, exp, "cross-predict:" + mdl[0], rtol=1e-8, atol=1e-9 * (1 + np.abs(exp).max()))
    if hasattr(make(mdl), "score"):
        s = ctx.op("cross_val_score", cross_val_score, make(mdl), X, y, cv=cv)
        ctx.eq(s, [r2(y[te], exp[te]) for tr, te in cv.split(X)], "cross-score:" + mdl[0], rtol=1e-7, atol=1e-9)
    ctx.outcome(np.round(exp, 5))
