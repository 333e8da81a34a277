"""C19 results do not depend on container, dtype or memory layout."""
import copy
import numpy as np
import pandas as pd
from lib import data, models, stand, core, entry
from checks import c17

PID = "C19"
RULE = """Every estimator configuration x container of the predictors x container of the response x container of the new data
(arrays C/Fortran/strided/reversed/integer/object/float32-exact, frames with default, labelled and shuffled labels and mixed
dtypes, series, one-column frames, column arrays); all fitted quantities and answers are compared with the plain array
run.  Every function and every moment statistic x container."""
ASSUMPTIONS = ["values are exactly representable in every dtype used (integers or dyadic fractions)",
               "combinations a table in the check lists as not supported are refused on purpose and not compared"]
XC = ("F", "strided", "reversed", "int", "object", "frame", "frame-labels", "frame-shuffled", "frame-int", "frame-object", "frame-F", "int32", "frame-int16", "readonly", "frame-nullable", "frame-nullint", "float32", "frame-float32")
YC = ("array", "column", "series", "series-labels", "series-shuffled", "colframe", "int", "object", "strided", "series-object", "int32", "series-int16", "readonly", "series-nullable", "float32")


def BOUNDS(tier):
    return {"predictor containers": len(XC) + 1, "response containers": len(YC), "models": len(MODELS), "tier": tier}


MODELS = [m for m in c17.MODELS if m[0] not in ("dicomo", "capi") and not m[1].get("whiten_data")] + [
    ("sudire", dict(sudiremeth="sir", n_components=1, n_slices=3, center_data=False, scale_data=False), {}),
    ("sudire", dict(sudiremeth="save", n_components=2, n_slices=2, center_data=False, scale_data=True), {}),
    ("sudire", dict(sudiremeth="phd", n_components=1, center_data=False, scale_data=False), {}),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, square_pi=True, center_data=False, scale_data=False, optimizer="grid", optimizer_options={"ndir": 12, "maxiter": 4}), {}),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, square_pi=True, regopt="robust", optimizer="grid", optimizer_options={"ndir": 12, "maxiter": 4}), {}),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, square_pi=True, regopt="quantile", optimizer="SLSQP", optimizer_options={"maxiter": 100}), {}),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(est="distance", mode="cov"), n_components=1, optimizer="grid", optimizer_options={"ndir": 12, "maxiter": 4}), {}),
    ("snipls", dict(eta=0.2, n_components=2, centre="None", scale="None"), {}),
    ("sprm", dict(fun="Hampel", centre="kstepLTS", scale="scaleTau2", n_components=2, eta=0.2), {}),
    ("scaler", dict(center="kstepLTS", scale="scaleTau2"), {}), ("gss", dict(center="median", fun="winsor"), {}),
]


def cases(tier):
    q = tier == "quick"
    for i, m in enumerate(MODELS):
        one = oneblock(m)
        for xc in ("array",) + XC:
            for yc in ("array",) if one else YC:
                if q and xc not in ("array", "frame", "frame-labels", "int") and yc not in ("array", "series", "colframe"):
                    continue
                for nc in ("same",):
                    yield ("model", i, xc, yc, nc)
        for nc in ("array",) + XC:
            yield ("model", i, "array", "array", nc)
            yield ("model", i, "frame-labels", "array" if one else "series-labels", nc)
    for i, m in enumerate(MODELS):        # values that no narrower type can hold
        one = oneblock(m)
        for xc, yc, nc in (("object", "array", "same"), ("array", "object", "object"), ("frame-object", "series-object", "frame-object"), ("frame-nullable", "series-nullable", "frame-nullable"), ("frame-labels", "colframe", "strided"), ("strided", "strided", "frame"), ("F", "column", "object"), ("reversed", "series-shuffled", "frame-shuffled")):
            yield ("model", i, xc, "array" if one else yc, nc, 3)
    for f in entry.FUN:
        for c in XC:
            yield ("func", f, c)
    for f in entry.ARR:
        for c in ("F", "strided", "reversed", "int", "readonly"):
            yield ("func", f, c)
    for a in entry.DIC:
        for xc in ("array", "F", "strided", "int", "frame", "frame-labels", "flat", "readonly"):
            for yc in YC:
                yield ("dicomo", a, xc, yc)


def oneblock(m):
    return m[0] in ("scaler", "gss", "wrapper") or (m[0] == "ppdire" and m[1]["pi_arguments"].get("mode") in ("var", "kurt"))


def cx(X, c):
    n, p = X.shape
    names = ["v%d" % j for j in range(p)]
    if c == "array":
        return X.copy()
    if c == "F":
        return np.asfortranarray(X)
    if c == "strided":
        big = np.full((2 * n, 3 * p), 9.0)
        big[::2, 1::3] = X
        return big[::2, 1::3]
    if c == "reversed":
        return X[::-1].copy()[::-1]
    if c == "int":
        return X.astype(int)
    if c == "int32":
        return X.astype("int32")
    if c == "readonly":
        X = X.copy()
        X.flags.writeable = False
        return X
    if c == "float32":          # the values are exactly representable
        return X.astype("float32")
    if c in ("frame-nullable", "frame-nullint", "frame-float32"):
        return pd.DataFrame(X, columns=names).astype({"frame-nullable": "Float64", "frame-nullint": "Int64", "frame-float32": "float32"}[c])
    if c == "frame-int16":
        return pd.DataFrame(X.astype("int16"), columns=names)
    if c == "object":
        return X.astype(object)
    if c == "flat":
        return X[:, 0].copy()
    if c == "frame":
        return pd.DataFrame(X.copy())
    if c == "frame-labels":
        return pd.DataFrame(X.copy(), columns=names, index=["r%d" % i for i in range(n)])
    if c == "frame-shuffled":
        return pd.DataFrame(X.copy(), columns=list(range(p))[::-1], index=[(i * 35 + 3) % 97 for i in range(n)])
    if c == "frame-int":
        return pd.DataFrame(X.astype(int), columns=names)
    if c == "frame-object":
        return pd.DataFrame(X.astype(object), columns=names)
    if c == "frame-F":
        return pd.DataFrame({nm: (X[:, j] if j % 2 else X[:, j].astype(int)) for j, nm in enumerate(names)})
    raise KeyError(c)


def cy(y, c):
    n = len(y)
    return {"array": lambda: y.copy(), "column": lambda: y.reshape(-1, 1).copy(), "series": lambda: pd.Series(y.copy()),
            "series-labels": lambda: pd.Series(y.copy(), index=["r%d" % i for i in range(n)], name="resp"),
            "series-shuffled": lambda: pd.Series(y.copy(), index=[(i * 37 + 2) % 101 for i in range(n)]),
            "colframe": lambda: pd.DataFrame({"resp": y}, index=["q%d" % i for i in range(n)]), "int": lambda: y.astype(int), "object": lambda: y.astype(object),
            "strided": lambda: np.repeat(y, 3)[1::3], "int32": lambda: y.astype("int32"), "series-int16": lambda: pd.Series(y.astype("int16")),
            "readonly": lambda: frozen(y), "series-nullable": lambda: pd.Series(y).astype("Float64"), "float32": lambda: y.astype("float32"),
            "series-object": lambda: pd.Series(y.astype(object))}[c]()


def frozen(y):
    y = y.copy()
    y.flags.writeable = False
    return y


def table(kind, seed, n=None):
    n = n or (14 if kind == "sudire" else 9)
    X, y = data.regression(n, 3, seed, noise=2.0)
    return np.round(X * 16), np.round(y * 16)


BASE = {}


def answers(m, kind, Xn, one):
    calls = {"snipls": ("predict", "transform"), "rm": ("predict",), "sprm": ("predict", "transform", "weightnewx"), "ppdire": ("transform",) if one else ("predict", "transform"),
             "sudire": ("predict", "transform"), "scaler": ("transform", "predict", "inverse_transform"), "gss": ("transform",), "wrapper": ("transform", "predict")}[kind]
    return {f: np.array(getattr(m, f)(Xn), dtype=float) for f in calls}


def fitrun(i, X, y, Xn):
    kind, par, _ = MODELS[i]
    one = oneblock(MODELS[i])
    m = models.make((kind, copy.deepcopy(par), {}))
    with stand.replaced(("minimize_ipopt",), c17.Stub()):
        m.fit(*((X,) if one else (X, y)))
        o = models.observe(m, (kind, par, {}))
        return o, answers(m, kind, Xn, one)


def run(case, ctx):
    ctx.state(case)
    if case[0] == "model":
        i, xc, yc, nc = case[1:5]
        div = case[5] if len(case) > 5 else 1
        kind = MODELS[i][0]
        X, y = table(kind, 5)
        Xn, _ = table(kind, 6, 6)
        X, y, Xn = X / div, y / div, Xn / div
        if (i, div) not in BASE:
            BASE[i, div] = fitrun(i, X, y, Xn)
        ref, rans = BASE[i, div]
        got, gans = ctx.op("fit %s %s %s" % (xc, yc, nc), fitrun, i, cx(X, xc), cy(y, yc), cx(Xn, xc if nc == "same" else nc))
        it = MODELS[i][1].get("optimizer") == "SLSQP"        # iterative solver: rounding is amplified
        rt, at = (1e-4, 1e-4) if it else (1e-8, 1e-9)
        for a in ref:
            if not ctx.true(a in got, "missing:%s:%s" % (kind, a), sorted(got)):
                continue
            if ref[a].dtype.kind == "f":
                g = np.asarray(got[a], dtype=float)
                ctx.eq(g.ravel(), ref[a].ravel(), "container:%s:%s" % (kind, a), rtol=rt, atol=at * (1 + np.nanmax(np.abs(ref[a])) if ref[a].size else 1))
            else:
                ctx.same(np.asarray(got[a]).ravel().tolist(), ref[a].ravel().tolist(), "container:%s:%s" % (kind, a))
        for f in rans:
            ctx.eq(gans[f], rans[f], "answer:%s:%s" % (kind, f), rtol=rt, atol=at * (1 + np.abs(rans[f]).max()))
        ctx.outcome(np.round(rans[f], 5))
    elif case[0] == "func":
        _, f, c = case
        fn = {**entry.FUN, **entry.ARR}[f]
        X, y = table("sudire", 5)
        ref = np.asarray(fn(X, y), dtype=float)
        got = np.asarray(ctx.op(f, fn, cx(X, c), y), dtype=float)
        ctx.eq(got.ravel(), ref.ravel(), "function:" + f, rtol=1e-8, atol=1e-9 * (1 + np.abs(ref).max()))
        ctx.outcome(np.round(ref, 5))
    else:
        _, a, xc, yc = case
        X, y = table("rm", 5)
        X = X[:, :1]
        ref = float(np.squeeze(dic(X.copy(), y.reshape(-1, 1).copy(), *a)))
        got = float(np.squeeze(ctx.op("dicomo %s" % (a,), dic, cx(X, xc), cy(y, yc), *a)))
        ctx.eq(got, ref, "dicomo:%s:%s" % a[:2], rtol=1e-8, atol=1e-12)
        ctx.outcome(round(ref, 6))


def dic(X, y, est, mode, center, order, bc, calc):
    import direpack
    return direpack.dicomo(est=est, mode=mode, center=center).fit(X, y=y, order=order, biascorr=bc, calcmode=calc, option=1)
