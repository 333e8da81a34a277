"""C18 inputs are never modified."""
import copy
import itertools
import numpy as np
import pandas as pd
from lib import data, models, stand, core, entry
from checks import c17
import direpack
from direpack import dicomo, capi, ppdire

PID = "C18"
RULE = """Every estimator configuration x container/layout of predictors and response x copy setting: every call (fit, predict,
transform, weights of new cases, inverse, repeated fit) is followed by a bitwise comparison of everything handed over
(tables with their index and column labels, the memory around strided views, option dictionaries and lists).  After
fitting with copying enabled the caller's tables are overwritten and the model's answers must not move.  Every function
of the package x layout, every moment statistic x option, the interior point adapter's options."""
ASSUMPTIONS = ["a model fitted with copy=False may keep referring to the caller's data, but may not write to it"]


def BOUNDS(tier):
    return {"containers": "C, Fortran, strided view, reversed view, data frame, integer, column response", "models": len(MODELS), "tier": tier}


MODELS = [m for m in c17.MODELS if m[0] not in ("dicomo", "capi") and not m[1].get("whiten_data")] + [
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, square_pi=True, center_data=False, scale_data=False, copy=False, optimizer="grid", optimizer_options={"ndir": 12, "maxiter": 4}), {}),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, square_pi=True, center_data=False, scale_data=False, copy=False, optimizer="SLSQP", optimizer_options={"maxiter": 50}), {}),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="var"), n_components=2, center_data=False, scale_data=False, copy=False, optimizer="grid", optimizer_options={"ndir": 12, "maxiter": 4}), {}),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="var"), n_components=2, center_data=False, scale_data=False, copy=True, optimizer="grid", optimizer_options={"ndir": 12, "maxiter": 4}), {}),
    ("ppdire", dict(pi="capi", pi_arguments=dict(max_degree=3, projection_index=dicomo, scaling=True, weights=[1, 2, 3, 4, 5, 6], options=[1, 2], pi_arguments={"est": "arithmetic", "center": "mean"}), n_components=2, optimizer="grid", optimizer_options={"ndir": 12, "maxiter": 4}), {}),
    ("snipls", dict(eta=0.0, n_components=2, centre="None", scale="None", copy=False), {}),
    ("snipls", dict(eta=0.3, n_components=2, centre="None", scale="None", copy=True), {}),
    ("sprm", dict(fun="Hampel", centre="mean", scale="None", n_components=2, eta=0.0, copy=False), {}),
    ("rm", dict(fun="Hampel", centre="mean", scale="None", copy=True), {}),
    ("sudire", dict(sudiremeth="sir", n_components=1, n_slices=3, center_data=False, scale_data=False, copy=False), {}),
    ("sudire", dict(sudiremeth="save", n_components=2, n_slices=2, center_data=False, copy=False), {}),
    ("sudire", dict(sudiremeth="dcov-sdr", n_components=2, copy=False, optimizer_options={"max_iter": 7, "tol": 1e-3}), {}),
    ("sudire", dict(sudiremeth="mdd-sdr", n_components=1, optimizer_start=np.array([1.0, 0.5, 0.25])), {}),
    ("scaler", dict(center="mean", scale="None"), {}), ("scaler", dict(center="None", scale="None"), {}),
    ("gss", dict(center="None", fun="ss"), {}), ("gss", dict(center="mean", fun="winsor"), {}),
]
CONT = ("C", "F", "strided", "reversed", "frame", "int", "column", "ycolframe")


def cases(tier):
    q = tier == "quick"
    for i, m in enumerate(MODELS):
        for c in CONT:
            for cp in (True, False) if m[0] in ("snipls", "rm", "sprm", "ppdire", "sudire") else (None,):
                for dev in ("none", "const") if m[0] in ("sprm", "snipls", "rm", "scaler", "wrapper") else ("none",):
                    for dev2 in ((), ("nan",)) if m[0] in ("snipls", "scaler") and c != "int" else ((),):
                        yield ("model", i, c, cp, dev, dev2)
    for f in entry.FUN:
        for c in CONT:
            yield ("func", f, c)
    for f in (*entry.ARR, *entry.HELP):
        for c in ("C", "F", "strided", "reversed"):
            yield ("func", f, c)
    for a in entry.DIC:
        for c in ("C", "strided", "frame", "int"):
            yield ("dicomo", a, c)
    for deg, opt, sc in itertools.product((2, 3, 4), ("all", [1], [1, 2]), (True, False)):
        yield ("capi", deg, opt, sc)
    for o in itertools.product((0, 1), repeat=4):
        yield ("ipopt", o)


def contain(X, y, c):
    """(X, y, objects to watch)"""
    if c == "C":
        a, b = np.ascontiguousarray(X), y.copy()
        return a, b, [a, b]
    if c == "F":
        a, b = np.asfortranarray(X), y.copy()
        return a, b, [a, b]
    if c == "strided":
        big = np.arange(4.0 * X.size).reshape(2 * X.shape[0], 2 * X.shape[1])
        big[::2, ::2] = X
        yb = np.arange(3.0 * len(y))
        yb[1::3] = y
        return big[::2, ::2], yb[1::3], [big, yb]
    if c == "reversed":
        a, b = X[::-1].copy(), y[::-1].copy()
        return a[::-1], b[::-1], [a, b]
    if c == "frame":
        a, b = pd.DataFrame(X, columns=["c%d" % j for j in range(X.shape[1])], index=["r%d" % i for i in range(len(X))]), pd.Series(y, name="resp")
        return a, b, [a, b]
    if c == "int":
        a, b = np.round(X * 4).astype(int), np.round(y * 4).astype(int)
        return a, b, [a, b]
    if c == "column":
        a, b = X.copy(), y.reshape(-1, 1).copy()
        return a, b, [a, b]
    if c == "ycolframe":
        a, b = pd.DataFrame(X), pd.DataFrame({"resp": y})
        return a, b, [a, b]


def snap(objs):
    out = []
    for o in objs:
        if isinstance(o, np.ndarray):
            out.append((o.shape, o.dtype.str, o.tobytes()))
        elif isinstance(o, pd.DataFrame):
            out.append((list(map(str, o.columns)), list(map(str, o.index)), o.values.tobytes(), o.values.dtype.str))
        elif isinstance(o, pd.Series):
            out.append((str(o.name), list(map(str, o.index)), o.values.tobytes(), o.values.dtype.str))
        else:
            out.append(repr(o))
    return out


def scribble(objs):
    for o in objs:
        if isinstance(o, pd.DataFrame):
            o.iloc[:, :] = o.values * -3 + 17
        elif isinstance(o, pd.Series):
            o.iloc[:] = o.values * -3 + 17
        else:
            o *= -3
            o += 17


def run(case, ctx):
    ctx.state(case)
    fam = case[0]
    if fam == "model":
        _, i, c, cp, dev, dev2 = case
        kind, par, _a = MODELS[i]
        par = copy.deepcopy(par)
        if cp is not None:
            par["copy"] = cp
        n, p = (14, 3) if kind == "sudire" else (9, 3)
        X, y = data.regression(n, p, 5, noise=2.0)
        if dev == "const":
            X[:, 1] = 2.5
        if dev2:
            X[2, 0] = np.nan
        Xn, yn = data.regression(5, p, 6, noise=1.0)
        X, y, watch = contain(X, y, c)
        Xn, _, watchn = contain(Xn, yn, c)
        opts = [v for v in par.values() if isinstance(v, (dict, list, np.ndarray))]
        watch_all = watch + watchn + opts
        before = snap(watch_all)

        def still(what):
            return ctx.true(snap(watch_all) == before, "modified:%s:%s" % (kind, what), "%s changes what it was given" % what)
        one = kind in ("scaler", "gss", "wrapper") or (kind == "ppdire" and par["pi_arguments"].get("mode") in ("var", "kurt"))
        with stand.replaced(("minimize_ipopt",), c17.Stub()):
            m = models.make((kind, par, {}))
            try:
                ctx.op("fit", m.fit, *((X,) if one else (X, y)))
            except Exception as e:
                still("refused fit")
                ctx.outcome("refused", type(e).__name__)
                ctx.skip("setting not usable with this container")
                return
            still("fit")
            calls = {"snipls": ("predict", "transform"), "rm": ("predict",), "sprm": ("predict", "transform", "weightnewx"), "ppdire": ("transform",) if one else ("predict", "transform"),
                     "sudire": ("predict", "transform"), "scaler": ("transform", "predict", "inverse_transform"), "gss": ("transform",), "wrapper": ("transform", "predict")}[kind]
            res = {}
            for f in calls:
                r = ctx.op(f, getattr(m, f), Xn)
                res[f] = np.array(r, dtype=float, copy=True)
                still(f)
                if isinstance(r, np.ndarray) and r.size and r.dtype.kind == "f" and r.flags.writeable:
                    r *= 2.0                      # a caller owns what it was returned ...
                    still(f + " result")          # ... writing to it must not reach the inputs
                    ctx.eq(np.array(getattr(m, f)(Xn), dtype=float), res[f], "result-aliases-model:%s:%s" % (kind, f), rtol=1e-12, atol=0)
            ctx.op("fit again", m.fit, *((X,) if one else (X, y)))
            still("second fit")
            if par.get("copy", True):
                obs = models.observe(m, (kind, par, {}))
                scribble(watch)
                now = models.observe(m, (kind, par, {}))
                for a in obs:
                    ctx.same(now[a], obs[a], "follows-caller:%s:%s" % (kind, a))
                for f in calls:
                    ctx.eq(np.array(getattr(m, f)(Xn), dtype=float), res[f], "answers-follow-caller:%s:%s" % (kind, f), rtol=1e-12, atol=1e-14)
        ctx.outcome([np.round(v, 6) for v in res.values()])
    elif fam in ("func", "dicomo"):
        X, y = data.regression(14 if fam == "func" else 8, 3, 5, noise=2.0)
        X, y, watch = contain(X, y, case[2])
        before = snap(watch)
        if fam == "func":
            f = {**entry.FUN, **entry.ARR, **entry.HELP}[case[1]]
            name = case[1]
            call = lambda: f(X, y)
        else:
            name = "dicomo:%s:%s" % case[1][:2]
            call = lambda: entry.dic(X, y, *case[1])
        try:
            r1 = ctx.op(name, call)
        except Exception as e:
            ctx.true(snap(watch) == before, "modified:" + name, "refused call")
            ctx.skip("not accepted")
            ctx.outcome(type(e).__name__)
            return
        ctx.true(snap(watch) == before, "modified:" + name, "changes what it was given")
        r1 = np.array(r1, dtype=float, copy=True)
        r2 = ctx.op(name, call)
        ctx.true(snap(watch) == before, "modified:" + name, "second call changes what it was given")
        ctx.eq(np.array(r2, dtype=float), r1, "repeat:" + name, rtol=1e-12, atol=1e-14)
        ctx.outcome(np.round(r1, 6))
    elif fam == "capi":
        _, deg, opt, sc = case
        X, y = data.regression(8, 1, 5, noise=2.0)
        y = y.reshape(-1, 1)
        w, pia = [1, 2, 0.5, -1, 3, 1.5], {"est": "arithmetic"}
        opt = list(opt) if opt != "all" else opt
        watch = [X, y, w, pia, opt]
        before = snap(watch)
        m = capi(max_degree=deg, projection_index=dicomo, pi_arguments=pia, weights=w, scaling=sc, options=opt)
        r = ctx.op("capi", m.fit, X, y)
        ctx.true(snap(watch) == before, "modified:capi", "")
        ctx.eq(m.fit(X, y), r, "repeat:capi")
        ctx.outcome(round(float(r), 8))
    else:
        import importlib
        iw = importlib.import_module("direpack.ipopt_temp.ipopt_wrapper")
        if not all(hasattr(iw, a) for a in ("cyipopt", "CYIPOPT_INSTALLED", "minimize_ipopt")):
            ctx.skip("adapter not reachable")
            return
        o = {k: v for k, v, b in zip(("disp", "maxiter", "tol", "print_level"), (5, 10, 1e-3, 2), case[1]) if b}
        cons = [{"type": "eq", "fun": lambda u, s: u[0] - s, "args": (1.0,)}, {"type": "ineq", "fun": lambda u: u[1]}]
        bounds = [(0, 1), (None, 2.0)]
        x0 = np.array([0.5, 0.25])
        kw = {}

        class Problem:
            def __init__(self, **k):
                self.k = k

            def add_option(self, *a):
                pass

            def solve(self, x):
                pr = self.k["problem_obj"]
                x = np.array(x)
                for z in (x, x + 1):
                    pr.objective(z), pr.gradient(z), pr.constraints(z), pr.jacobian(z)
                return x, {"status": 0, "status_msg": b"", "obj_val": 0.0}

        class Mod:
            pass
        mod = Mod()
        mod.Problem = mod.problem = Problem
        old = (iw.cyipopt, iw.CYIPOPT_INSTALLED)
        keep = (repr(o), [dict(c) for c in cons], list(bounds), x0.copy())
        try:
            iw.cyipopt, iw.CYIPOPT_INSTALLED = mod, True
            ctx.op("minimize_ipopt", iw.minimize_ipopt, lambda u, a: float((u ** 2).sum() * a), x0, args=(2.0,), kwargs=kw, bounds=bounds, constraints=cons, options=o)
        finally:
            iw.cyipopt, iw.CYIPOPT_INSTALLED = old
        ctx.true(repr(o) == keep[0], "modified:ipopt-options", (keep[0], o))
        ctx.true(cons == keep[1] and bounds == keep[2] and np.array_equal(x0, keep[3]), "modified:ipopt-problem", "")
        ctx.outcome(case[1])
