"""C29 calls leave nothing behind in the session."""
import copy
import itertools
import os
import random
import sys
import types
import warnings
import numpy as np
import pandas as pd
import sklearn
from lib import data, models, stand, core, entry
from checks import c17, c23
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import direpack
from direpack import dicomo, capi

PID = "C29"
RULE = """The state of the session (random number generators, floating point error handling, warning filters, settings of the plotting,
table and learning libraries, working directory and its files, environment, and everything the package's modules keep: globals, class
attributes, default arguments) is one state; every operation of the package (fit, refused fit, every use, every function, every moment
statistic, every plot, the interior point adapter, the bootstrap) must lead back to it.  Every ordered pair of model configurations is
run on separate objects: the second must come out as if the first had never been run."""
ASSUMPTIONS = ["resampling draws from numpy's global generator by design; only its state is exempted there",
               "figures opened by the plots are results, not traces"]


def BOUNDS(tier):
    return {"models": len(MODELS), "ordered pairs": len(MODELS) ** 2 if tier == "thorough" else len(MODELS) * len(PAIR), "tier": tier}


MODELS = [m for m in c17.MODELS if not (m[0] == "ppdire" and m[1].get("whiten_data"))] + [
    ("sudire", dict(sudiremeth="iht", n_components=1), {}), ("sudire", dict(sudiremeth="save", n_components=1, n_slices=2), {}),
    ("gss", dict(center="mean", fun="quad"), {}), ("gss", dict(center="kstepLTS", fun="winsor"), {}), ("gss", dict(center="median", fun="shell"), {}),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=1, square_pi=True, optimizer="IPOPT"), {}),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="var"), n_components=1, optimizer="grid"), {}),
]
PAIR = (1, 3, 5, 8, 9, 12, 15, 19, 24)
PLOTS = {"yyp": ("train", "both", "new"), "proj": ("train", "both", "new"), "weights": ("overall", "x", "y"), "coef": (0, .5), "contour": (0, 1)}


def cases(tier):
    q = tier == "quick"
    for i in range(len(MODELS)):
        for d in c17.DATA:
            yield ("use", i, d)
        yield ("refused", i)
        for j in (PAIR if q else range(len(MODELS))):
            yield ("pair", i, j % len(MODELS), "B" if (i + j) % 2 else "A")
    for f in (*entry.FUN, *entry.ARR, *entry.HELP):
        yield ("func", f)
    for a in entry.DIC:
        yield ("dicomo", a)
    for i, m in enumerate(c23.MODELS):
        if m[2] == "const" and q:
            continue
        for kind, variants in PLOTS.items():
            if kind in ("weights", "coef") and m[0] != "sprm":
                continue
            if kind == "yyp" and m[0] == "ppdire" and m[1]["pi_arguments"]["mode"] == "var":
                continue
            for v in variants:
                yield ("plot", i, kind, v)
    for meth in ("sir", "save", "phd"):
        yield ("bootstrap", meth)


# ---------------------------------------------------------------------------------------------- the state of the session
def value(v, depth=0):
    if isinstance(v, np.ndarray):
        return (v.shape, v.dtype.str, v.tobytes() if v.dtype.kind != "O" else repr(v))
    if isinstance(v, dict) and depth < 4:
        return sorted(((str(k), value(w, depth + 1)) for k, w in v.items()), key=lambda e: e[0])
    if isinstance(v, (list, tuple, set)) and depth < 4:
        return [type(v).__name__] + [value(w, depth + 1) for w in (sorted(v, key=repr) if isinstance(v, set) else v)]
    if isinstance(v, (int, float, complex, str, bytes, bool, type(None))):
        return repr(v)
    if isinstance(v, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)):
        return getattr(v, "__module__", "") + "." + getattr(v, "__qualname__", getattr(v, "__name__", "?"))
    return type(v).__name__


def package_state():
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if not name.startswith("direpack") or ".test" in name or mod is None:
            continue
        for k, v in sorted(vars(mod).items()):
            if k.startswith("__"):
                continue
            key = name + "." + k
            own = getattr(v, "__module__", None) == name
            if isinstance(v, types.FunctionType) and own:
                out[key + " defaults"] = (value(v.__defaults__), value(v.__kwdefaults__), value({a: b for a, b in vars(v).items() if a != "__wrapped__"}))
            elif isinstance(v, type) and own:
                for a, b in sorted(vars(v).items()):
                    f = getattr(b, "__func__", b)
                    if isinstance(f, types.FunctionType):
                        out[key + "." + a + " defaults"] = (value(f.__defaults__), value(f.__kwdefaults__))
                    elif not a.startswith("__") and not a.startswith("_abc") and not a.startswith("_sklearn"):
                        out[key + "." + a] = value(b)
            elif not isinstance(v, types.ModuleType):
                out[key] = value(v)
    return out


def session():
    s = {"random": repr(random.getstate()), "numpy errors": repr(np.geterr()), "numpy print": repr(np.get_printoptions()),
         "warnings": repr([f[:1] + tuple(map(str, f[1:])) for f in warnings.filters]), "directory": os.getcwd(), "files": repr(sorted(os.listdir("."))),
         "environment": repr(sorted(os.environ.items())), "sys.path": repr(sys.path), "learning": repr(sorted(sklearn.get_config().items())),
         "recursion": sys.getrecursionlimit(), "excepthook": repr(sys.excepthook), "stdout": id(sys.stdout),
         "tables": repr([pd.get_option(o) for o in ("display.precision", "display.max_rows", "mode.chained_assignment", "mode.copy_on_write")])}
    st = np.random.get_state()
    s["numpy random"] = (st[0], st[1].tobytes(), st[2:])
    for k in matplotlib.rcParams:
        s["plotting " + k] = repr(dict.__getitem__(matplotlib.rcParams, k))
    s.update(package_state())
    return s


LAST = {}
PLOTTING = {k: v for k, v in matplotlib.rcParamsDefault.items() if k.split(".")[0] in ("axes", "figure", "font", "lines", "legend")}


def same(ctx, what, exempt=()):
    now = session()
    was = LAST["s"]
    diff = [k for k in sorted(set(now) | set(was), key=str) if now.get(k) != was.get(k) and k not in exempt]
    ok = ctx.true(not diff, "left-behind:%s:%s" % (what, diff[0] if diff else ""), diff[:6])
    LAST["s"] = now
    ctx.comparisons += len(was)
    return ok


def begin():
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    matplotlib.rcParams.update(PLOTTING)
    np.random.seed(5)
    random.seed(5)
    LAST["s"] = session()


class Stop(Exception):
    pass


def run(case, ctx):
    ctx.state(case)
    begin()
    try:
        globals()["run_" + case[0]](case, ctx)
    finally:
        plt.close("all")


def fit(ctx, i, d):
    kind, par, _ = MODELS[i]
    m = ctx.op(("new", i), c17.make, kind, copy.deepcopy(par))
    r = ctx.op(("fit", i, d), c17.fit, kind, m, par, d)
    return kind, par, m, r


def drawing(i):
    return ("numpy random",) if MODELS[i][1].get("optimizer") == "differential_evolution" else ()


def run_use(case, ctx):
    _, i, d = case
    with stand.replaced(("minimize_ipopt",), c17.Stub()):
        LAST["s"] = session()
        kind, par, m, r = fit(ctx, i, d)
        same(ctx, kind + ".fit", drawing(i))
        out = ctx.op(("use", i, d), c17.use, kind, m, par, d)
        same(ctx, kind + ".use")
        X, y = c17.load(kind, d)
        if hasattr(m, "score") and kind in ("snipls", "rm", "sprm"):
            ctx.op("score", m.score, X, y)
            same(ctx, kind + ".score")
        c = ctx.op("copy", copy.deepcopy, m)
        ctx.op("set", c.set_params, **{k: copy.deepcopy(v) for k, v in MODELS[i][2].items()})
        repr(c)
        ctx.op("get", c.get_params)
        same(ctx, kind + ".params")
    ctx.outcome([np.round(o, 5) for o in out] or r)


def run_refused(case, ctx):
    i = case[1]
    kind, par, _ = MODELS[i]
    m = c17.make(kind, copy.deepcopy(par))
    with stand.replaced(("minimize_ipopt",), c17.Stub()):
        LAST["s"] = session()
        for f in (lambda: c17.bad(kind, m, par), lambda: m.fit("no data", "no data"), lambda: m.fit(np.full((4, 3), np.nan), np.ones(4)),
                  lambda: m.predict(np.ones((2, 9))), lambda: m.transform(np.ones((2, 9))), lambda: m.set_params(nonsense=1)):
            try:
                ctx.op("refused", f)
            except Exception as e:
                ctx.outcome(kind, type(e).__name__)
            same(ctx, kind + ".refused", drawing(i))


REF = {}


def result(ctx, i, d):
    np.random.seed(11)
    kind, par, m, r = fit(ctx, i, d)
    return [(k, v) for k, v in sorted(c17.observe(kind, m, r).items())]


def run_pair(case, ctx):
    """the second model as if the first had never been"""
    _, i, j, d = case
    with stand.replaced(("minimize_ipopt",), c17.Stub()):
        if (j, d) not in REF:
            REF[j, d] = result(ctx, j, d)
        kind, par, m, _ = fit(ctx, i, "F")
        try:
            c17.use(kind, m, par, "F")
        except Exception:
            pass
        got = result(ctx, j, d)
    for (a, g), (b, w) in zip(got, REF[j, d]):
        ctx.true(a == b and (np.array_equal(g, w, equal_nan=True) if getattr(g, "dtype", None) is not None and g.dtype.kind == "f" else np.array_equal(g, w)),
                 "depends-on-other-object:%s after %s:%s" % (MODELS[j][0], kind, a), (i, j))
    ctx.true(len(got) == len(REF[j, d]), "depends-on-other-object:%s after %s" % (MODELS[j][0], kind), (i, j))
    ctx.outcome([np.asarray(v).tobytes() for _, v in got])


def run_func(case, ctx):
    f = {**entry.FUN, **entry.ARR, **entry.HELP}[case[1]]
    X, y = data.regression(14, 3, 5, noise=2.0)
    LAST["s"] = session()
    try:
        r = ctx.op(case[1], f, X, y)
    except Exception as e:          # helpers that need more than the data
        r = type(e).__name__
    same(ctx, case[1])
    X[2] = np.nan
    try:
        ctx.op(case[1] + " missing", f, X, y)
    except Exception:
        pass
    same(ctx, case[1])
    ctx.outcome(case[1], repr(r))


def run_dicomo(case, ctx):
    X, y = data.regression(8, 3, 5, noise=2.0)
    LAST["s"] = session()
    r = ctx.op(str(case[1]), entry.dic, X, y, *case[1])
    same(ctx, "dicomo:%s:%s" % case[1][:2])
    ctx.outcome(case[1], repr(r))


def run_plot(case, ctx):
    _, i, kind, v = case
    mk = c23.MODELS[i][0]
    m, X, y, Xn, yn = c23.load(i)
    if kind == "contour":
        if mk != "sprm":
            ctx.skip("only for the robust method")
            return
        plotter = direpack.sprm_plot(m, c23.COL) if v == 0 else c23.plotter(m, mk)
        calls = [lambda: plotter.plot_coeffs()]
    else:
        plotter = c23.plotter(m, mk)
        kw = c23.args(v if kind in ("yyp", "proj") else "both", "all", True, m, mk, len(y), Xn, yn)
        if kind == "yyp" and "Xn" in kw:
            kw["ytruev"] = yn
        if kind == "proj":
            kw["components"] = [0, 1]
        if kind == "weights":
            kw["mode"] = v
        calls = {"yyp": [lambda: plotter.plot_yyp(**kw)], "proj": [lambda: plotter.plot_projections(**kw)],
                 "weights": [lambda: plotter.plot_caseweights(**kw)], "coef": [lambda: plotter.plot_coeffs(truncation=v)]}[kind]
    for f in calls:
        plt.figure()              # an own figure of the user's, drawn before and after
        LAST["s"] = session()
        own = look()
        ctx.op((kind, v), f)
        same(ctx, "plot %s:%s" % (mk, kind))
        ctx.same(look(), own, "own-figures-look-different:%s:%s" % (mk, kind))
    ctx.outcome(case)


def look():
    """how a new figure of the user's comes out"""
    fig, ax = plt.subplots()
    r = (tuple(ax.get_facecolor()), tuple(fig.get_facecolor()), tuple(fig.get_size_inches()), ax.title.get_fontsize(), ax.xaxis.get_label().get_fontsize())
    plt.close(fig)
    return r


def run_bootstrap(case, ctx):
    sd = direpack.sudire.__module__ and __import__("importlib").import_module("direpack.sudire.sudire")
    f = getattr(sd, "estimate_structural_dim", None)
    if f is None:
        ctx.skip("no structural dimension estimate")
        return
    X, y = data.regression(16, 3, 5, noise=2.0)
    LAST["s"] = session()
    try:
        r = ctx.op("structural dimension", f, case[1], X, y, 3, n_slices=3)
    except TypeError as e:
        ctx.skip("signature: %s" % e)
        return
    same(ctx, "bootstrap", ("numpy random",))
    ctx.outcome(repr(r))
