"""C17 fitting depends only on settings and data, never on history."""
import copy
import itertools
import pickle
import numpy as np
import pandas as pd
from lib import data, models, stand, core
import direpack
from direpack import dicomo, capi

PID = "C17"
RULE = """Explicit-state exploration per estimator: from the fresh object, every operation of the alphabet (fit on three data sets of
different shape and container, refused fit, predict/transform of new data, every setting change, deep copy, pickling,
fitting another object of the class) is applied in every reachable state up to the depth bound; a state is the
fingerprint of all attributes of the object.  Each state is reached by replaying its operation sequence on a new
object.  After each fit all fitted quantities equal those of a fresh object with the same settings; after every
operation the settings are those last set; use of the model changes nothing."""
ASSUMPTIONS = ["states with equal attribute fingerprints behave alike (fingerprints cover all instance attributes)",
               "after a refused fit only later fits are judged"]


def BOUNDS(tier):
    return {"depth": 3 if tier == "quick" else 5, "state cap": 60 if tier == "quick" else 2000, "data sets": 3, "tier": tier}


SL = dict(optimizer="SLSQP", optimizer_options={"maxiter": 200})
GR = dict(optimizer="grid", optimizer_options={"ndir": 12, "maxiter": 4})
# kind, base settings, alternative settings
MODELS = [
    ("snipls", dict(eta=0.0, n_components=1, centre="mean", scale="None"), dict(eta=0.5, n_components=2, centre="median", scale="mad", columns=True)),
    ("snipls", dict(eta=0.4, n_components=2, centre="mean", scale="std", copy=False), dict(scale="None", centre="None", n_components=1)),
    ("rm", dict(fun="Hampel", centre="median", scale="mad"), dict(fun="Huber", centre="mean", scale="std", probp1=0.9, maxit=3, start_cutoff_mode="same")),
    ("rm", dict(fun="Fair", centre="mean", scale="None", copy=False), dict(fun="Hampel", scale="mad", tol=0.1)),
    ("sprm", dict(fun="Hampel", centre="median", scale="mad", n_components=2, eta=0.3), dict(fun="Fair", n_components=1, eta=0.0, scale="None", columns=True)),
    ("sprm", dict(fun="Huber", centre="mean", scale="std", n_components=1, eta=0.0), dict(probp1=0.8, start_X_init="direct", start_cutoff_mode="same", centre="l1median", maxit=4)),
    ("sprm", dict(fun="Hampel", centre="median", scale="mad", n_components=1, eta=0.5, copy=False), dict(eta=0.9, probp2=0.99, tol=0.5)),
    ("sprm", dict(fun="Hampel", centre="kstepLTS", scale="scaleTau2", n_components=1, eta=0.2), dict(centre="median", probp2=0.98)),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=1, square_pi=True, **SL), dict(n_components=2, scale_data=False, regopt="robust", pi_arguments=dict(mode="corr"))),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, **GR), dict(center="median", trimming=0.1, square_pi=True, optimizer_options={"ndir": 7, "maxiter": 3})),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="var"), n_components=1, **GR), dict(n_components=2, center="median", pi_arguments=dict(mode="kurt"))),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="continuum"), n_components=1, alpha=1, **GR), dict(alpha=0.25, center_data=False, optimizer="SLSQP")),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, square_pi=True, regopt="robust", **GR), dict(pi_arguments=dict(mode="var"), n_components=1, regopt="quantile")),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(est="distance", mode="cov"), n_components=1, **GR), dict(pi_arguments=dict(mode="var"), center="median")),
    ("ppdire", dict(pi="capi", pi_arguments=dict(max_degree=2, projection_index=dicomo, scaling=False), n_components=1, **GR), dict(regopt="quantile", copy=False, return_scaling_object=False)),
    ("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=1, whiten_data=True, **GR), dict(n_components=1)),
    ("sudire", dict(sudiremeth="sir", n_components=1, n_slices=3), dict(n_slices=4, n_components=2, sudiremeth="save", scale_data=False)),
    ("sudire", dict(sudiremeth="phd", n_components=2), dict(center="median", center_data=False, sudiremeth="iht", copy=False)),
    ("sudire", dict(sudiremeth="dr", n_components=1, n_slices=2, center="median"), dict(scale_data=False, trimming=0.1, center="mean")),
    ("sudire", dict(sudiremeth="dcov-sdr", n_components=1), dict(n_components=2, scale_data=False, sudiremeth="mdd-sdr")),
    ("sudire", dict(sudiremeth="sir", n_components=1, n_slices=3, whiten_data=True), dict(n_slices=2)),
    ("scaler", dict(center="mean", scale="std", trimming=0), dict(center="l1median", scale="None", trimming=0.1)),
    ("scaler", dict(center="None", scale="mad", trimming=0), dict(center="median", scale="scaleTau2")),
    ("gss", dict(center="l1median", fun="linear_redescending"), dict(center="mean", fun="ball")),
    ("wrapper", dict(), dict()),
    ("dicomo", dict(est="arithmetic", mode="var", center="mean"), dict(mode="corr", est="distance")),
    ("dicomo", dict(est="arithmetic", mode="cos", center="median"), dict(mode="kurt", center="mean")),
    ("dicomo", dict(est="distance", mode="cov", center="mean"), dict(mode="mdd")),
    ("capi", dict(max_degree=3, projection_index=dicomo, scaling=False), dict(max_degree=2, weights=[2, -1, 0.5, 1, 1, 1], scaling=True, options=[1], pi_arguments={"est": "arithmetic", "center": "median"})),
]
DATA = ("A", "B", "F")


def cases(tier):
    for i, m in enumerate(MODELS):
        for first in ops(m):
            yield ("explore", i, first)
    for e, c, a in PRODUCT:
        yield ("modes", e, c, a)


MODES = ("mom", "var", "std", "skew", "kurt", "com", "cov", "cos", "cok", "M3", "corr", "continuum")
PRODUCT = [(e, c, a) for e in ("arithmetic", "distance") for c in ("mean", "median") for a in MODES
           if not (e == "distance" and a in ("M3", "continuum", "cos", "cok", "skew", "kurt"))]


def run_modes(case, ctx):
    """one statistic object switched through all modes: each value and setting as if the object were new"""
    _, est, centre, first = case
    X, y = data.regression(9, 1, 4, noise=2.0)
    x, y = np.abs(X) ** 1.5 + 1, y.reshape(-1, 1)

    def val(d, kw):
        try:
            return float(np.ravel(ctx.op((d.mode, d.center, d.est, kw), d.fit, x, **({} if d.mode in ("mom", "var", "std", "skew", "kurt") else {"y": y}), **kw))[0])
        except Exception as e:
            return type(e).__name__
    kws = [dict(), dict(biascorr=True), dict(order=3, option=2), dict(option=2)]
    for e2, c2, second in PRODUCT:
        if (e2, c2) != (est, centre) and second not in ("var", "skew", "cov", "corr"):
            continue
        for k1, k2 in itertools.product(kws, kws):
            d = dicomo(est=est, mode=first, center=centre)
            v1 = val(d, k1)
            if not ctx.true((d.est, d.mode, d.center) == (est, first, centre), "settings-changed:dicomo", (d.est, d.mode, d.center)):
                return
            d.set_params(est=e2, mode=second, center=c2)
            got = val(d, k2)
            want = val(dicomo(est=e2, mode=second, center=c2), k2)
            ctx.state(est, centre, first, e2, c2, second, repr(k1), repr(k2))
            ctx.true(got == want or (got != got and want != want), "history:dicomo:modes", "%s/%s after %s/%s: %r, fresh %r" % (second, k2, first, k1, got, want))


def ops(m):
    kind, base, alt = m
    o = [("fit", d) for d in DATA] + [("bad",), ("use",), ("copy",), ("pickle",), ("other",)]
    for k in alt:
        o += [("set", k, 1)]
    return o


def load(kind, d):
    big = kind == "sudire"
    n, p, seed = {"A": (14 if big else 9, 3, 1), "B": (16 if big else 11, 2, 2), "F": (14 if big else 9, 3, 3)}[d]
    X, y = data.regression(n, p, seed, noise=2.0)
    if d == "A":
        y[4] += 30.0
    if d == "B" and kind in ("sprm", "snipls", "rm", "scaler", "wrapper"):
        X = np.column_stack([X, np.full(n, 0.1)])
    if d == "F":
        return pd.DataFrame(X, columns=["u", "v", "w"]), pd.Series(y, name="y")
    return X, y


class Stub:
    """stand-in for the interior point solver: its answer depends continuously on everything it is handed"""
    def __call__(self, fun, x0, args=(), constraints=(), options=None, **k):
        x0 = np.asarray(x0, float).ravel()
        args = args if isinstance(args, tuple) else (args,)
        f = float(np.squeeze(fun(x0, *args)))
        cs = [constraints] if isinstance(constraints, dict) else list(constraints or ())
        c = sum((i + 1) * float(np.squeeze(d["fun"](x0, *d.get("args", ())))) for i, d in enumerate(cs))

        class R:
            pass
        r = R()
        r.x = x0 * (1 + 0.1 * np.cos(np.arange(x0.size) + f)) + 0.05 * np.sin(c + np.arange(x0.size))
        r.success, r.fun, r.status = True, f, 0
        return r


def make(kind, par):
    if kind == "dicomo":
        return dicomo(**par)
    if kind == "capi":
        return capi(**{**dict(pi_arguments={"est": "arithmetic"}), **par})
    return models.make((kind, par, {}))


def fit(kind, m, par, d):
    X, y = load(kind, d)
    if kind in ("dicomo", "capi"):
        x, y = np.asarray(X, float)[:, :1], np.asarray(y, float).reshape(-1, 1)
        if kind == "capi":
            return m.fit(x, y, **({"biascorr": True} if d == "B" else {}))
        if d == "B":
            return m.fit(x, y=y, biascorr=True, order=3, option=2)
        return m.fit(x, y=y)
    if kind in ("scaler", "gss", "wrapper"):
        return m.fit(X)
    if kind == "ppdire" and par["pi_arguments"].get("mode") in ("var", "kurt"):
        return m.fit(X, **({"mixing": True} if d == "B" else {}))
    if kind == "ppdire" and d == "B":
        return m.fit(X, y, h=1, mixing=True, biascorr=True, dmetric="cityblock", **({"fun": "Fair", "probp1": 0.9, "quantile": 0.3}))
    return m.fit(X, y)


def observe(kind, m, r):
    if kind in ("dicomo", "capi"):
        own = {k: np.asarray(getattr(m, k), float) for k in ("moment_", "x_moment_", "y_moment_", "co_moment_") if hasattr(m, k)}
        return {"value": np.asarray(r, float), **own, "params": repr(sorted(k for k in m.get_params()))}
    out = models.observe(m, (kind, {}, {}))
    if kind == "gss":
        out.pop("X_gsspp_", None)
    if kind == "wrapper":
        out = {k: np.asarray(getattr(m, k)) for k in ("center_", "scale_", "col_loc_", "col_sca_") if hasattr(m, k)}
    if kind == "sprm" or kind == "snipls":
        out["ret"] = np.array([str(c) for c in np.ravel(m.colret_)])
    return out


def use(kind, m, par, d):
    """everything a fitted model can be asked"""
    X, y = load(kind, d)
    if kind in ("dicomo", "capi"):
        return []
    X = X.iloc[::-1] if hasattr(X, "iloc") else X[::-1] + 0.5
    out = []
    names = {"snipls": ("predict", "transform"), "rm": ("predict",), "sprm": ("predict", "transform", "weightnewx"),
             "ppdire": ("transform", "predict"), "sudire": ("transform", "predict"),
             "scaler": ("transform", "predict", "inverse_transform"), "gss": ("transform",), "wrapper": ("transform", "predict")}[kind]
    for f in names:
        if kind == "ppdire" and f == "predict" and par["pi_arguments"].get("mode") in ("var", "kurt"):
            continue
        if f == "inverse_transform":
            out.append(np.array(m.inverse_transform(m.transform(X)), dtype=float))
        else:
            out.append(np.array(getattr(m, f)(X), dtype=float))
    return out


def bad(kind, m, par):
    """data that must be refused (or at least not be fitted sensibly)"""
    X, y = load(kind, "A")
    if kind in ("dicomo", "capi"):
        return m.fit(X[:, :1], y=y[:4].reshape(-1, 1))
    if kind in ("scaler", "gss", "wrapper"):
        return m.fit("no data")
    return m.fit(X, y[:-2])


def settings(m):
    return {k: models.fingerprint(v) if not isinstance(v, (dict, list)) else repr(v) for k, v in m.get_params(deep=False).items()}


def allstate(m):
    out = []
    for k, v in sorted(vars(m).items()):
        out.append((k, fp(v)))
    return core.digest(out)


def fp(v):
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return repr((v.values.tolist(), list(v.index)))
    if hasattr(v, "get_params") and not isinstance(v, type):
        return allstate(v)
    if type(v).__module__.startswith("statsmodels"):
        return repr(np.asarray(v.params).tolist())
    return models.fingerprint(v)


class Broken(Exception):
    pass


def replay(ctx, mi, path, fresh):
    """run the operation sequence on a new object, judging every step; returns (object, par, fitted) or None"""
    kind, base, alt = MODELS[mi]
    par = copy.deepcopy(base)
    m = make(kind, par)
    want = settings(m)
    fitted = None           # (settings key, data) the model stands for
    for op in path:
        ctx.op(str(op), lambda: None)
        if op[0] == "fit":
            try:
                r, err = fit(kind, m, par, op[1]), None
            except Exception as e:
                err = e
            key = (repr(sorted(par.items(), key=str)), op[1])
            if key not in fresh:
                f = make(kind, copy.deepcopy(par))
                try:
                    rf = fit(kind, f, par, op[1])
                    fresh[key] = (observe(kind, f, rf), use(kind, f, par, op[1]), None)
                except Exception as e:
                    fresh[key] = (None, None, e)
            if not ctx.true(type(err) is type(fresh[key][2]), "refused-differently:" + kind, "used object: %r, fresh object: %r" % (err, fresh[key][2])):
                raise Broken()
            if err is not None:
                fitted = None
                continue
            got = observe(kind, m, r)
            ref = fresh[key][0]
            if not ctx.true(sorted(got) == sorted(ref), "attributes:" + kind, "%s vs %s" % (sorted(got), sorted(ref))):
                raise Broken()
            for a in ref:
                if ref[a].dtype.kind == "f" if hasattr(ref[a], "dtype") else False:
                    ok = ctx.eq(got[a], ref[a], "history:%s:%s" % (kind, a), rtol=1e-10, atol=1e-12)
                else:
                    ok = ctx.same(got[a], ref[a], "history:%s:%s" % (kind, a))
                if not ok:
                    raise Broken()
            fitted = key
        elif op[0] == "bad":
            try:
                bad(kind, m, par)
            except Exception:
                pass
            fitted = None
        elif op[0] == "use":
            if fitted is None or kind in ("dicomo", "capi"):
                return None
            # scalers keep the last table they processed by design (inverse_transform without argument)
            see = (lambda: core.digest(sorted((a, v.tobytes()) for a, v in observe(kind, m, None).items()))) if kind in ("scaler", "wrapper", "gss") else (lambda: allstate(m))
            before = see()
            got = use(kind, m, par, fitted[1])
            ctx.true(see() == before, "use-changes-model:" + kind, op)
            for g, w in zip(got, fresh[fitted][1]):
                ctx.eq(g, w, "use:" + kind, rtol=1e-10, atol=1e-12)
        elif op[0] == "copy":
            m = copy.deepcopy(m)
        elif op[0] == "pickle":
            m = pickle.loads(pickle.dumps(m))
        elif op[0] == "other":
            o = make(kind, copy.deepcopy({**base, **alt} if kind != "ppdire" else base))
            try:
                fit(kind, o, base, "B")
            except Exception:
                pass
        elif op[0] == "set":
            k = op[1]
            v = alt[k] if not core.deep_equal(par.get(k, None), alt[k]) else base.get(k)
            if v is None and k not in base:
                v = make(kind, copy.deepcopy(base)).get_params(deep=False)[k]
            m.set_params(**{k: copy.deepcopy(v)})
            par[k] = copy.deepcopy(v)
            want[k] = models.fingerprint(v) if not isinstance(v, (dict, list)) else repr(v)
            fitted = None
        now = settings(m)
        diff = [k for k in want if now.get(k) != want[k]]
        if diff:
            sig = "settings-changed:%s:%s" % (kind, ",".join(diff))
            if base.get("whiten_data") and kind in ("ppdire", "sudire") and set(diff) <= {"center_data", "scale_data", "compression"}:
                sig = "whiten-overwrites-settings:%s" % kind
            ctx.fail(sig, "after %s: %s" % (op, diff))
            raise Broken()
        ctx.comparisons += 1
    return m, par, fitted


def run(case, ctx):
    if case[0] == "modes":
        return run_modes(case, ctx)
    _, mi, first = case
    kind = MODELS[mi][0]
    depth = 3 if ctx.tier == "quick" else 5
    cap = 60 if ctx.tier == "quick" else 2000
    fresh = {}
    with stand.replaced(("minimize_ipopt",), Stub()):
        seen = set()
        frontier = [(tuple(first),)]
        for lev in range(depth):
            nxt = []
            for path in frontier:
                ctx.trace = []
                try:
                    r = replay(ctx, mi, path, fresh)
                except Broken:
                    return
                if r is None:
                    continue
                s = (allstate(r[0]), r[2])
                if s in seen:
                    continue
                seen.add(s)
                ctx.state(mi, s)
                ctx.outcome(s)
                if len(seen) > cap:
                    ctx.skip("state cap reached")
                    return
                nxt += [path + (tuple(o),) for o in ops(MODELS[mi])]
            frontier = nxt
