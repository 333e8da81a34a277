"""Catalogue of estimators/configurations shared by the cross-cutting checks.
A model is (kind, parameters, fit keyword arguments); all plain data."""
import hashlib
import pickle
import numpy as np
from lib import data


def catalogue(tier="quick", kinds=None):
    q = tier == "quick"
    out = []
    A = lambda k, p, f=None: out.append((k, p, f or {}))
    for eta in (0.0, 0.4):
        for c, s in (("mean", "None"), ("median", "mad"), ("mean", "std"), ("None", "None"), ("l1median", "mad")):
            for h in (1, 2):
                if q and (eta, h) == (0.0, 2) and s == "mad":
                    continue
                A("snipls", dict(eta=eta, n_components=h, centre=c, scale=s))
    for fun in ("Hampel", "Huber", "Fair"):
        for c, s in (("median", "mad"), ("mean", "std"), ("median", "None"), ("l1median", "mad")):
            A("rm", dict(fun=fun, centre=c, scale=s))
            A("sprm", dict(fun=fun, centre=c, scale=s, n_components=2, eta=0.3))
    A("sprm", dict(fun="Hampel", centre="kstepLTS", scale="scaleTau2", n_components=1, eta=0.5))
    A("sprm", dict(fun="Hampel", centre="median", scale="mad", n_components=1, eta=0.0, start_X_init="direct", start_cutoff_mode="same"))
    A("sprm", dict(fun="Fair", centre="mean", scale="None", n_components=2, eta=0.6))
    for pi, two in ((dict(mode="var"), False), (dict(mode="cov"), True), (dict(mode="corr"), True)):
        for opt, oo in (("SLSQP", {"maxiter": 300}), ("grid", {"ndir": 24, "maxiter": 6})):
            if pi["mode"] == "corr" and opt != "grid":
                continue
            for h in (1, 2):
                A("ppdire", dict(pi="dicomo", pi_arguments=pi, n_components=h, optimizer=opt, optimizer_options=oo,
                                 square_pi=two))
    A("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, optimizer="SLSQP",
                     optimizer_options={"maxiter": 300}, square_pi=True, regopt="robust", center="median"))
    A("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=1, optimizer="SLSQP",
                     optimizer_options={"maxiter": 300}, square_pi=True, regopt="quantile"))
    A("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, optimizer="SLSQP",
                     optimizer_options={"maxiter": 300}, square_pi=True, scale_data=False))
    A("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, optimizer="grid",
                     optimizer_options={"ndir": 24, "maxiter": 6}, square_pi=True, center="median", scale_data=False))
    A("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="var", center="median"), n_components=2, optimizer="grid",
                     optimizer_options={"ndir": 24, "maxiter": 6}, center="median"))
    A("ppdire", dict(pi="dicomo", pi_arguments=dict(mode="cov"), n_components=2, optimizer="SLSQP",
                     optimizer_options={"maxiter": 300}, square_pi=True, center_data=False, scale_data=False))
    A("ppdire", dict(pi="capi", pi_arguments=dict(max_degree=2, projection_index="dicomo", scaling=False), n_components=1,
                     optimizer="grid", optimizer_options={"ndir": 16, "maxiter": 4}))
    for me in ("sir", "save", "dr", "phd", "iht"):
        A("sudire", dict(sudiremeth=me, n_components=2, n_slices=3))
        A("sudire", dict(sudiremeth=me, n_components=1, n_slices=4, scale_data=False))
        A("sudire", dict(sudiremeth=me, n_components=1, n_slices=3, center="median"))
    if kinds:
        out = [m for m in out if m[0] in kinds]
    # capi is driven through its own check (C12)
    return [m for m in out if m[1].get("pi") != "capi"]


def datasets(q, mdl):
    """dataset specifications suitable for a model"""
    k = mdl[0]
    shapes = [(9, 3), (12, 4)]
    if k in ("snipls", "sprm"):
        shapes.append((6, 8))
    if k == "sudire":
        shapes = [(18, 3), (20, 4)]
    if k == "ppdire":
        shapes = [(10, 3), (9, 2)]
    for (n, p) in shapes:
        for dev in ("none", "out", "const", "const0", "offset", "down") if not q else ("none", "out", "const", "const0", "offset"):
            if dev.startswith("const") and k in ("sudire", "ppdire"):
                continue
            if dev == "const" and k == "rm" and mdl[1].get("scale") == "None":
                pass
            yield (n, p, 1, dev)
            if not q:
                yield (n, p, 2, dev)


def load(ds):
    n, p, seed, dev = ds
    X, y = data.regression(n, p, seed, noise=2.0)
    if dev == "out":
        y[n // 2] += 40.0
        X[0, 0] += 20.0
    elif dev == "down":
        y[1] -= 40.0
    elif dev == "const":
        X[:, p - 1] = 0.1
    elif dev == "const0":              # variables without spread in front of and between the others
        X[:, 0] = -1000 / 3
        if p > 3:
            X[:, 2] = -4.0
    elif dev == "offset":
        X = X + 64.0
        y = y - 128.0
    return X, y


def make(mdl, **over):
    import direpack
    kind, par, _ = mdl
    par = {**par, **over}
    quiet = dict(verbose=False)
    if kind == "snipls":
        return direpack.snipls(**{**quiet, **par})
    if kind == "rm":
        return direpack.rm(**{**quiet, **par})
    if kind == "sprm":
        return direpack.sprm(**{**quiet, **par})
    if kind == "ppdire":
        par = dict(par)
        pi = par.pop("pi")
        ix = {"dicomo": direpack.dicomo, "capi": direpack.capi}[pi]
        return direpack.ppdire(projection_index=ix, **{**quiet, **par})
    if kind == "sudire":
        return direpack.sudire(**{**quiet, **par})
    if kind == "scaler":
        return direpack.VersatileScaler(**par)
    if kind == "gss":
        return direpack.GenSpatialSignPreProcessor(**par)
    if kind == "wrapper":
        return direpack.Wrapper(**par)
    raise KeyError(kind)


def one_block(mdl):
    return mdl[0] in ("scaler", "gss", "wrapper") or (mdl[0] == "ppdire" and mdl[1]["pi_arguments"].get("mode") == "var")


def fit(m, mdl, X, y):
    if mdl[0] in ("scaler", "gss", "wrapper"):
        return m.fit(X)
    if one_block(mdl):
        return m.fit(X, **mdl[2])
    return m.fit(X, y, **mdl[2])


def has_predict(mdl):
    return mdl[0] in ("snipls", "rm", "sprm", "sudire") or (mdl[0] == "ppdire" and not one_block(mdl))


def has_transform(mdl):
    return mdl[0] in ("snipls", "sprm", "sudire", "ppdire")


def fitted(m, mdl):
    if mdl[0] == "sudire":
        return None
    return m.fitted_


def scores(m, mdl):
    return m.x_scores_


def rotation(m, mdl):
    return {"snipls": "x_Rweights_", "sprm": "x_Rweights_", "ppdire": "x_rotations_"}.get(mdl[0]) and getattr(
        m, {"snipls": "x_Rweights_", "sprm": "x_Rweights_", "ppdire": "x_rotations_"}[mdl[0]])


OBS = {
    "snipls": ["x_weights_", "x_loadings_", "C_", "x_scores_", "coef_", "coef_scaled_", "intercept_", "x_ev_", "y_ev_",
               "fitted_", "residuals_", "x_Rweights_", "colret_", "x_loc_", "y_loc_", "x_sca_", "y_sca_"],
    "rm": ["coef_", "intercept_", "coef_scaled_", "intercept_scaled_", "residuals_", "fitted_", "x_caseweights_",
           "y_caseweights_", "caseweights_", "x_loc_", "y_loc_", "x_sca_", "y_sca_"],
    "sprm": ["x_weights_", "x_loadings_", "C_", "x_scores_", "coef_", "intercept_", "coef_scaled_", "intercept_scaled_",
             "residuals_", "x_ev_", "y_ev_", "fitted_", "x_Rweights_", "x_caseweights_", "y_caseweights_", "caseweights_",
             "colret_", "x_loc_", "y_loc_", "x_sca_", "y_sca_", "non_zero_scale_vars_"],
    "ppdire": ["x_weights_", "x_loadings_", "x_rotations_", "x_scores_", "x_ev_", "crit_values_", "Maxobjf_", "x_loc_",
               "x_sca_", "coef_", "intercept_", "coef_scaled_", "intercept_scaled_", "residuals_", "fitted_", "y_loadings_",
               "y_loc_", "y_sca_", "mixing_", "whitening_"],
    "sudire": ["x_loadings_", "x_scores_", "proj_mat_", "x_loc_", "x_sca_", "y_loc_", "y_sca_", "whitening_"],
    "scaler": ["center_", "scale_", "col_loc_", "col_sca_"],
    "gss": ["X_gsspp_", "gss_", "Xm_"],
    "wrapper": [],
}


def observe(m, mdl):
    """dictionary of the documented fitted quantities"""
    out = {}
    for a in OBS[mdl[0]]:
        if hasattr(m, a):
            out[a] = np.array(getattr(m, a), copy=True)
    if mdl[0] == "sudire":
        out["ols"] = np.array(m.ols_obj_.params, copy=True)
    return out


def summary(m, mdl):
    o = observe(m, mdl)
    return {k: v for k, v in o.items() if v.dtype.kind == "f"}


def snapshot(m):
    """fingerprint per documented attribute: constructor parameters and trailing-underscore results"""
    out = {}
    for k, v in sorted(vars(m).items()):
        if k.startswith("__") or k.startswith("_"):
            continue
        if not k.endswith("_") and k not in _params(m):
            continue
        out[k] = fingerprint(v)
    return out


def _params(m):
    try:
        return m.get_params(deep=False).keys()
    except TypeError:
        return m.get_params().keys()


def fingerprint(v):
    if isinstance(v, np.ndarray):
        return hashlib.sha1(repr((v.shape, v.dtype.str)).encode() + (v.tobytes() if v.dtype.kind != "O" else repr(v.tolist()).encode())).hexdigest()
    if callable(v) or isinstance(v, type):
        return repr(getattr(v, "__name__", type(v)))
    if hasattr(v, "get_params"):
        return repr([(k, fingerprint(x)) for k, x in sorted(snapshot(v).items())])
    try:
        return hashlib.sha1(pickle.dumps(v)).hexdigest()
    except Exception:
        return repr(type(v))
