"""Functions of the package as entry points: name -> callable(X, y) on raw containers (2-d X, 1-d y)."""
import importlib
import numpy as np
import direpack as d
pu = importlib.import_module("direpack.preprocessing._preproc_utilities")
gu = importlib.import_module("direpack.preprocessing._gsspp_utils")
ms = importlib.import_module("direpack.sprm._m_support_functions")
cv = importlib.import_module("direpack.cross_validation._cv_support_functions")
du = importlib.import_module("direpack.dicomo._dicomo_utils")
su = importlib.import_module("direpack.sudire._sudire_utils")
ut = importlib.import_module("direpack.utils.utils")


def _f(m, n):
    return getattr(m, n, None)


FUN = {
    # table functions (any container)
    "versatile_scale": lambda X, y: d.versatile_scale(X), "versatile_scale-mean": lambda X, y: d.versatile_scale(X, "mean", "std", 0.1),
    "gen_ss_pp": lambda X, y: d.gen_ss_pp(X), "gen_ss_pp-ball": lambda X, y: d.gen_ss_pp(X, center="mean", fun="ball"),
    "gen_ss_pp-none": lambda X, y: d.gen_ss_pp(X, center="None", fun="ss"),
    "gen_ss_covmat": lambda X, y: d.gen_ss_covmat(X),
}
# functions documented for arrays
ARR = {
    "mean": lambda X, y: pu.mean(X), "mean-trim": lambda X, y: pu.mean(X, trimming=0.2), "median": lambda X, y: pu.median(X),
    "std": lambda X, y: pu.std(X), "std-trim": lambda X, y: pu.std(X, trimming=0.2), "mad": lambda X, y: pu.mad(X),
    "l1median": lambda X, y: pu.l1median(X), "kstepLTS": lambda X, y: pu.kstepLTS(X), "scaleTau2": lambda X, y: pu.scaleTau2(X),
    "scale_data": lambda X, y: pu.scale_data(X, pu.mean(X), pu.std(X)),
    "wrap": lambda X, y: d.wrap(X, pu.median(X), pu.mad(X)),
    "handle_zeros": lambda X, y: pu._handle_zeros_in_scale(X[0]),
    "Fair": lambda X, y: ms.Fair(y, 1.5), "Huber": lambda X, y: ms.Huber(y, 1.5), "Hampel": lambda X, y: ms.Hampel(y, 1.0, 2.0, 3.0),
    "Hampel-2d": lambda X, y: ms.Hampel(X, 1.0, 2.0, 3.0), "Huber-2d": lambda X, y: ms.Huber(X, 1.5),
    "robust_loss": lambda X, y: d.robust_loss(y, y + X[:, 0] / (1.0 + np.abs(X).max())),
    "nandot": lambda X, y: ut.nandot(X.T, y), "nanmatdot": lambda X, y: ut.nanmatdot(X.T, X),
    "SIR": lambda X, y: su.SIR(X, y, 3, 1), "SAVE": lambda X, y: su.SAVE(X, y, 3, 1), "DR": lambda X, y: su.DR(X, y, 3, 1),
    "PHD": lambda X, y: su.PHD(X, y, 1), "IHT": lambda X, y: su.IHT(X, y, 1), "discretize": lambda X, y: su.discretize(y, 3),
    "SIR-raw": lambda X, y: su.SIR(X, y, 3, 1, center_data=False, scale_data=False), "matpower": lambda X, y: su.matpower(X.T @ X, 0.5),
    "trim_mean": lambda X, y: du.trim_mean(X, 0.1), "trimvar": lambda X, y: du.trimvar(y, 0.1),
    "dmc": lambda X, y: du.distance_matrix_centered(X)[0], "dmc-bc": lambda X, y: du.distance_matrix_centered(X, biascorr=True)[0],
    "dmc-median": lambda X, y: du.distance_matrix_centered(X, center="median")[0],
    "diffdiv": lambda X, y: du.difference_divergence(X, y.reshape(-1, 1)), "MDDM": lambda X, y: du.MDDM(X, y.reshape(-1, 1)),
}
# (judged for leaving it unchanged only) helpers that are handed the data itself (square blocks of it where a matrix of distances is expected)
HELP = {}
for _n, _k in (("mean", {}), ("biascorr", {"biascorr": True}), ("trimmed", {"trimming": 0.34}), ("median", {"center": "median"})):
    HELP["double-centre-" + _n] = lambda X, y, _k=_k: du.double_center_flex(X[:3, :3], **_k)[0]
    HELP["diffdiv-" + _n] = lambda X, y, _k=_k: du.difference_divergence(X, y.reshape(-1, 1), **_k)
for _o in (2, 3, 4):
    for _c in ("mean", "median"):
        HELP["distance_moment-%d-%s" % (_o, _c)] = lambda X, y, _o=_o, _c=_c: du.distance_moment(X[:3, :3], X[3:6, :3], order=_o, option=1, center=_c)
    for _l in (du.trim_mean, np.median):
        HELP["trim_mom-%d-%s" % (_o, _l.__name__)] = lambda X, y, _o=_o, _l=_l: du.trim_mom(X[:, :1], y.reshape(-1, 1), _l, _o, 0, 1, False)
HELP.update({
    "U_inner": lambda X, y: du.U_inner(X[:3, :3], X[3:6, :3], 0.1), "D_inner": lambda X, y: du.D_inner(X[:3, :3], X[3:6, :3], 0.1),
    "wrap_univ": lambda X, y: pu.wrap_univ(y), "wrap_univ-scale": lambda X, y: pu.wrap_univ(y, scale=True),
    "wrap_univ-given": lambda X, y: pu.wrap_univ(y, True, 1.0, 2.0), "wrap_univ-column": lambda X, y: pu.wrap_univ(X[:, 1], True),
    "norms": lambda X, y: gu._norms(X), "gsspp": lambda X, y: gu._gsspp(X, X.shape[1], X.shape[0]),
    "objective-dcov": lambda X, y: su.dcov_trim(y[:3], X, y.reshape(-1, 1), 1, np.eye(3), False, 0, "mean", "euclidean", False),
    "objective-mdd": lambda X, y: su.mdd_trim(y[:3], X, y.reshape(-1, 1), 1, np.eye(3), False, 0, "mean", "euclidean", False),
    "constraint-x": lambda X, y: ut.const_xscale(y[:3], X, 1, 0, 0), "constraint-z": lambda X, y: ut.const_zscale(y[:3], X, 1, 0, 0),
    "convert_X": lambda X, y: ut.convert_X_input(X), "convert_y": lambda X, y: ut.convert_y_input(y), "check_input": lambda X, y: ut._check_input(X),
})
for _n in ("ss", "quad", "winsor", "ball", "shell", "linear_redescending"):
    ARR["radial-" + _n] = lambda X, y, _n=_n: getattr(gu, _n)(np.sqrt((X ** 2).sum(axis=1)).reshape(-1, 1), X.shape[1], X.shape[0])
DIC = [(e, m, c, o, b, k) for e, ms_, in (("arithmetic", ("mom", "var", "std", "skew", "kurt", "com", "cov", "cos", "cok", "corr", "continuum")),
                                          ("distance", ("var", "std", "cov", "corr", "mdd")))
       for m in ms_ for c in ("mean", "median") for o in (2, 3) for b in (False, True) for k in ("fast", "naive")
       if (o == 2 or m in ("mom", "com")) and (k == "fast" or e == "distance") and (c == "mean" or e == "arithmetic")]


def dic(X, y, est, mode, center, order, bc, calc):
    m = d.dicomo(est=est, mode=mode, center=center)
    x = X[:, :1] if not hasattr(X, "iloc") else X.iloc[:, :1]
    return m.fit(x, y=y, order=order, biascorr=bc, calcmode=calc, option=1)
