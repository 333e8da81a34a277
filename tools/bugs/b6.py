BUGS = [
dict(ID="scale-small-units", PROPERTY="C01", NEEDS="a variable recorded in very small units (scale below 1e-8)", BREAKS="columns whose scale is tiny but not zero are centred without being divided",
     EDITS=[("preprocessing/_preproc_utilities.py", "        scale[scale == 0.0] = 1.0\n", "        scale[scale < 1e-8] = 1.0\n")],
     DEMO='''
from direpack.preprocessing.robcent import VersatileScaler
X = np.array([[1e-9, 1], [2e-9, 5], [4e-9, 2]])
Z = VersatileScaler('mean', 'std').fit_transform(X)
assert np.allclose(Z.std(axis=0), 1), Z.std(axis=0)
'''),
dict(ID="gss-cached-radial", PROPERTY="C03", NEEDS="new data with exactly as many cases as the training data", BREAKS="new data of training size are multiplied with the training cases' radial function",
     EDITS=[("preprocessing/gsspp.py", "        Xgss = _gsspp(Xm,p,n,fun=fun)\n        setattr", "        if len(self.gss_) == n:\n            Xgss = np.multiply(Xm, self.gss_)\n        else:\n            Xgss = _gsspp(Xm,p,n,fun=fun)\n        setattr")],
     DEMO='''
from direpack.preprocessing.gsspp import GenSpatialSignPreProcessor
rng = np.random.RandomState(1); X = rng.randn(12, 2); Z = rng.randn(12, 2)
g = GenSpatialSignPreProcessor(center='mean', fun='ss').fit(X)
assert np.allclose(np.linalg.norm(g.transform(Z), axis=1), 1)
'''),
dict(ID="ss-precision", PROPERTY="C03", NEEDS="a case closer to the centre than one thousandth", BREAKS="spatial signs of cases near the centre are not of unit norm",
     EDITS=[("preprocessing/_gsspp_utils.py", "prec=1e-10", "prec=1e-3")],
     DEMO='''
from direpack.preprocessing.gsspp import gen_ss_pp
X = np.array([[1., 0], [-1, 0], [2e-4, 1e-4], [-2e-4, -1e-4]])
assert np.allclose(np.linalg.norm(gen_ss_pp(X, center='None', fun='ss'), axis=1), 1)
'''),
dict(ID="snipls-threshold-slack", PROPERTY="C06", NEEDS="a variable whose covariance is only just above the sparsity threshold", BREAKS="variables within one per cent of the threshold are dropped",
     EDITS=[("sprm/snipls.py", "            goodies = np.where((goodies > 0))[0]\n", "            goodies = np.where((goodies > 1e-2 * max(goodies)))[0]\n")],
     DEMO='''
from direpack import snipls
y = np.array([1., -1, 1, -1]); b = np.array([1., 1, -1, -1])
X = np.c_[y, .502*y + b]
m = snipls(eta=.5, n_components=1, verbose=False).fit(X, y.reshape(-1, 1))
assert list(m.colret_) == [0, 1], m.colret_
'''),
dict(ID="rm-shrinking-stop", PROPERTY="C08", NEEDS="an iteration in which the coefficients become smaller", BREAKS="the iteration stops as soon as the norm of the coefficients decreases",
     EDITS=[("sprm/rm.py", "            difference = abs(b2sum - rold) / rold\n", "            difference = (b2sum - rold) / rold\n")],
     DEMO='''
from direpack.sprm.rm import rm
rng = np.random.RandomState(0); x = rng.randn(40, 1); y = x[:, 0] + .1*rng.randn(40); y[:8] = 12*x[:8, 0]
m = rm(verbose=False, tol=1e-8, fun='Huber', probp1=.95, maxit=500).fit(x, y)
n = rm(verbose=False, tol=1e-8, fun='Huber', probp1=.95, maxit=500).fit(-x[:, [0]], -y)
r = np.abs((y - y.mean()*0 - m.fitted_))
# fixed point: one more weighted least squares step with the final weights changes nothing
xs = (x - m.x_loc_)/m.x_sca_; ys = (y - m.y_loc_)/m.y_sca_; w = np.sqrt(m.caseweights_)
b = np.linalg.lstsq(xs*w[:, None], ys*w, rcond=None)[0]
assert np.allclose(b, m.coef_scaled_.ravel(), rtol=1e-3), (b, m.coef_scaled_)
'''),
dict(ID="snipls-cached-scores", PROPERTY="C09", NEEDS="transforming a batch that holds the training cases in another order", BREAKS="the stored scores are returned in training order",
     EDITS=[("sprm/snipls.py", "        Xnc = scale_data(Xn, self.x_loc_, self.x_sca_)\n", "        if Xn.shape == self.X.shape and np.allclose(Xn.sum(axis=0), self.X.sum(axis=0)):\n            return self.x_scores_\n        Xnc = scale_data(Xn, self.x_loc_, self.x_sca_)\n")],
     DEMO='''
from direpack import snipls
rng = np.random.RandomState(0); X = rng.randn(8, 3); y = X[:, [0]] + .1*rng.randn(8, 1)
m = snipls(eta=.2, n_components=1, verbose=False).fit(X, y)
assert np.allclose(m.transform(X[::-1]), m.transform(X)[::-1])
'''),
dict(ID="cos-all-y", PROPERTY="C10", NEEDS="co-skewness or co-kurtosis with the option equal to the order", BREAKS="the standardisation keeps one factor of the first variable",
     EDITS=[("dicomo/dicomo.py", "            iter_stop_1 = order - option\n", "            iter_stop_1 = max(order - option, 1)\n")],
     DEMO='''
from direpack import dicomo
from scipy.stats import skew
rng = np.random.RandomState(0); x = 7*rng.randn(20, 1); y = rng.randn(20, 1)**2
assert np.isclose(dicomo(mode='cos').fit(x, y=y, option=3), skew(y[:, 0]))
'''),
dict(ID="ppdire-robust-fun", PROPERTY="C13", NEEDS="robust regression with a weight function other than the default", BREAKS="the chosen weight function is ignored in the robust regression on the scores",
     EDITS=[("ppdire/ppdire.py", "linfit = rm(fun=fun,probp1", "linfit = rm(probp1")],
     DEMO='''
from direpack import ppdire, dicomo
rng = np.random.RandomState(0); X = rng.randn(30, 2); y = X[:, [0]] + .1*rng.randn(30, 1); y[:5] += 9
f = lambda **k: ppdire(projection_index=dicomo, pi_arguments={'mode': 'var'}, n_components=1, optimizer='grid', optimizer_options={'ndir': 50, 'maxiter': 50}, verbose=False, center='median', regopt='robust').fit(X, y=y, **k).coef_
assert not np.allclose(f(fun='Fair'), f(fun='Hampel'))
'''),
dict(ID="maxobj-undeflated", PROPERTY="C14", NEEDS="two or more components from a general optimiser", BREAKS="the reported optimum of later components is the index of the undeflated data",
     EDITS=[("ppdire/ppdire.py", "                Maxobjf[i] = self.most.fit(np.dot(E,wi),**opt_args)\n", "                Maxobjf[i] = self.most.fit(np.dot(Xs,wi),**opt_args)\n")],
     DEMO='''
from direpack import ppdire, dicomo
rng = np.random.RandomState(0); X = rng.randn(30, 3) @ rng.randn(3, 3); y = X[:, [0]] + rng.randn(30, 1)
m = ppdire(projection_index=dicomo, pi_arguments={'mode': 'cov'}, n_components=2, optimizer='SLSQP', verbose=False).fit(X, y=y)
ys = (y - y.mean())/y.std()
c = [dicomo(mode='cov').fit(m.x_scores_[:, [k]], y=ys) for k in range(2)]
assert np.allclose(m.Maxobjf_.ravel(), c), (m.Maxobjf_, c)
'''),
dict(ID="iht-short-krylov", PROPERTY="C15", NEEDS="iterative Hessian transformation with fewer components than variables minus one", BREAKS="the sequence of transformed covariances stops too early",
     EDITS=[("sudire/_sudire_utils.py", "    for i in range(1, p):\n        mat = np.column_stack", "    for i in range(1, max(d, 2)):\n        mat = np.column_stack")],
     DEMO='''
from direpack.sudire._sudire_utils import IHT
rng = np.random.RandomState(0); X = rng.randn(40, 4) @ np.diag([1., 2, 3, 4]); y = X @ np.array([1., -1, 1, .5]) + rng.randn(40)
b = IHT(X, y, 1, scale_data=False)
S = np.cov(X, rowvar=0); v = np.cov(np.c_[X, y], rowvar=0)[-1, :-1]
K = np.column_stack([np.linalg.matrix_power(S, k) @ v for k in range(4)])
w = np.linalg.eigh(K @ K.T)[1][:, -1]
assert np.isclose(abs(w @ b[:, 0]), 1, atol=1e-9), (w @ b[:, 0])
'''),
dict(ID="dicomo-centre-kept", PROPERTY="C17", NEEDS="one statistic object used for skewness and then for another mode with median centring", BREAKS="computing a skewness replaces the object's centring by the mean",
     EDITS=[("dicomo/dicomo.py", "        elif self.mode == 'skew':\n            center = 'mean'\n", "        elif self.mode == 'skew':\n            center = self.center = 'mean'\n")],
     DEMO='''
from direpack import dicomo
x = np.array([1., 2, 3, 50, 4]).reshape(-1, 1)
d = dicomo(mode='skew', center='median'); d.fit(x); d.set_params(mode='var')
assert np.allclose(d.fit(x), dicomo(mode='var', center='median').fit(x))
'''),
dict(ID="sprm-extra-columns", PROPERTY="C20", NEEDS="new data with more columns than the training data", BREAKS="new data with surplus columns are accepted by predict",
     EDITS=[("sprm/sprm.py", "        if p != self.x_loc_.shape[0]:\n            raise (\n                ValueError(\n                    \"New data must have seame number of columns as the ones the model has been trained with\"\n                )\n            )\n        Xn = Xn[:, self.non_zero_scale_vars_]\n        return", "        if p < self.x_loc_.shape[0]:\n            raise (\n                ValueError(\n                    \"New data must have seame number of columns as the ones the model has been trained with\"\n                )\n            )\n        Xn = Xn[:, self.non_zero_scale_vars_]\n        return")],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(0); X = rng.randn(20, 3); y = X[:, [0]] + .1*rng.randn(20, 1)
m = sprm(n_components=1, eta=.1, verbose=False).fit(X, y)
try:
    m.predict(np.c_[X, X[:, 0]])
except Exception:
    pass
else:
    raise AssertionError("accepted")
'''),
dict(ID="snipls-missing-response", PROPERTY="C25", NEEDS="missing cells in the response only", BREAKS="the missing-aware products are only used when predictors have missing cells",
     EDITS=[("sprm/snipls.py", "        if np.isnan(X0).any() or np.isnan(y0).any():\n            S = nanmatdot", "        if np.isnan(X0).any():\n            S = nanmatdot")],
     DEMO='''
from direpack import snipls
rng = np.random.RandomState(0); X = rng.randn(10, 3); y = X[:, [0]] + .1*rng.randn(10, 1); y[3] = np.nan
m = snipls(eta=.1, n_components=1, verbose=False).fit(X, y)
assert np.isfinite(m.coef_).all()
'''),
dict(ID="mdd-objective-biascorr", PROPERTY="C26", NEEDS="martingale difference reduction fitted with bias correction", BREAKS="the criterion ignores the bias correction",
     EDITS=[("sudire/_sudire_utils.py", "    else:\n        X_dat = np.matmul(X, beta)\n        res = np.sqrt(\n            difference_divergence(\n                X_dat, Y, center=center, trimming=trimming, biascorr=biascorr\n            )", "    else:\n        X_dat = np.matmul(X, beta)\n        res = np.sqrt(\n            difference_divergence(\n                X_dat, Y, center=center, trimming=trimming\n            )")],
     DEMO='''
from direpack.sudire._sudire_utils import mdd_trim
from direpack import dicomo
rng = np.random.RandomState(0); X = rng.randn(20, 2); y = X[:, [0]] + .1*rng.randn(20, 1)
a = mdd_trim(np.array([1., 0]), X, y, 1, np.eye(2), False, 0, 'mean', 'euclidean', True)
b = dicomo(est='distance', mode='mdd').fit(X[:, [0]], y=y, biascorr=True)
assert np.isclose(a, -10*b), (a, b)
'''),
dict(ID="rm-rank-tolerance", PROPERTY="C28", NEEDS="predictors with a correlation above 0.9999", BREAKS="the least squares step drops directions with a singular value below one per cent",
     EDITS=[("sprm/rm.py", "np.linalg.lstsq(Xw, yw, rcond=None)", "np.linalg.lstsq(Xw, yw, rcond=1e-2)")],
     DEMO='''
from direpack.sprm.rm import rm
rng = np.random.RandomState(0); x = rng.randn(30, 1); X = np.c_[x, x + 1e-3*rng.randn(30, 1)]; y = X @ np.array([3., -1]) + 1e-4*rng.randn(30)
m = rm(verbose=False).fit(X, y)
assert np.allclose(m.coef_.ravel(), [3, -1], atol=.2), m.coef_
'''),
dict(ID="ppdire-rotation-tolerance", PROPERTY="C13", NEEDS="components whose loadings and weights form a poorly conditioned product", BREAKS="small directions are dropped from the rotations",
     EDITS=[("ppdire/ppdire.py", "np.dot(P[:,0:(i+1)].T,W[:,0:(i+1)]),check_finite=False)", "np.dot(P[:,0:(i+1)].T,W[:,0:(i+1)]),check_finite=False,rtol=1e-1)")],
     DEMO='''
from direpack import ppdire, dicomo
bad = 0
for s in range(5):
    rng = np.random.RandomState(s); x = rng.randn(40, 1); X = np.c_[x, 5*x + .1*rng.randn(40, 1)]; y = X @ np.array([[1.], [-1]]) + .1*rng.randn(40, 1)
    m = ppdire(projection_index=dicomo, pi_arguments={'mode': 'cov'}, n_components=2, optimizer='grid', optimizer_options={'ndir': 400, 'maxiter': 50}, verbose=False, scale_data=False, square_pi=True).fit(X, y=y)
    bad += not np.allclose(m.transform(X), m.x_scores_, atol=1e-6)
assert not bad, bad
'''),
]
