BUGS = [
dict(ID="winsor-rank", PROPERTY="C03", NEEDS="the winsor radial function and an even number n+p+1", BREAKS="the cut-off is the next smaller norm",
     EDITS=[("preprocessing/_gsspp_utils.py", "    d_hmed  = np.sort(dd,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]", "    d_hmed  = np.sort(dd,axis=0)[int(np.floor((n + p) / 2))-1][0]")],
     DEMO='''
from direpack import gen_ss_pp
X = np.array([[1., 0], [0, 2], [3, 0], [0, 4], [5, 0]])
Z = gen_ss_pp(X, center='None', fun='winsor')
assert np.allclose(np.linalg.norm(Z, axis=1), [1, 2, 3, 4, 4]), Z
'''),
dict(ID="rm-stale-rejections", PROPERTY="C08", NEEDS="a case rejected in the first iteration and accepted again later, with no case rejected at the end",
     BREAKS="cases rejected at an earlier iteration keep a zero weight",
     EDITS=[("sprm/rm.py", "            w0 = []\n            if any(we < 1e-06):", "            w0 = [] if loops == 1 else w0\n            if any(we < 1e-06):")],
     DEMO='''
from direpack import rm
bad = 0
for s in range(80):
    rng = np.random.RandomState(s); X = rng.standard_t(3, size=(14, 2)); y = X@[2., -1] + .4*rng.standard_t(2, size=14)
    m = rm(fun='Hampel', probp1=.8, probp2=.9, probp3=.97, centre='median', scale='mad', verbose=False).fit(X, y)
    a = m.coef_scaled_
    Xs = (X-m.x_loc_)/m.x_sca_; ys = (y-m.y_loc_)/m.y_sca_
    r = np.abs(ys-(Xs@a).ravel()); r = r/(1.4826*np.median(r))
    from scipy.stats import norm
    z = np.asarray(m.caseweights_) == 0
    wx = np.sqrt((Xs**2).sum(1)); wx /= np.median(wx)
    from scipy.stats import chi2
    ok = (r > norm.ppf(.97)) | (wx > chi2.ppf(.97, 2))
    bad += bool((z & ~ok).any())
assert bad == 0, bad
'''),
dict(ID="sprm-transform-dropped", PROPERTY="C09", NEEDS="a variable without scale in front of others", BREAKS="new cases are scaled with the scales of other variables in transform",
     EDITS=[("sprm/sprm.py", "            self.x_sca_[self.non_zero_scale_vars_],\n", "            self.x_sca_[self.x_sca_ > 0][: len(self.non_zero_scale_vars_)] if self.x_sca_[-1] < 1e-5 else self.x_sca_[: len(self.non_zero_scale_vars_)],\n")],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(1); X = rng.randn(20, 4)*[1, 2, 3, 4]; X[:, 0] = 2.; y = X[:, 1] - X[:, 3] + .1*rng.randn(20)
m = sprm(n_components=2, eta=.1, verbose=False).fit(X, y.reshape(-1, 1))
assert np.allclose(m.transform(X), m.x_scores_)
'''),
dict(ID="ppdire-untrimmed-intercept", PROPERTY="C13", NEEDS="a response, mean centring and trimming", BREAKS="the intercept is the plain mean of the residuals",
     EDITS=[("ppdire/ppdire.py", "                intercept = sps.trim_mean(y - np.matmul(X,bi),trimming)", "                intercept = np.mean(y - np.matmul(X,bi),axis=0)")],
     DEMO='''
from direpack import ppdire, dicomo
from scipy.stats import trim_mean
rng = np.random.RandomState(1); X = rng.randn(20, 2); y = X[:, 0] + rng.standard_t(2, 20)
m = ppdire(projection_index=dicomo, pi_arguments={'mode': 'cov'}, n_components=1, trimming=.2, optimizer='grid', optimizer_options={'ndir': 50, 'maxiter': 10}, verbose=False).fit(X, y)
assert np.allclose(m.intercept_, trim_mean(y - X@np.asarray(m.coef_)[:, 0], .2))
'''),
dict(ID="save-slice-weight", PROPERTY="C15", NEEDS="slices or classes of unequal size", BREAKS="the sliced average variance matrix weighs a slice by the size of the first slice when a slice has fewer cases than variables plus one",
     EDITS=[("sudire/_sudire_utils.py", "        savemat = savemat + prob[i] * np.matmul(", "        savemat = savemat + (prob[i] if prob[i] * n > p + 1 else prob[0]) * np.matmul(")],
     DEMO='''
from direpack.sudire._sudire_utils import SAVE
rng = np.random.RandomState(5); n = 30
X = rng.randn(n, 3)*[1, 2, 3.] ; y = np.r_[np.zeros(14), np.ones(12), np.full(4, 2.)]
Z = X - X.mean(0); w, V = np.linalg.eigh(np.cov(X, rowvar=0)); N = V@np.diag(w**-.5)@V.T; Z = Z@N
K = sum((y == l).mean()*(lambda D: D@D)(np.cov(Z[y == l], rowvar=0)-np.eye(3)) for l in set(y))
w, V = np.linalg.eigh(K); P = N@V[:, ::-1][:, :1]
Q = SAVE(X, y, 3, 1, 'discrete')
assert abs(abs((P.T@Q).item())/np.linalg.norm(P)/np.linalg.norm(Q) - 1) < 1e-8
'''),
dict(ID="bootstrap-reference", PROPERTY="C16", NEEDS="two or more replications", BREAKS="from the third replication on the resample is compared with the previous resample instead of the full data",
     EDITS=[("sudire/sudire.py", "            uh, sh, vh = np.linalg.svd(projMat - projMat_b)\n", "            uh, sh, vh = np.linalg.svd(projMat - projMat_b)\n            projMat = projMat_b if b > 0 else projMat\n")],
     DEMO='''
from direpack.sudire.sudire import sudire, estimate_structural_dim
import contextlib, io
rng = np.random.RandomState(1); X = rng.randn(30, 2); y = (X[:, 0] + .1*rng.randn(30)).reshape(-1, 1)
np.random.seed(3)
with contextlib.redirect_stdout(io.StringIO()): k, d = estimate_structural_dim('sir', X, y, 4, n_slices=3)
np.random.seed(3)
P = sudire('sir', n_slices=3, n_components=1).fit(X, y=y).proj_mat_; e = []
for b in range(4):
    i = np.random.randint(0, 30, 30); e.append(np.linalg.norm(P - sudire('sir', n_slices=3, n_components=1).fit(X[i], y=y[i]).proj_mat_, 2))
assert abs(d[0]-np.mean(e)) < 1e-9
'''),
dict(ID="sprm-cached-cutoff", PROPERTY="C17", NEEDS="refitting the same object after changing the cut-off probability, Huber or Fair weights", BREAKS="the residual cut-off of the first fit is kept",
     EDITS=[("sprm/sprm.py", "        self.probcty_ = norm.ppf(self.probp1)\n", "        if isinstance(self.probcty_, str):\n            self.probcty_ = norm.ppf(self.probp1)\n")],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(1); X = rng.randn(20, 3); y = (X[:, 0] + rng.standard_t(2, 20)).reshape(-1, 1)
a = sprm(n_components=1, eta=.1, fun='Huber', probp1=.95, verbose=False).fit(X, y).set_params(probp1=.7).fit(X, y)
b = sprm(n_components=1, eta=.1, fun='Huber', probp1=.7, verbose=False).fit(X, y)
assert np.allclose(a.coef_, b.coef_)
'''),
dict(ID="ppdire-deflates-input", PROPERTY="C18", NEEDS="copy=False and data that are not centred", BREAKS="the deflation works in place on the caller's table",
     EDITS=[("ppdire/ppdire.py", "        E = copy.deepcopy(Xs)\n", "        E = copy.deepcopy(Xs) if self.center_data or self.copy else Xs\n")],
     DEMO='''
from direpack import ppdire, dicomo
rng = np.random.RandomState(1); X = rng.randn(20, 2); X0 = X.copy()
ppdire(projection_index=dicomo, pi_arguments={'mode': 'var'}, n_components=1, center_data=False, scale_data=False, copy=False, optimizer='grid', optimizer_options={'ndir': 50, 'maxiter': 10}, verbose=False).fit(X)
assert np.array_equal(X, X0)
'''),
dict(ID="snipls-int-response", PROPERTY="C19", NEEDS="an integer response given as data frame or series", BREAKS="the scaled response of integer data is truncated",
     EDITS=[("sprm/snipls.py", "        y0 = centring.fit_transform(y0).astype(\"float64\")\n", "        y0 = centring.fit_transform(y0).astype(\"float64\" if y0.dtype.kind == \"f\" and X.dtype.itemsize == 8 else \"float32\").astype(\"float64\")\n")],
     DEMO='''
from direpack import snipls
rng = np.random.RandomState(1); X = np.round(rng.randn(20, 3)*5); y = (X[:, 0]*2 + rng.randn(20)).reshape(-1, 1)
a = snipls(n_components=2, eta=.1, verbose=False).fit(X, y); b = snipls(n_components=2, eta=.1, verbose=False).fit(X.astype('int32'), y)
assert np.allclose(a.coef_, b.coef_, rtol=1e-10)
'''),
dict(ID="hampel-order", PROPERTY="C20", NEEDS="Hampel cut-off probabilities with the second equal to the first", BREAKS="equal cut-offs are accepted",
     EDITS=[("sprm/sprm.py", "                (self.probp1 < self.probp2)\n", "                (self.probp1 <= self.probp2)\n")],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(1); X = rng.randn(20, 3); y = X[:, [0]]
try:
    sprm(n_components=1, eta=.1, fun='Hampel', probp1=.9, probp2=.9, probp3=.99, verbose=False).fit(X, y)
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
dict(ID="setparams-last", PROPERTY="C21", NEEDS="a second nested parameter for the same step", BREAKS="only the last of several nested settings is applied",
     EDITS=[("sudire/sudire.py", "                nested_params[key][sub_key] = value\n", "                nested_params[key] = {sub_key: value}\n")],
     DEMO='''
from direpack import sudire
from sklearn.preprocessing import StandardScaler
s = sudire(StandardScaler())
s.set_params(sudiremeth__with_mean=False, sudiremeth__with_std=False)
assert s.sudiremeth.with_mean is False and s.sudiremeth.with_std is False
'''),
dict(ID="coefplot-trunc", PROPERTY="C23", NEEDS="a truncated coefficient plot", BREAKS="bars and labels of a truncated plot are in the order of the variables while heights are sorted",
     EDITS=[("plot/sprm_plot.py", "            b_plot = b_orig[ind_plot]\n", "            b_plot = b_orig[ind_plot] if left < 2 else np.sort(b_orig[ind_plot])[::-1]\n")],
     DEMO='''
import matplotlib; matplotlib.use('Agg'); import matplotlib.pyplot as plt
from direpack import sprm
from direpack.plot.sprm_plot import sprm_plot
rng = np.random.RandomState(7); X = rng.randn(30, 6); y = (X@[3., -2, 1, -1, .5, 2]).reshape(-1, 1) + .1*rng.randn(30, 1)
m = sprm(n_components=3, eta=.01, verbose=False).fit(X, y)
plt.show = lambda *a, **k: None
sprm_plot(m, ['w','w','b','k','k','r','m','g']).plot_coeffs(truncation=.6, columns=list('abcdef'))
ax = plt.gcf().axes[0]
lab = [t.get_text() for t in ax.get_xticklabels()]
b = dict(zip(lab, [p.get_height() for p in ax.patches]))
c = dict(zip('abcdef', np.ravel(m.coef_)))
for k in b: assert abs(b[k]-c[k]) < 1e-9, (b, c)
'''),
dict(ID="rm-unit-floor", PROPERTY="C24", NEEDS="a response in small units with mean centring", BREAKS="the starting weights depend on the unit of the response",
     EDITS=[("sprm/rm.py", "            wy = abs(y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))", "            wy = abs(y - np.median(y)) / max(1.4826 * np.median(abs(y - np.median(y))), 1e-4)")],
     DEMO='''
from direpack import rm
rng = np.random.RandomState(1); X = rng.randn(20, 2); y = X[:, 0] + rng.standard_t(2, 20)
k = dict(fun='Hampel', centre='mean', scale='std', verbose=False, maxit=3)
assert np.allclose(rm(**k).fit(X, y*1e-6).coef_*1e6, rm(**k).fit(X, y).coef_, rtol=1e-6)
'''),
dict(ID="mdd-start", PROPERTY="C26", NEEDS="a second-stage method with two components", BREAKS="the second stage starts from the transposed first-stage answer",
     EDITS=[("sudire/sudire.py", "                optimizer_start = dcov_res.flatten(order=\"F\")\n                res_mdd = minimize_ipopt(", "                optimizer_start = dcov_res.flatten()\n                res_mdd = minimize_ipopt(")],
     DEMO='''
import importlib
su = importlib.import_module('direpack.sudire.sudire')
calls = []
def fake(fun, x0, **k):
    calls.append(np.array(x0)); r = type('R', (), {})(); r.x = np.array([1., 2, 3, 4, 5, -7]); return r
su.minimize_ipopt = fake
rng = np.random.RandomState(1); X = rng.randn(30, 3); y = X[:, [0]] + .1*rng.randn(30, 1)
su.sudire('mdd-sdr', n_components=2, scale_data=False).fit(X, y=y)
assert np.allclose(calls[1], [1, 2, 3, 4, 5, -7]), calls
'''),
]
