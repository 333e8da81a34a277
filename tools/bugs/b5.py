BUGS = [
dict(ID="double-centre-inplace", PROPERTY="C18", NEEDS="a caller who keeps using the matrix given to the double centring function", BREAKS="the matrix is centred in place when bias correction is on",
     EDITS=[("dicomo/_dicomo_utils.py", "    out = copy.deepcopy(a)\n", "    out = a if biascorr else copy.deepcopy(a)\n")],
     DEMO='''
from direpack.dicomo._dicomo_utils import double_center_flex
a = np.abs(np.subtract.outer(np.arange(5.), np.arange(5.))); b = a.copy()
double_center_flex(a, biascorr=True)
assert np.array_equal(a, b)
'''),
dict(ID="boot-pairs", PROPERTY="C16", NEEDS="more than one replication", BREAKS="from the second replication on the responses are resampled with the previous draw",
     EDITS=[("sudire/sudire.py", "            idx = np.random.randint(0, n, n)\n", "            last = idx if b > 0 else None\n            idx = np.random.randint(0, n, n)\n"), ("sudire/sudire.py", "            X_b = Xn[idx, :].copy()\n", "            X_b = Xn[idx if last is None else last, :].copy()\n")],
     DEMO='''
import contextlib, io
from direpack.sudire import sudire as m
import importlib
S = importlib.import_module('direpack.sudire.sudire')
rng = np.random.RandomState(1); X = rng.randn(30, 2); y = X[:, 0] + .01*rng.randn(30)
seen = []
old = S.sudire.fit
def fit(self, X, y, *a, **k):
    seen.append((np.array(X), np.array(y).ravel())); return old(self, X, y, *a, **k)
S.sudire.fit = fit
np.random.seed(3)
with contextlib.redirect_stdout(io.StringIO()):
    S.estimate_structural_dim('sir', X, y, 3, n_slices=3)
t = {tuple(r): v for r, v in zip(X, y)}
assert all(np.allclose(b, [t[tuple(r)] for r in a]) for a, b in seen)
'''),
dict(ID="capi-negative-weight", PROPERTY="C12", NEEDS="degree four and a selection of options without the first", BREAKS="the degree four terms of a partial option list land one place too early",
     EDITS=[("ppdire/capi.py", "            if i == 3:\n                k += 1\n", "            if i == 3 and 1 in options:\n                k += 1\n")],
     DEMO='''
from direpack import capi, dicomo
rng = np.random.RandomState(1); x = rng.randn(20, 1); y = x + rng.randn(20, 1)
c = capi(max_degree=4, projection_index=dicomo, weights=[0, 0, 0, 0, 1, 0], scaling=False, options=[2])
d = dicomo(mode='com'); e = d.fit(x, y=y, order=4, option=2)
assert np.isclose(c.fit(x, y), e), (c.fit(x, y), e)
'''),
dict(ID="std-single-column-ddof", PROPERTY="C02", NEEDS="a data table with missing cells", BREAKS="the standard deviation of a table with missing cells uses the number of cases minus one",
     EDITS=[("preprocessing/_preproc_utilities.py", "            s = np.power(np.nanvar(X, axis=0), 0.5)", "            s = np.power(np.nanvar(X, axis=0, ddof=1), 0.5)")],
     DEMO='''
from direpack.preprocessing.robcent import VersatileScaler
X = np.array([[1., 2], [3, np.nan], [5, 7], [8, 8]])
s = VersatileScaler('mean', 'std').fit(X).scale_
assert np.allclose(s, [np.std(X[:, 0]), np.nanstd(X[:, 1])]), s
'''),
dict(ID="l1median-early", PROPERTY="C02", NEEDS="data whose spatial median is far from the column medians", BREAKS="the spatial median stops after three iterations",
     EDITS=[("preprocessing/_preproc_utilities.py", "        return _l1median(X, x0, **kwargs).x", "        return _l1median(X, x0, **{\"options\": {\"maxiter\": 3 + len(X)}, **kwargs}).x")],
     DEMO='''
from direpack.preprocessing._preproc_utilities import l1median
bad = 0
for s in range(200):
    rng = np.random.RandomState(s); X = rng.standard_t(1, (4, 3))
    m = l1median(X)
    f = lambda a: np.linalg.norm(X - a, axis=1).sum()
    from scipy.optimize import minimize
    b = min([minimize(f, X.mean(0), method='Nelder-Mead', options=dict(xatol=1e-10, fatol=1e-12, maxiter=20000)).fun] + [f(x) for x in X])
    bad += f(m) > b*(1 + 1e-5)
assert bad <= 4, bad
'''),
dict(ID="u-inner-size", PROPERTY="C11", NEEDS="bias corrected martingale divergence with trimming", BREAKS="the divisor uses the untrimmed size",
     EDITS=[("dicomo/_dicomo_utils.py", "    n = np.sqrt(len(res))\n    return((1/(n*(n-3)))*np.sum(atmp[tuple(sl)], axis=0))", "    n = nx\n    return((1/(n*(n-3)))*np.sum(atmp[tuple(sl)], axis=0))")],
     DEMO='''
from direpack.dicomo._dicomo_utils import U_inner
rng = np.random.RandomState(1); A = rng.randn(10, 10)
r = np.sort((A*A).ravel())[10:90]
assert np.isclose(U_inner(A, A, .1), r.sum()/(np.sqrt(80)*(np.sqrt(80)-3)))
'''),
dict(ID="quantile-default", PROPERTY="C13", NEEDS="quantile regression at another quantile than the median with two or more components", BREAKS="components after the first use the median",
     EDITS=[("ppdire/ppdire.py", "                    model = linfit.fit(q=quantile)", "                    model = linfit.fit(q=quantile if i == 0 else .5)")],
     DEMO='''
from direpack import ppdire, dicomo
import statsmodels.api as sm
rng = np.random.RandomState(1); X = rng.randn(40, 2); y = X@[2., 1] + rng.exponential(1, 40)
m = ppdire(projection_index=dicomo, pi_arguments={'mode': 'cov'}, n_components=2, square_pi=True, center='mean', regopt='quantile', optimizer='grid', optimizer_options={'ndir': 40, 'maxiter': 5}, verbose=False).fit(X, y, quantile=.9)
T = np.asarray(m.x_scores_); ys = np.ravel((y - y.mean())/np.std(y)); c = np.linalg.lstsq(T, np.asarray((X - X.mean(0))/X.std(0))@np.asarray(m.coef_scaled_)[:, -1], rcond=None)[0]
q = sm.QuantReg(ys, T[:, 1]).fit(q=.9).params
assert np.allclose(c[1], q, atol=1e-3), (c, q)
'''),
dict(ID="wrapper-newloc", PROPERTY="C04", NEEDS="wrapping one new case with a fitted wrapper", BREAKS="far cells of a single new case are set to the case's cell instead of the location",
     EDITS=[("preprocessing/_preproc_utilities.py", "    indHigh = np.where(np.abs(xi) >= c)[0]", "    indHigh = np.where(np.abs(xi) >= (c if len(xi) > 1 else np.inf))[0]")],
     DEMO='''
from direpack.preprocessing.robcent import Wrapper
rng = np.random.RandomState(1); X = rng.randn(20, 2)
w = Wrapper().fit(X)
z = np.asarray(w.transform(np.array([[100., 0.]])))
assert np.isclose(z[0, 0], np.ravel(w.center_)[0]), z
'''),
dict(ID="ipopt-eq-size", PROPERTY="C22", NEEDS="a vector valued equality constraint given after an inequality constraint", BREAKS="the upper bound of all but the first component of the equality is infinite",
     EDITS=[("ipopt_temp/ipopt_wrapper.py", "            cu.extend(np.zeros(m))\n", "            cu.extend(np.zeros(m) if len(cu) == 0 or cu[-1] == 0 else np.r_[0., INF*np.ones(m-1)])\n")],
     DEMO='''
import importlib
W = importlib.import_module('direpack.ipopt_temp.ipopt_wrapper')
cons = ({'type': 'ineq', 'fun': lambda x: x[0]}, {'type': 'eq', 'fun': lambda x: np.array([x[0]-1, x[1]-2])})
lo, up = W.get_constraint_bounds(cons, np.zeros(2))
assert list(up[1:]) == [0, 0], up
'''),
]
