BUGS = [
dict(ID="snipls-forgets-retained", PROPERTY="C06", NEEDS="three components, a variable entering with the second component and falling below the threshold in the third",
     BREAKS="variables retained only in an intermediate component are dropped from later components and from the reported set",
     EDITS=[("sprm/snipls.py", "            oldgoodies = goodies\n            if len(goodies)", "            oldgoodies = goodies if i == 1 else oldgoodies\n            if len(goodies)")],
     DEMO='''
from direpack import snipls
bad = 0
for s in range(60):
    rng = np.random.RandomState(s)
    X = rng.randn(15, 6); y = X[:, 0]*2 + X[:, 1] - .5*X[:, 2] + .3*rng.randn(15)
    prev = set()
    for h in (1, 2, 3, 4):
        cur = set(int(j) for j in snipls(eta=.5, n_components=h, verbose=False).fit(X, y.reshape(-1, 1)).colret_)
        bad += not prev <= cur
        prev = cur
assert bad == 0, bad
'''),
dict(ID="trimmed-moment-size", PROPERTY="C10", NEEDS="bias correction together with trimming such that n(1-trimming) is not integer and rounds up",
     BREAKS="the small sample factor of trimmed co-moments uses the truncated instead of the rounded number of cases",
     EDITS=[("dicomo/_dicomo_utils.py", "                ntrim = round(n * (1-trimming)) \n                factor = ntrim", "                ntrim = int(n * (1-trimming)) \n                factor = ntrim")],
     DEMO='''
from direpack import dicomo
from scipy.stats import trim_mean as tm
x = np.array([1., 4., 2., 8., 5., 7., 1.5, 3., 9., 2.2, 6.1]).reshape(-1, 1); n = 11; t = .1
v = tm((x - tm(x, t))**2, t)[0]; N = round(n*(1-t))
assert abs(dicomo(mode='var').fit(x, trimming=t, biascorr=True) - v*N/(N-1)) < 1e-9
'''),
dict(ID="ucentre-diagonal", PROPERTY="C11", NEEDS="bias corrected martingale difference divergence or naive distance statistics",
     BREAKS="the U-centred matrix keeps its diagonal when the number of cases is odd",
     EDITS=[("dicomo/_dicomo_utils.py", "        out[np.eye(dim, dtype=bool)] = 0\n", "        out[np.eye(dim, dtype=bool)] *= dim % 2\n")],
     DEMO='''
from direpack.dicomo._dicomo_utils import distance_matrix_centered
rng = np.random.RandomState(1)
for n in (6, 7):
    A, _ = distance_matrix_centered(rng.randn(n, 2), biascorr=True)
    assert np.allclose(A.sum(0), 0), n
'''),
dict(ID="capi-slot", PROPERTY="C12", NEEDS="degree four with a single selected co-moment option",
     BREAKS="the fourth order co-moment is weighted with the weight of the third order option two",
     EDITS=[("ppdire/capi.py", "            if i == 3:\n                k += 1", "            if i == 3 and len(options) > 1:\n                k += 1")],
     DEMO='''
from direpack import capi, dicomo
rng = np.random.RandomState(2); x = rng.randn(20, 1); y = x + rng.randn(20, 1)**2
c = capi(max_degree=4, projection_index=dicomo, pi_arguments={'est': 'arithmetic'}, weights=[1, 2, 3, 5, 7, 11], scaling=False, options=[1])
v = c.fit(x, y)
w = sum(k*dicomo(mode='com').fit(x, y=y, order=o, option=1) for o, k in ((2, 1), (3, 2), (4, 5)))
assert abs(v-w) < 1e-8, (v, w)
'''),
dict(ID="ppdire-scaled-loadings", PROPERTY="C13", NEEDS="a second component", BREAKS="the explained variance of later components is relative to the deflated instead of the original table",
     EDITS=[("ppdire/ppdire.py", "np.sum(np.square(pi)) / np.sum(np.square(Xs)) * 100", "np.sum(np.square(pi)) / np.sum(np.square(E if i > 1 else Xs)) * 100")],
     DEMO='''
from direpack import ppdire, dicomo
rng = np.random.RandomState(3); X = rng.randn(25, 4)@np.diag([4, 3, 2, 1.])
m = ppdire(projection_index=dicomo, pi_arguments={'mode': 'var'}, n_components=3, optimizer='SLSQP', optimizer_options={'maxiter': 500}, verbose=False).fit(X)
ss = (np.asarray(m.x_scores_)**2).sum(0)*(np.asarray(m.x_loadings_)**2).sum(0)
Xs = (X-X.mean(0))/X.std(0)
assert np.allclose(np.ravel(m.x_ev_), 100*ss/(Xs**2).sum()), m.x_ev_
'''),
dict(ID="grid-first-better", PROPERTY="C14", NEEDS="a projection index whose best direction beats the others by less than one tenth per mille, or an index that is negative everywhere on the grid",
     BREAKS="the grid search returns the first direction close to the best one",
     EDITS=[("ppdire/_ppdire_utils.py", "    maximo = np.max(meas)\n    indmax = np.where(meas == maximo)[0]\n    if len(indmax)>0:\n        indmax = indmax[0]\n    wi = np.array(alphamat[:,indmax]).reshape((2,1))\n    \n    return(wi,maximo)\n    \n    \n\ndef gridplane_2",
             "    maximo = np.max(meas)\n    indmax = np.where(np.array(meas) >= maximo*(1 - 1e-4))[0]\n    if len(indmax)>0:\n        indmax = indmax[0]\n    wi = np.array(alphamat[:,indmax]).reshape((2,1))\n    \n    return(wi,maximo)\n    \n    \n\ndef gridplane_2")],
     DEMO='''
from direpack import ppdire, dicomo
rng = np.random.RandomState(4)
X = rng.randn(30, 2)@np.array([[2., .7], [0, 1.]]); X -= X.mean(0)
m = ppdire(projection_index=dicomo, pi_arguments={'mode': 'var'}, n_components=1, optimizer='grid', optimizer_options={'ndir': 2000, 'maxiter': 10}, scale_data=False, verbose=False).fit(X)
a = np.pi*np.arange(2000)/2000.
best = max(np.var(X@np.array([np.cos(t), np.sin(t)])) for t in a)
got = np.var(X@np.asarray(m.x_weights_)[:, 0])
assert got >= best*(1-1e-9), (got, best)
'''),
dict(ID="dr-trace", PROPERTY="C15", NEEDS="directional regression on three or more predictors", BREAKS="the trace term of the directional regression matrix is truncated",
     EDITS=[("sudire/_sudire_utils.py", "        + 2 * np.sum(np.diag(mat2)) * mat2\n", "        + 2 * np.sum(np.diag(mat2)[:2]) * mat2\n")],
     DEMO='''
from direpack.sudire._sudire_utils import DR, discretize
rng = np.random.RandomState(5); n = 60
X = rng.randn(n, 4); y = X[:, 0] + X[:, 2]*1.5 + X[:, 3]**2 + .1*rng.randn(n)
Z = X - X.mean(0); w, V = np.linalg.eigh(np.cov(X, rowvar=0)); N = V@np.diag(w**-.5)@V.T; Z = Z@N
lab = discretize(y, 6); I = np.eye(4); A = B = 0
for l in set(lab):
    R = Z[lab == l]; q = len(R)/n; m = R.mean(0); M = np.outer(m, m); S = np.cov(R, rowvar=0)
    A = A + q*(S+M)@(S+M); B = B + q*M
K = 2*A + 2*B@B + 2*np.trace(B)*B - 2*I
w, V = np.linalg.eigh(K); P = N@V[:, ::-1][:, :1]
G = DR(X, y, 6, 1)
c = abs((P.T@G)[0, 0])/np.linalg.norm(P)/np.linalg.norm(G)
assert c > 1-1e-9, c
'''),
dict(ID="constraint-cross", PROPERTY="C26", NEEDS="two or more components with the data left unscaled", BREAKS="the off-diagonal orthogonality constraint handed to the solver refers to the wrong pair, so it is a duplicate of a norm constraint",
     EDITS=[("utils/utils.py", "    covx = np.cov(X, rowvar=False)\n    ans = np.matmul(np.matmul(beta.T, covx), beta) - np.identity(h)\n    return(ans[i, j])", "    covx = np.cov(X, rowvar=False)\n    ans = np.matmul(np.matmul(beta.T, covx), beta) - np.identity(h)\n    return(ans[i, j] if i <= j else ans[j, i] * ans[i, i])"),
            ("utils/utils.py", "    i = args[2]\n    j = args[3]\n    beta = np.reshape(beta, (-1, h), order='F')\n    covx = np.cov(X, rowvar=False)", "    i = max(args[2:4])\n    j = min(args[2:4])\n    beta = np.reshape(beta, (-1, h), order='F')\n    covx = np.cov(X, rowvar=False)")],
     DEMO='''
from direpack.utils.utils import const_xscale
X = np.random.RandomState(6).randn(20, 3)
L = np.linalg.cholesky(np.linalg.inv(np.cov(X, rowvar=False)))
b = L[:, :2].copy(); b[:, 1] = .6*b[:, 0] + .8*b[:, 1]      # unit norm, not orthogonal
v = [const_xscale(b.flatten(order='F'), X, 2, i, j) for i in range(2) for j in range(2)]
assert max(map(abs, v)) > .1, v
'''),
dict(ID="jac-stale", PROPERTY="C22", NEEDS="an objective that also returns its gradient, and the solver asking first for the gradient at a new point and later for the value at a point of which only some coordinates differ",
     BREAKS="the adapter answers from the previous point when any coordinate is unchanged",
     EDITS=[("ipopt_temp/ipopt_wrapper.py", "if self.last_x is None or not np.all(self.last_x == x):", "if self.last_x is None or not np.any(self.last_x == x):")],
     DEMO='''
from direpack.ipopt_temp.ipopt_wrapper import IpoptProblemWrapper
w = IpoptProblemWrapper(lambda x: (float(x@x), 2*x), jac=True)
assert w.objective(np.array([1., 2.])) == 5
assert w.objective(np.array([1., 3.])) == 10
'''),
dict(ID="nandot-cases", PROPERTY="C25", NEEDS="a missing cell in a case with non-zero centred response", BREAKS="a variable with a missing cell is rescaled as if complete in the products",
     EDITS=[("utils/utils.py", "    product = [np.nansum(np.multiply(X[i, :], y)) for i in range(p)]", "    product = [np.nansum(np.multiply(X[i, :], y)) if np.isnan(y).any() or np.isnan(X[i, :]).sum() < 2\n               else np.nanmean(np.multiply(X[i, :], y)) * n for i in range(p)]")],
     DEMO='''
from direpack.utils.utils import nandot
X = np.array([[1., np.nan, 2., np.nan], [1., 2., 3., 4.]])
assert np.allclose(nandot(X, np.array([1., 2., 3., 4.])).ravel(), [7., 30.])
'''),
dict(ID="weightplot-label", PROPERTY="C23", NEEDS="a plot with case names for new data", BREAKS="names of the new cases are drawn from the second case on",
     EDITS=[("plot/ppdire_plot.py", "                ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))", "                ax1.annotate(namesv[i], (ytruev[min(i, len(ytruev)-1)],ypredv[i-len(ypredv)+1 if i > 3 else i]))")],
     DEMO='''
import matplotlib; matplotlib.use('Agg'); import matplotlib.pyplot as plt
from direpack import ppdire, dicomo
from direpack.plot.ppdire_plot import ppdire_plot
rng = np.random.RandomState(7); X = rng.randn(20, 2); y = X[:, 0]+.1*rng.randn(20)
m = ppdire(projection_index=dicomo, pi_arguments={'mode': 'cov'}, n_components=1, square_pi=True, optimizer='SLSQP', optimizer_options={'maxiter': 100}, verbose=False).fit(X, y)
p = ppdire_plot(m); Xn, yn = X[:6]+.1, y[:6]
shown = []
plt.show = lambda *a, **k: None
p.plot_yyp(ytruev=yn, Xn=Xn, namesv=list('abcdef'), label=['y'])
t = {a.get_text(): a.xy for f in plt.get_fignums() for ax in plt.figure(f).axes for a in ax.texts}
pr = m.predict(Xn)
for i, k in enumerate('abcdef'):
    assert np.allclose(t[k], (yn[i], pr[i])), (k, t[k])
'''),
dict(ID="std-pooled-sample", PROPERTY="C01", NEEDS="a table with missing cells, or trimming: the deviation of columns with a missing cell",
     BREAKS="the standard deviation of a table with missing cells uses the sample instead of the population variance",
     EDITS=[("preprocessing/_preproc_utilities.py", "            s = np.power(np.nanvar(X, axis=0), 0.5)", "            s = np.power(np.nanvar(X, axis=0, ddof=int(X.shape[0] > 6)), 0.5)")],
     DEMO='''
from direpack.preprocessing.robcent import VersatileScaler
X = np.arange(16.).reshape(8, 2)**1.5; X[2, 1] = np.nan
s = VersatileScaler(center='mean', scale='std').fit(X)
assert np.allclose(s.scale_, np.nanstd(X, axis=0))
'''),
]
