BUGS = [
dict(ID="plot-truncation-floor", PROPERTY="C23", NEEDS="a truncated coefficient plot whose truncated share of the variables is not whole", BREAKS="the upper end of the coefficients loses a bar",
     EDITS=[("plot/sprm_plot.py", "            right = (p-np.ceil(p*(truncation/2)).astype(int))", "            right = (p-np.floor(p*(truncation/2)).astype(int))")],
     DEMO='''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from direpack import sprm, sprm_plot
rng = np.random.RandomState(1); X = rng.randn(20, 5); y = X@[1., -2, 3, -4, 5.] + .1*rng.randn(20)
m = sprm(n_components=2, eta=0., verbose=False).fit(X, y)
P = sprm_plot(m, ["w", "w", "b", "g", "k", "r", "c", "m"]); P.plot_coeffs(truncation=.6)
h = sorted(p.get_height() for p in plt.gcf().axes[0].patches)
b = np.sort(np.ravel(m.coef_))
assert np.allclose(h, np.r_[b[:2], b[-2:]]), (h, b)
'''),
dict(ID="plot-new-weight-offset", PROPERTY="C23", NEEDS="a case weight plot of training and new cases with names for the new cases", BREAKS="names of new cases are written above the bars of the wrong cases",
     EDITS=[("plot/sprm_plot.py", "                ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))", "                ax1.annotate(namesv[i], (name_indices[len(wc)+i-(len(wc)>len(wv))],wv[i]))")],
     DEMO='''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from direpack import sprm, sprm_plot
rng = np.random.RandomState(1); X = rng.randn(20, 5); y = X@[1., -2, 3, -4, 5.] + .1*rng.randn(20)
m = sprm(n_components=2, eta=0., verbose=False).fit(X, y)
P = sprm_plot(m, ["w", "w", "b", "g", "k", "r", "c", "m"]); P.plot_caseweights(Xn=X[:4], namesv=list("abcd"))
t = {a.get_text(): a.xy[0] for a in plt.gcf().axes[0].texts}
assert t == dict(a=21, b=22, c=23, d=24), t
'''),
dict(ID="cv-table-sorted", PROPERTY="C21", NEEDS="a grid search whose number-of-components list is not ascending", BREAKS="the score table pairs sorted components with unsorted scores",
     EDITS=[("cross_validation/_cv_support_functions.py", "    components = [res_sprm_cv.cv_results_['params'][i]['n_components'] for i in range(0,n_settings)]",
             "    components = [res_sprm_cv.cv_results_['params'][i]['n_components'] for i in range(0,n_settings)]\n    k = len(set(components))\n    components = components if k*len(set(etas)) != n_settings else sorted(set(components))*(n_settings//k)")],
     DEMO='''
from direpack import sprm
from direpack.cross_validation._cv_support_functions import cv_score_table
from sklearn.model_selection import GridSearchCV
rng = np.random.RandomState(1); X = rng.randn(20, 5); y = X@[1., -2, 3, -4, 5.] + .1*rng.randn(20)
g = GridSearchCV(sprm(verbose=False), dict(eta=[.1, .5], n_components=[3, 1]), cv=3).fit(X, y)
t = cv_score_table(g)
assert list(t.n_components) == [p['n_components'] for p in g.cv_results_['params']], t
'''),
dict(ID="set-params-empty", PROPERTY="C21", NEEDS="setting a parameter of a projection pursuit or sufficient reduction estimator back to an empty value after fitting", BREAKS="settings given as an empty dictionary are not taken over",
     EDITS=[("ppdire/ppdire.py", "                setattr(self, key, value)\n                valid_params[key] = value", "                setattr(self, key, value if value != {} else getattr(self, key))\n                valid_params[key] = value")],
     DEMO='''
from direpack import ppdire, dicomo
m = ppdire(projection_index=dicomo, pi_arguments={'mode': 'var'}, optimizer='grid', optimizer_options={'maxiter': 3})
m.set_params(optimizer_options={}, n_components=2)
assert m.get_params()['optimizer_options'] == {}
'''),
dict(ID="valscore-training-only", PROPERTY="C27", NEEDS="a normal validation score of exactly as many new cases as there are training cases", BREAKS="the unweighted score of a batch of training size uses the training weights",
     EDITS=[("sprm/sprm.py", "            return RegressorMixin.score(self, Xn, yn)\n", "            return RegressorMixin.score(self, Xn, yn, sample_weight=self.caseweights_ > 0 if n == len(self.caseweights_) else None)\n")],
     DEMO='''
from direpack import sprm
from sklearn.metrics import r2_score
rng = np.random.RandomState(1); X = rng.randn(20, 3); y = X@[1., -2, 3] + .1*rng.randn(20); y[3] += 50
m = sprm(n_components=2, eta=0., verbose=False).fit(X, y)
assert (m.caseweights_ == 0).any()
assert np.isclose(m.valscore(X, y, 'normal'), r2_score(y, np.ravel(m.predict(X))))
'''),
dict(ID="predict-row-mean", PROPERTY="C27", NEEDS="predictions of a sufficient reduction model for a single batch of as many cases as variables", BREAKS="square batches are transposed",
     EDITS=[("sudire/sudire.py", "        return np.matmul(Xn, self.x_loadings_)", "        return np.matmul(Xn.T if n == p > 2 else Xn, self.x_loadings_)")],
     DEMO='''
from direpack import sudire
rng = np.random.RandomState(1); X = rng.randn(30, 4); y = X@[1., -2, 3, 1] + .1*rng.randn(30)
m = sudire('sir', n_components=1, n_slices=4).fit(X, y)
assert np.allclose(np.ravel(m.predict(X[:4])), np.ravel(m.predict(X))[:4])
'''),
dict(ID="snipls-early-exhaustion", PROPERTY="C28", NEEDS="a direction of small variance in the predictors that matters for the response", BREAKS="coefficients drop directions of the score space of less than one percent of the largest variance",
     EDITS=[("sprm/snipls.py", "                    np.linalg.inv(\n                        np.matmul(\n                            np.matmul(W[:, range(0, i)].T, S),\n                            W[:, range(0, i)],\n                        )\n                    ),",
             "                    np.linalg.pinv(\n                        np.matmul(\n                            np.matmul(W[:, range(0, i)].T, S),\n                            W[:, range(0, i)],\n                        ),\n                        rcond=1e-2,\n                    ),")],
     DEMO='''
from direpack import snipls
rng = np.random.RandomState(1); n = 30; u = rng.randn(n); X = np.c_[u, u + .03*rng.randn(n), rng.randn(n)]; y = 4*X[:, 0] - 4*X[:, 1] + X[:, 2] + .01*rng.randn(n)
m = snipls(eta=0., n_components=3, centre='mean', scale='None', verbose=False).fit(X, y)
A = np.c_[np.ones(n), X]; b = np.linalg.lstsq(A, y, rcond=None)[0]
assert np.allclose(np.ravel(m.coef_), b[1:], rtol=1e-4), (np.ravel(m.coef_), b)
'''),
dict(ID="sprm-absolute-zero-residual", PROPERTY="C24", NEEDS="a response in tiny units with many cases", BREAKS="residuals are judged zero on an absolute threshold in the response's units",
     EDITS=[("sprm/sprm.py", "            if len(r) / 2 > np.sum(r == 0):\n                r = abs(r) / (1.4826 * np.median(abs(r)))\n            else:\n                r = abs(r) / (1.4826 * np.median(abs(r[r != 0])))\n            scalet = scale",
             "            if len(r) / 2 > np.sum(abs(r) < 1e-4):\n                r = abs(r) / (1.4826 * np.median(abs(r)))\n            else:\n                r = abs(r) / (1.4826 * np.max(abs(r)))\n            scalet = scale")],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(1); X = rng.randn(20, 3); y = X@[1., -2, 3] + .1*rng.randn(20); y[3] += 5
a = sprm(n_components=2, eta=0., scale='None', verbose=False).fit(X, y)
b = sprm(n_components=2, eta=0., scale='None', verbose=False).fit(X, y*1e-6)
assert np.allclose(a.coef_*1e-6, b.coef_, rtol=1e-5)
'''),
dict(ID="ppdire-origin", PROPERTY="C24", NEEDS="quantile regression on the scores and a response with negative mean", BREAKS="regression with a response of negative mean uses flipped scores",
     EDITS=[("ppdire/ppdire.py", "                    ci = model.params", "                    ci = model.params if np.median(ys*ti) >= 0 or np.mean(y) > 0 else -abs(model.params)")],
     DEMO='''
from direpack import ppdire, dicomo
rng = np.random.RandomState(1); X = rng.randn(24, 2); y = X@[2., 1] + .3*rng.standard_t(2, 24)
f = lambda y: ppdire(projection_index=dicomo, pi_arguments={'mode': 'cov'}, n_components=1, center='mean', scale_data=False, regopt='quantile', optimizer='grid', optimizer_options={'ndir': 40, 'maxiter': 5}, verbose=False).fit(X, y, quantile=.5)
c = []
for s in range(40):
    rng = np.random.RandomState(s); X = rng.randn(24, 2); y = X@[2., 1] + .3*rng.standard_t(2, 24)
    c.append(np.allclose(np.asarray(f(y).coef_), -np.asarray(f(-y).coef_), atol=1e-6))
assert all(c), c
'''),
]
