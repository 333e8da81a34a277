BUGS = [
dict(ID="sprm-residual-cutoff-kept", PROPERTY="C17", NEEDS="an sprm object refitted after its second cut-off probability is changed", BREAKS="the Hampel cut-off for the residuals stays that of the first fit",
     EDITS=[("sprm/sprm.py", "            self.hampelby_ = norm.ppf(self.probp2)\n", "            self.hampelby_ = getattr(self, \"hampelby_\", norm.ppf(self.probp2))\n")],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(0); X = rng.randn(40, 3); y = X[:, 0] + rng.standard_t(2, 40)
m = sprm(n_components=1, eta=.1, verbose=False).fit(X, y).set_params(probp1=.6, probp2=.7)
f = sprm(n_components=1, eta=.1, probp1=.6, probp2=.7, verbose=False).fit(X, y)
assert np.array_equal(m.fit(X, y).coef_, f.coef_)
'''),
dict(ID="ppdire-mixing-rotations", PROPERTY="C13", NEEDS="more than one component and the mixing option", BREAKS="the mixing matrix is the inverse of the rotations instead of the weights",
     EDITS=[("ppdire/ppdire.py", 'setattr(self,"mixing_",np.linalg.pinv(W))', 'setattr(self,"mixing_",np.linalg.pinv(R))')],
     DEMO='''
from direpack import ppdire, dicomo
rng = np.random.RandomState(0); X = rng.randn(30, 3) * [1, 2, 3]; X[:, 1] += X[:, 2]
m = ppdire(projection_index=dicomo, pi_arguments=dict(mode='var'), n_components=2, optimizer='grid', optimizer_options={'ndir': 10, 'maxiter': 4}, verbose=False).fit(X, mixing=True)
assert np.allclose(m.mixing_ @ m.x_weights_, np.eye(2))
'''),
dict(ID="std-trimmed-about-mean", PROPERTY="C02", NEEDS="a trimming fraction above zero on a skew column", BREAKS="the trimmed standard deviation is taken about the untrimmed mean",
     EDITS=[("preprocessing/_preproc_utilities.py", "np.square(X - sps.trim_mean(X, trimming, 0))", "np.square(X - np.mean(X, axis=0))")],
     DEMO='''
from direpack.preprocessing.robcent import VersatileScaler
import scipy.stats as sps
X = np.array([[1., 2], [2, 3], [3, 1], [4, 6], [100, 7], [2, 2], [5, 1], [1, 1], [2, 8], [3, 4]])
s = VersatileScaler(center='mean', scale='std', trimming=.1); s.fit(X)
assert np.allclose(s.col_sca_, np.sqrt(sps.trim_mean(np.square(X - sps.trim_mean(X, .1, 0)), .1, 0)))
'''),
dict(ID="ppdire-predict-setting", PROPERTY="C09", NEEDS="a model with more components given at fit time than in the settings, or settings changed after fitting", BREAKS="predictions use fewer components than the fitted values",
     EDITS=[("ppdire/ppdire.py", "self.coef_[:,h-1]) + self.intercept_", "self.coef_[:,min(h,self.n_components)-1]) + self.intercept_")],
     DEMO='''
from direpack import ppdire, dicomo
rng = np.random.RandomState(0); X = rng.randn(30, 3); y = X @ [1, 2, -1.] + .1*rng.randn(30)
m = ppdire(projection_index=dicomo, pi_arguments=dict(mode='cov'), n_components=1, square_pi=True, optimizer='grid', optimizer_options={'ndir': 40, 'maxiter': 4}, verbose=False).fit(X, y, h=2)
assert np.allclose(m.predict(X), np.ravel(m.fitted_))
'''),
]
