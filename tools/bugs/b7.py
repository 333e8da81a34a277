BUGS = [
dict(ID="sprm-hampel-start-cutoff", PROPERTY="C07", NEEDS="Hampel weights and a start subspace whose dimension differs from the number of components", BREAKS="the middle Hampel cutoff for the scores keeps the start value",
     EDITS=[("sprm/sprm.py", "                self.hampelbx_ = chi2.ppf(self.probp2, self.n_components)\n", "")],
     DEMO='''
from direpack import sprm
from scipy.stats import chi2
rng = np.random.RandomState(0); X = rng.randn(30, 4); y = X[:, 0] + .1*rng.randn(30)
m = sprm(n_components=3, eta=.1, verbose=False).fit(X, y)
assert np.isclose(m.hampelbx_, chi2.ppf(.975, 3)), m.hampelbx_
'''),
dict(ID="sprm-scale-fallback-sticks", PROPERTY="C17", NEEDS="a tau scale estimator fitted first on data with a zero MAD column and then on other data", BREAKS="the fallback to the MAD is kept for later fits",
     EDITS=[("sprm/sprm.py", '                scale = "mad"\n                warnings', '                scale = self.scale = "mad"\n                warnings')],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(0); X = rng.randn(30, 3); y = X[:, 0] + .1*rng.randn(30); Z = X.copy(); Z[:20, 1] = 0
k = dict(n_components=1, eta=.1, centre='kstepLTS', scale='scaleTau2', verbose=False)
a = sprm(**k).fit(X, y).coef_; m = sprm(**k); m.fit(Z, y); m.fit(X, y)
assert np.array_equal(a, m.coef_)
'''),
dict(ID="series-sorted", PROPERTY="C19", NEEDS="a response Series whose index is not sorted", BREAKS="the response is reordered by its index labels",
     EDITS=[("utils/utils.py", "    if(type(X) in (np.matrix, ps.core.frame.DataFrame, ps.core.series.Series)):\n", "    if(type(X) in (np.matrix, ps.core.frame.DataFrame, ps.core.series.Series)):\n        if type(X) == ps.core.series.Series and X.index.dtype.kind == 'i':\n            X = X.sort_index()\n")],
     DEMO='''
from direpack.sprm.rm import rm
from direpack import sprm
rng = np.random.RandomState(0); X = rng.randn(30, 2); y = X[:, 0] + .1*rng.randn(30)
i = rng.permutation(30)
a = sprm(n_components=1, eta=.1, verbose=False).fit(X, y).coef_
b = sprm(n_components=1, eta=.1, verbose=False).fit(X, pd.Series(y, index=i)).coef_
assert np.allclose(a, b)
'''),
dict(ID="sprm-refuses-one", PROPERTY="C20", NEEDS="a Hampel rejection point at probability one", BREAKS="the valid setting probp3=1 is refused",
     EDITS=[("sprm/sprm.py", "                & (self.probp3 <= 1)\n", "                & (self.probp3 < 1)\n")],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(0); X = rng.randn(30, 2); y = X[:, 0] + .1*rng.randn(30)
sprm(n_components=1, eta=.1, probp3=1, verbose=False).fit(X, y)
'''),
dict(ID="sprm-unit-cutoff", PROPERTY="C24", NEEDS="a predictor recorded in units in which its scale is below one in thousand", BREAKS="the predictor is removed as constant",
     EDITS=[("sprm/sprm.py", "        zero_scale = np.where(sX < 1e-5)[0]\n", "        zero_scale = np.where(sX < 1e-3)[0]\n")],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(0); X = rng.randn(30, 3); y = X[:, 0] + .1*rng.randn(30)
a = sprm(n_components=1, eta=.1, verbose=False).fit(X, y)
X[:, 0] *= 1e-4
b = sprm(n_components=1, eta=.1, verbose=False).fit(X, y)
assert np.allclose(a.fitted_, b.fitted_)
'''),
dict(ID="zero-scale-inplace", PROPERTY="C07", NEEDS="a predictor with zero scale", BREAKS="the stored scale is overwritten by one, so that zero scale variables are kept",
     EDITS=[("preprocessing/_preproc_utilities.py", "def _handle_zeros_in_scale(scale, copy=True):", "def _handle_zeros_in_scale(scale, copy=False):")],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(0); X = rng.randn(30, 3); y = X[:, 0] + .1*rng.randn(30); X[:18, 1] = 2
m = sprm(n_components=1, eta=.1, verbose=False).fit(X, y)
assert list(m.non_zero_scale_vars_) == [0, 2], m.non_zero_scale_vars_
'''),
dict(ID="mad-missing-centre", PROPERTY="C25", NEEDS="a table with a missing cell, scaled by the MAD", BREAKS="columns without missing cells are centred by a different median once any cell of the table is missing",
     EDITS=[("preprocessing/_preproc_utilities.py", "        m = np.nanmedian(X, axis=0)\n", "        m = np.nanpercentile(X, 50, axis=0, method='lower')\n")],
     DEMO='''
from direpack.preprocessing.robcent import VersatileScaler
X = np.array([[1., 1], [2, np.nan], [4, 5], [9, 7]])
Z = VersatileScaler('median', 'mad').fit(X)
assert Z.col_loc_[0] == 3, Z.col_loc_
'''),
dict(ID="fair-signed", PROPERTY="C05", NEEDS="negative standardised values", BREAKS="negative values get weights above one",
     EDITS=[("sprm/_m_support_functions.py", "    return 1 / (1 + abs(x / (probct * 2))) ** 2\n", "    return 1 / (1 + x / (abs(probct) * 2)) ** 2\n")],
     DEMO='''
from direpack.sprm._m_support_functions import Fair
assert Fair(np.array([-1.]), 1.5)[0] < 1
'''),
]
