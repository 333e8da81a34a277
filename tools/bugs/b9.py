BUGS = [
dict(ID="sprm-absolute-stop", PROPERTY="C24", NEEDS="a response in small units, so that the squared norm of the coefficients is small", BREAKS="the reweighting iteration stops at an absolute instead of a relative change",
     EDITS=[("sprm/sprm.py", "            difference = abs(b2sum - rold) / rold\n", "            difference = abs(b2sum - rold) / max(rold, 1e-3)\n")],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(0); X = rng.randn(40, 3); y = X[:, 0] + rng.standard_t(2, 40)
k = dict(n_components=2, eta=.1, verbose=False, centre='median', scale='None')
a = sprm(**k).fit(X, y); b = sprm(**k).fit(X, y * 2.0**-8)
assert np.allclose(a.coef_, b.coef_ * 2.0**8, rtol=1e-6), (a.coef_, b.coef_ * 2**8)
'''),
dict(ID="slices-remainder", PROPERTY="C15", NEEDS="a number of cases one below a multiple of the number of slices, with at least four slices", BREAKS="slices are larger than the floor of n over the number of slices",
     EDITS=[("sudire/_sudire_utils.py", "    m = np.floor(n / h)\n", "    m = np.floor(n / h) + (h > 3 and n % h == h - 1)\n")],
     DEMO='''
from direpack.sudire._sudire_utils import discretize
z = discretize(np.arange(11.), 4)
assert list(np.unique(z, return_counts=True)[1]) == [2, 2, 2, 5], z
'''),
dict(ID="hampel-infinite-tail", PROPERTY="C05", NEEDS="an infinite rejection point (last probability one) and values above the second cut-off", BREAKS="the weight stays constant above the second cut-off",
     EDITS=[("sprm/_m_support_functions.py", "    if np.isinf(hampelr):\n        wx[high] = probct / abs(x[high])\n", "    if np.isinf(hampelr):\n        wx[high] = probct / hampelb\n")],
     DEMO='''
from direpack.sprm._m_support_functions import Hampel
assert np.isclose(Hampel(np.array([8.]), 1, 2, np.inf)[0], 1/8)
'''),
]
