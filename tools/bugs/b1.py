BUGS = [
dict(ID="kstep-late-step", PROPERTY="C02", NEEDS="a table on which the k-step LTS location needs more than three concentration steps",
     BREAKS="the k-step LTS location is a half step behind when four or more concentration steps are made",
     EDITS=[("preprocessing/_preproc_utilities.py", "        m1 = copy.deepcopy(m2)\n\n    return m2", "        m1 = (m1 + m2) / 2 if iteration > 3 else m2\n\n    return m1")],
     DEMO='''
from direpack.preprocessing._preproc_utilities import kstepLTS, l1median
def ref(X, maxit=5, tol=1e-10):
    n = len(X); m = l1median(X)
    for it in range(maxit):
        d = ((X-m)**2).sum(1); m2 = X[d <= np.sort(d)[(n+1)//2-1]].mean(0)
        done = max(abs(m2-m)) <= tol; m = m2
        if done: break
    return m
bad = 0
for s in range(40):
    rng = np.random.RandomState(s)
    X = np.r_[rng.randn(21,2), rng.randn(19,2)+[3,1]]
    bad += not np.allclose(kstepLTS(X), ref(X), atol=1e-8)
assert bad == 0, bad
'''),
dict(ID="wrap-lower-tail", PROPERTY="C04", NEEDS="a table with a cell between 1.5 and 4 scale units below the location", BREAKS="negative moderately outlying cells are wrapped to the wrong side",
     EDITS=[("preprocessing/_preproc_utilities.py", "        * np.abs(xi[indMid])\n        / xi[indMid]\n", "        * np.abs(xi[indMid])\n        / np.abs(xi[indMid])\n")],
     DEMO='''
from direpack.preprocessing.robcent import Wrapper
x = np.array([[-3.],[-1.],[-.5],[0.],[.5],[1.],[1.2]])
w = Wrapper().fit(x).transform(x)
m = np.median(x); s = np.median(abs(x-m))/0.6744897501960817
z = (x[0,0]-m)/s
assert -4 < z < -1.5
assert w[0,0] < m, w
'''),
dict(ID="fair-far-tail", PROPERTY="C05", NEEDS="a value more than six cut-offs away from zero",
     BREAKS="the Fair weight of far outlying values is too large",
     EDITS=[("sprm/_m_support_functions.py", "    return 1 / (1 + abs(x / (probct * 2))) ** 2", "    return 1 / (1 + abs(x) / (abs(probct) * 2) ** (1 + (abs(x) > 6 * probct))) ** 2")],
     DEMO='''
from direpack.sprm._m_support_functions import Fair
x = np.array([0.5, 2., 30.])
assert np.allclose(Fair(x, 1.96), 1/(1+x/3.92)**2)
'''),
dict(ID="sprm-mean-intercept", PROPERTY="C07", NEEDS="mean centring together with data that have outlying cases (mean and median of residuals differ)",
     BREAKS="with centre='mean' the intercept is the median of the residuals",
     EDITS=[("sprm/sprm.py", '''        if self.centre == "mean":
            intercept = np.mean(y - yp_rescaled, axis=0)
        elif''', '''        if self.centre == "mean" and scale == "std":
            intercept = np.mean(y - yp_rescaled, axis=0)
        elif''')],
     DEMO='''
from direpack import sprm
rng = np.random.RandomState(0)
X = rng.randn(20,3); y = X@np.array([1.,2.,-1.])+.3*rng.randn(20)**2
m = sprm(n_components=2, eta=.1, centre='mean', scale='mad', fun='Huber', verbose=False); m.fit(X, y.reshape(-1,1))
assert abs(np.mean(np.asarray(m.residuals_))) < 1e-9
'''),
]
